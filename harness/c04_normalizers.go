package main

// C04: every normalizer gives the text of its definition, and aligns each char
// of it with the part of the original it comes from.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/rivo/uniseg"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/spm"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// normSpec describes a normalizer; it is how cases are written down.
type normSpec struct {
	Kind  string
	Flags []bool      `json:",omitempty"`
	S     string      `json:",omitempty"`
	S2    string      `json:",omitempty"`
	Rules [][2]string `json:",omitempty"`
	Seq   []normSpec  `json:",omitempty"`
}

func (s normSpec) build() normalizer.Normalizer {
	switch s.Kind {
	case "bert":
		return normalizer.NewBertNormalizer(s.Flags[0], s.Flags[1], s.Flags[2], s.Flags[3])
	case "nfc":
		return normalizer.NewNFC()
	case "nfd":
		return normalizer.NewNFD()
	case "nfkc":
		return normalizer.NewNFKC()
	case "nfkd":
		return normalizer.NewNFKD()
	case "unicode":
		return normalizer.NewUnicodeNormalizer(formOf[s.S])
	case "lower":
		return normalizer.Lowercase()
	case "default":
		if s.Flags[0] && s.Flags[1] { // as it is by default
			return normalizer.NewNormalizer()
		}
		return normalizer.NewDefaultNormalizer(normalizer.WithLowercase(s.Flags[0]), normalizer.WithStrip(s.Flags[1]))
	case "strip":
		return normalizer.NewStrip(s.Flags[0], s.Flags[1])
	case "accents":
		return normalizer.NewStripAccents()
	case "prepend":
		return normalizer.NewPrepend(s.S)
	case "replace":
		return normalizer.NewReplace(normalizer.String, s.S, s.S2)
	case "replacere":
		return normalizer.NewReplace(normalizer.Regex, s.S, s.S2)
	case "precompiled":
		p, err := spm.NewPrecompiledFrom(buildCharsmap(s.Rules))
		if err != nil {
			panic(err)
		}
		return &normalizer.Precompiled{Precompiled: p}
	case "nmtnfkc":
		return &normalizer.Precompiled{Precompiled: nmtNfkc()}
	case "wrapbert":
		return normalizer.NewNormalizer(normalizer.WithBertNormalizer(s.Flags[0], s.Flags[1], s.Flags[2], s.Flags[3]))
	case "wrapunicode":
		return normalizer.NewNormalizer(normalizer.WithUnicodeNormalizer(formOf[s.S]))
	case "seq":
		var ns []normalizer.Normalizer
		for _, x := range s.Seq {
			ns = append(ns, x.build())
		}
		return normalizer.NewSequence(ns)
	}
	panic("harness: normalizer " + s.Kind)
}

var nmtNfkc = sync.OnceValue(func() *spm.Precompiled {
	p, err := spm.NewPrecompiledFrom(spm.NmtNfkc())
	if err != nil {
		panic(err)
	}
	return p
})

// buildCharsmap encodes rules in the sentencepiece format: a double array trie,
// then the replacements, each ended by a NUL.
func buildCharsmap(rules [][2]string) []byte {
	var blob []byte
	vals := map[string]int{}
	var keys []string
	for _, r := range rules {
		if _, dup := vals[r[0]]; dup {
			continue
		}
		vals[r[0]] = len(blob)
		blob = append(append(blob, r[1]...), 0)
		keys = append(keys, r[0])
	}
	sort.Strings(keys)
	units := map[int]uint32{}
	used := map[int]bool{0: true}
	bases := map[int]bool{}
	maxPos := 0
	var place func(pos int, label byte, isRoot bool, pre string, ks []string)
	place = func(pos int, label byte, isRoot bool, pre string, ks []string) {
		kids := map[byte][]string{}
		var order []byte
		leaf := false
		for _, k := range ks {
			if k == pre {
				leaf = true
				continue
			}
			c := k[len(pre)]
			if kids[c] == nil {
				order = append(order, c)
			}
			kids[c] = append(kids[c], k)
		}
		base := 1
		for ; ; base++ {
			ok := !bases[base] && !(leaf && (used[base] || base == pos))
			for _, c := range order {
				if used[base^int(c)] || base^int(c) == pos {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		bases[base] = true
		u := uint32(pos^base) << 10
		if !isRoot {
			u |= uint32(label)
		}
		if leaf {
			u |= 1 << 8
			used[base] = true
			maxPos = max(maxPos, base)
			units[base] = 1<<31 | uint32(vals[pre])
		}
		units[pos] = u
		maxPos = max(maxPos, pos)
		for _, c := range order {
			used[base^int(c)] = true
			maxPos = max(maxPos, base^int(c))
		}
		for _, c := range order {
			place(base^int(c), c, false, pre+string([]byte{c}), kids[c])
		}
	}
	place(0, 0, true, "", keys)
	n := maxPos + 1
	out := binary.LittleEndian.AppendUint32(nil, uint32(n*4))
	for i := 0; i < n; i++ {
		u, ok := units[i]
		if !ok {
			u = 1 << 31 // a label no byte matches
		}
		out = binary.LittleEndian.AppendUint32(out, u)
	}
	return append(out, blob...)
}

// lookup: the rule for the shortest prefix of the chunk (sentencepiece as
// ported by HF takes the first result of the common prefix search).
type lookupFn func(chunk string) (string, bool)

func rulesLookup(rules [][2]string) lookupFn {
	m := map[string]string{}
	for _, r := range rules {
		if _, dup := m[r[0]]; !dup {
			m[r[0]] = r[1]
		}
	}
	return func(chunk string) (string, bool) {
		for i := 1; i <= len(chunk); i++ {
			if v, ok := m[chunk[:i]]; ok {
				return v, true
			}
		}
		return "", false
	}
}

// nmtLookup walks the embedded charsmap on its own.
var nmtLookup = sync.OnceValue(func() lookupFn {
	data := spm.NmtNfkc()
	size := int(binary.LittleEndian.Uint32(data))
	unit := func(i int) uint32 { return binary.LittleEndian.Uint32(data[4+4*i:]) }
	text := data[4+size:]
	offset := func(u uint32) int { return int((u >> 10) << ((u & (1 << 9)) >> 6)) }
	return func(chunk string) (string, bool) {
		pos := offset(unit(0))
		for i := 0; i < len(chunk); i++ {
			c := chunk[i]
			if c == 0 {
				break
			}
			pos ^= int(c)
			if pos >= size/4 {
				break
			}
			u := unit(pos)
			if u&(1<<31|0xff) != uint32(c) {
				break
			}
			pos ^= offset(u)
			if u>>8&1 == 1 {
				v := int(unit(pos) & (1<<31 - 1))
				e := v
				for e < len(text) && text[e] != 0 {
					e++
				}
				return string(text[v:e]), true
			}
		}
		return "", false
	}
})

// ---- the model: what each normalizer makes of a list of expected chars

func ehull(es []exp) (int, int, bool) {
	if len(es) == 0 {
		return 0, 0, false
	}
	a, b := es[0].a, es[0].b
	for _, c := range es {
		a, b = min(a, c.a), max(b, c.b)
	}
	return a, b, len(es) == 1 && es[0].exact
}

func etext(es []exp) string {
	var sb strings.Builder
	for _, c := range es {
		sb.WriteString(c.s)
	}
	return sb.String()
}

func erune(e exp) rune { r, _ := utf8.DecodeRuneInString(e.s); return r }

// formString is the normalization form of a text.  A sequence of more than 30
// marks is outside: golang.org/x/text breaks it up with U+034F, but not always.
func formString(form norm.Form, s string) string {
	out := form.String(s)
	if len(s) > 30 && strings.Count(out, "\u034f") != strings.Count(s, "\u034f") {
		outside = "more than 30 marks"
	}
	return out
}

func eForm(form norm.Form, es []exp) []exp {
	var out []exp
	t := etext(es)
	formString(form, t)
	ci := 0
	for len(t) > 0 {
		size := form.NextBoundaryInString(t, true)
		k := utf8.RuneCountInString(t[:size])
		a, b, ex := ehull(es[ci : ci+k])
		for _, r := range formString(form, t[:size]) {
			out = append(out, exp{string(r), a, b, ex})
		}
		t = t[size:]
		ci += k
	}
	return out
}

func eMap(es []exp, fn func(rune) rune) []exp {
	var out []exp
	for _, e := range es {
		out = append(out, exp{string(fn(erune(e))), e.a, e.b, e.exact})
	}
	return out
}

func eFilter(es []exp, fn func(rune) bool) []exp {
	var out []exp
	for _, e := range es {
		if fn(erune(e)) {
			out = append(out, e)
		}
	}
	return out
}

func eStrip(es []exp, l, r bool) []exp {
	for l && len(es) > 0 && unicode.IsSpace(erune(es[0])) {
		es = es[1:]
	}
	for r && len(es) > 0 && unicode.IsSpace(erune(es[len(es)-1])) {
		es = es[:len(es)-1]
	}
	return es
}

func notMn(r rune) bool { return !unicode.Is(unicode.Mn, r) }

// eReplace replaces the given byte spans of the text.
func eReplace(es []exp, spans [][]int, by string) []exp {
	var out []exp
	p, i := 0, 0
	for _, sp := range spans {
		for i < len(es) && p < sp[0] {
			out = append(out, es[i])
			p += len(es[i].s)
			i++
		}
		j := i
		for j < len(es) && p < sp[1] {
			p += len(es[j].s)
			j++
		}
		a, b, ex := ehull(es[i:j])
		for _, r := range by {
			out = append(out, exp{string(r), a, b, ex})
		}
		i = j
	}
	return append(out, es[i:]...)
}

func isCJK(r rune) bool {
	for _, x := range [][2]rune{{0x4E00, 0x9FFF}, {0x3400, 0x4DBF}, {0x20000, 0x2A6DF}, {0x2A700, 0x2B73F}, {0x2B740, 0x2B81F}, {0x2B820, 0x2CEAF}, {0xF900, 0xFAFF}, {0x2F800, 0x2FA1F}} {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

func ePrecompiled(es []exp, look lookupFn) []exp {
	var out []exp
	i := 0
	emit := func(part []exp, by string) {
		a, b, ex := ehull(part)
		for _, r := range by {
			out = append(out, exp{string(r), a, b, ex})
		}
	}
	g := uniseg.NewGraphemes(etext(es))
	for g.Next() {
		k := utf8.RuneCountInString(g.Str())
		part := es[i : i+k]
		i += k
		if len(g.Str()) < 6 {
			if by, ok := look(g.Str()); ok {
				emit(part, by)
				continue
			}
		}
		for _, e := range part {
			if by, ok := look(e.s); ok {
				emit([]exp{e}, by)
			} else {
				out = append(out, e)
			}
		}
	}
	return out
}

func (s normSpec) model(es []exp) []exp {
	switch s.Kind {
	case "bert", "wrapbert":
		if s.Flags[0] {
			es = eFilter(es, func(r rune) bool {
				return !(r == 0 || r == 0xfffd || (r != '\t' && r != '\n' && r != '\r' && unicode.In(r, unicode.Cc, unicode.Cf)))
			})
			es = eMap(es, func(r rune) rune {
				if r == '\t' || r == '\n' || r == '\r' {
					return ' '
				}
				return r
			})
		}
		if s.Flags[2] {
			var out []exp
			for _, e := range es {
				if isCJK(erune(e)) {
					sp := exp{" ", e.a, e.b, e.exact}
					out = append(out, sp, e, sp)
				} else {
					out = append(out, e)
				}
			}
			es = out
		}
		if s.Flags[1] {
			es = eMap(es, unicode.ToLower)
		}
		if s.Flags[3] {
			es = eFilter(eForm(norm.NFD, es), notMn)
		}
		return es
	case "nfc", "nfd", "nfkc", "nfkd":
		return eForm(formOf[s.Kind], es)
	case "unicode", "wrapunicode":
		return eForm(formOf[s.S], es)
	case "lower":
		return eMap(es, unicode.ToLower)
	case "default":
		if s.Flags[0] {
			es = eMap(es, unicode.ToLower)
		}
		return eStrip(es, s.Flags[1], s.Flags[1])
	case "strip":
		return eStrip(es, s.Flags[0], s.Flags[1])
	case "accents":
		return eFilter(es, notMn)
	case "prepend":
		if len(es) == 0 {
			return es
		}
		var out []exp
		for _, r := range s.S {
			out = append(out, exp{string(r), 0, es[0].b, false})
		}
		return append(out, es...)
	case "replace":
		var spans [][]int
		if s.S != "" {
			t := etext(es)
			for p := 0; ; {
				k := strings.Index(t[p:], s.S)
				if k < 0 {
					break
				}
				spans = append(spans, []int{p + k, p + k + len(s.S)})
				p += k + len(s.S)
			}
		}
		return eReplace(es, spans, s.S2)
	case "replacere":
		return eReplace(es, regexp.MustCompile(s.S).FindAllStringIndex(etext(es), -1), s.S2)
	case "precompiled":
		return ePrecompiled(es, rulesLookup(s.Rules))
	case "nmtnfkc":
		return ePrecompiled(es, nmtLookup())
	case "seq":
		for _, x := range s.Seq {
			es = x.model(es)
		}
		return es
	}
	panic("harness: normalizer " + s.Kind)
}

func bools(t *rapid.T, n int) []bool {
	return rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, "flags")
}

var ruleKeys = []string{"a", "b", "ab", "é", "e", "e\u0301", "中", "中国", "ﬁ", "²", " ", "\u00a0", "\u200d", "😀", "Å", "ABC", "\u0301", "\x01", "ा", "Ａ", "un"}

func genNormSpec(t *rapid.T, depth int) normSpec {
	kinds := []string{"bert", "bert", "bert", "nfc", "nfd", "nfkc", "nfkd", "unicode", "lower", "default", "strip", "accents", "prepend", "replace", "replacere", "precompiled", "precompiled", "nmtnfkc", "nmtnfkc"}
	if depth > 0 {
		kinds = append(kinds, "seq", "seq", "seq", "seq")
		if depth > 1 {
			kinds = append(kinds, "wrapbert", "wrapunicode")
		}
	}
	s := normSpec{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch s.Kind {
	case "bert", "wrapbert":
		s.Flags = bools(t, 4)
	case "strip", "default":
		s.Flags = bools(t, 2)
	case "unicode", "wrapunicode":
		s.S = pick(t, "form", []string{"nfc", "nfd", "nfkc", "nfkd"})
	case "prepend":
		s.S = pick(t, "s", []string{"▁", " ", "ab", "é中", "", "\t"})
	case "replace":
		s.S = pick(t, "pat", []string{"a", " ", "e", "é", "中", "an", "##", ".", "  ", "\u0301", "", "aa", "`", "[", "\\"})
		s.S2 = pick(t, "by", []string{"", "▁", "a", "xyz", "é中", "aa", "$1"})
	case "replacere":
		s.S = pick(t, "pat", []string{"[ab]+", " {2,}", `\s`, `\p{L}`, "[^a-z]", "é|e", `\w+`, ".", `\d\d?`})
		s.S2 = pick(t, "by", []string{"", "▁", "a", "xyz", "é中", "$1"})
	case "precompiled":
		n := rapid.IntRange(1, 6).Draw(t, "rules")
		for i := 0; i < n; i++ {
			s.Rules = append(s.Rules, [2]string{pick(t, "k", ruleKeys), pick(t, "v", []string{"", "a", "fi", "é", " ", "▁中", "xyz", "中"})})
		}
	case "seq":
		n := rapid.IntRange(0, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			s.Seq = append(s.Seq, genNormSpec(t, depth-1))
		}
	}
	return s
}

type normCase struct {
	Text string
	Norm normSpec
}

func runNormCase(x *Ctx, c normCase) error {
	m := newMns(c.Text)
	var es []exp
	for _, ch := range m.chars {
		es = append(es, keep(ch))
	}
	want := c.Norm.model(es)
	n, err := c.Norm.build().Normalize(normalizer.NewNormalizedFrom(c.Text))
	if err != nil {
		return fmt.Errorf("Normalize: %v", err)
	}
	if n == nil {
		return fmt.Errorf("Normalize gives nil")
	}
	if err := m.adopt(n, want); err != nil {
		return err
	}
	x.NonTrivial(etext(want) != c.Text)
	x.Label(c.Norm.Kind, etext(want) != c.Text)
	return m.check(n)
}

// refuseCase is a sequence whose part At refuses any text.
type refuseCase struct {
	Text  string
	Norms []normSpec
	At    int
	In    bool // within a sequence of its own
}

// refusal is a normalizer which refuses any text, spy one which notes that it is called.
type refusal struct{ seen string }

func (r *refusal) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	r.seen = n.GetNormalized()
	return nil, errRefused
}

type spy struct{ called bool }

func (s *spy) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	s.called = true
	return n, nil
}

func runRefuse(x *Ctx, c refuseCase) error {
	at := min(c.At, len(c.Norms))
	re, after := &refusal{}, &spy{}
	var ns []normalizer.Normalizer
	want := []exp{}
	for _, ch := range newMns(c.Text).chars {
		want = append(want, keep(ch))
	}
	for _, s := range c.Norms[:at] {
		ns = append(ns, s.build())
		want = s.model(want)
	}
	bad := normalizer.Normalizer(re)
	if c.In {
		bad = normalizer.NewSequence([]normalizer.Normalizer{re, after})
	}
	ns = append(ns, bad, after)
	for _, s := range c.Norms[at:] {
		ns = append(ns, s.build())
	}
	_, err := normalizer.NewSequence(ns).Normalize(normalizer.NewNormalizedFrom(c.Text))
	x.NonTrivial(at > 0)
	switch {
	case !errors.Is(err, errRefused):
		return fmt.Errorf("part %d refuses the text, but the sequence gives the error %v", at, err)
	case re.seen != etext(want):
		return fmt.Errorf("part %d is given %q, want %q", at, re.seen, etext(want))
	case after.called:
		return fmt.Errorf("the parts after part %d are called", at)
	}
	return nil
}

func init() {
	Prop("C04", "random texts over mixed scripts x random normalizer (all kinds, nested sequences, generated precompiled charsmaps and the embedded one); non-trivial: the normalizer changes the text")
	Reg("C04", "single", 900000, 30000000, func(t *rapid.T) normCase {
		return normCase{genText(t, "text", 8), genNormSpec(t, 0)}
	}, runNormCase)
	sequence := func(t *rapid.T) normCase {
		return normCase{stretch(t, genText(t, "text", 8), 1200), genNormSpec(t, 2)}
	}
	genNormCase = sequence
	Reg("C04", "sequence", 500000, 15000000, sequence, runNormCase)
	Reg("C04", "long", 15000, 500000, Large(sequence), runNormCase)
	// The unicode forms are idempotent and agree with the reference tables over
	// arbitrary runes (not only the listed pieces).
	Reg("C04", "forms-any-rune", 200000, 3000000, func(t *rapid.T) normCase {
		rs := rapid.SliceOfN(rapid.OneOf(rapid.Rune(), rapid.RuneFrom(nil, unicode.M), rapid.RuneFrom(nil, unicode.L), rapid.RuneFrom(nil, unicode.Hangul)), 1, 6).Draw(t, "runes")
		k := pick(t, "form", []string{"nfc", "nfd", "nfkc", "nfkd"})
		return normCase{string(rs), normSpec{Kind: k}}
	}, func(x *Ctx, c normCase) error {
		if err := runNormCase(x, c); err != nil {
			return err
		}
		n, _ := c.Norm.build().Normalize(normalizer.NewNormalizedFrom(c.Text))
		if want := formString(formOf[c.Norm.Kind], c.Text); n.GetNormalized() != want {
			return fmt.Errorf("%q, want %q", n.GetNormalized(), want)
		}
		return nil
	})
	// The character classes of the BERT normalizer, at the edges of their ranges.
	Reg("C04", "bert-classes", 100000, 1000000, func(t *rapid.T) normCase {
		edges := []rune{0x4E00, 0x9FFF, 0x3400, 0x4DBF, 0x20000, 0x2A6DF, 0x2A700, 0x2B73F, 0x2B740, 0x2B81F, 0x2B820, 0x2CEAF, 0xF900, 0xFAFF, 0x2F800, 0x2FA1F, 0, 9, 10, 13, 32, 0x7f, 0x85, 0xa0, 0xad, 0xfffd, 0xfeff}
		rs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) rune {
			switch weighted(t, "k", 4, 1, 1, 2) {
			case 0:
				r := rapid.SampledFrom(edges).Draw(t, "edge") + rune(rapid.IntRange(-2, 2).Draw(t, "d"))
				return max(r, 0)
			case 1:
				return rapid.RuneFrom(nil, unicode.C).Draw(t, "c")
			case 2:
				return rapid.RuneFrom(nil, unicode.Mn, unicode.Han).Draw(t, "m")
			}
			return rapid.RuneFrom([]rune("aAéÉ ")).Draw(t, "l")
		}), 1, 6).Draw(t, "runes")
		return normCase{strings.ToValidUTF8(string(rs), "?"), normSpec{Kind: "bert", Flags: bools(t, 4)}}
	}, func(x *Ctx, c normCase) error {
		for _, r := range c.Text {
			space := strings.ContainsRune(" \t\n\r", r)
			if normalizer.IsChinese(r) != isCJK(r) || normalizer.IsWhitespace(r) != space || normalizer.IsBertWhitespace(r) != space || normalizer.IsPunctuation(r) != isPunc(r) || normalizer.IsBertPunctuation(r) != isPunc(r) {
				return fmt.Errorf("%U is in another class", r)
			}
		}
		return runNormCase(x, c)
	})
	// A part of a sequence which refuses the text.
	Reg("C04", "refused", 20000, 200000, func(t *rapid.T) refuseCase {
		c := refuseCase{Text: genText(t, "text", 6), At: rapid.IntRange(0, 2).Draw(t, "at"), In: rapid.Bool().Draw(t, "in")}
		for i := rapid.IntRange(c.At, 3).Draw(t, "parts"); i >= 0; i-- {
			c.Norms = append(c.Norms, genNormSpec(t, 1))
		}
		return c
	}, runRefuse)
	// The embedded charsmap, as a plain string to string function.  Mn marks are
	// left out: spm.NormalizeString writes them as U+XXXX, which its own tests pin.
	Reg("C04", "spm-string", 50000, 400000, func(t *rapid.T) normCase {
		return normCase{strings.Map(func(r rune) rune {
			if unicode.Is(unicode.Mn, r) {
				return -1
			}
			return r
		}, genText(t, "text", 8)), normSpec{Kind: "nmtnfkc"}}
	}, func(x *Ctx, c normCase) error {
		var es []exp
		for _, ch := range newMns(c.Text).chars {
			es = append(es, keep(ch))
		}
		want := etext(ePrecompiled(es, nmtLookup()))
		if strings.ContainsFunc(want, func(r rune) bool { return unicode.Is(unicode.Mn, r) }) {
			return nil
		}
		x.NonTrivial(want != c.Text)
		if got := nmtNfkc().NormalizeString(c.Text); got != want {
			return fmt.Errorf("NormalizeString(%q) = %q, want %q", c.Text, got, want)
		}
		return nil
	})
	// A malformed charsmap is refused or harmless, never a crash.
	Reg("C04", "charsmap-bytes", 20000, 400000, func(t *rapid.T) struct {
		Data Str
		Text string
	} {
		var d []byte
		if rapid.Bool().Draw(t, "mutate") {
			s := genNormSpecKind(t, "precompiled")
			d = buildCharsmap(s.Rules)
			n := rapid.IntRange(0, 4).Draw(t, "muts")
			for i := 0; i < n; i++ {
				p := rapid.IntRange(0, len(d)-1).Draw(t, "pos")
				d[p] = rapid.Byte().Draw(t, "byte")
			}
			d = d[:rapid.IntRange(0, len(d)).Draw(t, "len")]
		} else {
			d = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		}
		return struct {
			Data Str
			Text string
		}{Str(d), genText(t, "text", 4)}
	}, func(x *Ctx, c struct {
		Data Str
		Text string
	}) error {
		p, err := spm.NewPrecompiledFrom([]byte(c.Data))
		if err != nil {
			return nil
		}
		n, err := (&normalizer.Precompiled{Precompiled: p}).Normalize(normalizer.NewNormalizedFrom(c.Text))
		if err != nil {
			return nil
		}
		x.NonTrivial(n.GetNormalized() != c.Text)
		m := newMns(c.Text)
		if !utf8.ValidString(n.GetNormalized()) {
			return nil
		}
		return m.check(n)
	})
}

func genNormSpecKind(t *rapid.T, kind string) normSpec {
	s := normSpec{Kind: kind}
	n := rapid.IntRange(1, 4).Draw(t, "rules")
	for i := 0; i < n; i++ {
		s.Rules = append(s.Rules, [2]string{pick(t, "k", ruleKeys), pick(t, "v", []string{"", "a", "fi", "é", " "})})
	}
	return s
}
