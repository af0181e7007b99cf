package main

// C05: splitting on a pattern; C06: the pre-tokenizers.

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"pgregory.net/rapid"
)

// ---- patterns

type patSpec struct {
	Kind   string // rune string regex fn
	S      string
	Invert bool `json:",omitempty"`
}

var fnPatterns = map[string]func(rune) bool{
	"space": unicode.IsSpace, "upper": unicode.IsUpper, "notletter": func(r rune) bool { return !unicode.IsLetter(r) },
	"all": func(rune) bool { return true }, "none": func(rune) bool { return false },
}

func (p patSpec) build() normalizer.Pattern {
	var pat normalizer.Pattern
	switch p.Kind {
	case "rune":
		pat = normalizer.NewRunePattern([]rune(p.S)[0])
	case "string":
		pat = normalizer.NewStringPattern(p.S)
	case "regex":
		pat = normalizer.NewRegexpPattern(p.S)
	case "fn":
		pat = normalizer.NewFnPattern(fnPatterns[p.S])
	}
	if p.Invert {
		pat = normalizer.NewInvertPattern(pat)
	}
	return pat
}

type seg struct {
	es    []exp
	match bool
}

// segments cuts es at the matches of the pattern.
func (p patSpec) segments(es []exp) []seg {
	t := etext(es)
	var spans [][]int
	switch p.Kind {
	case "rune", "fn":
		pos := 0
		for _, e := range es {
			if (p.Kind == "rune" && e.s == p.S) || (p.Kind == "fn" && fnPatterns[p.S](erune(e))) {
				spans = append(spans, []int{pos, pos + len(e.s)})
			}
			pos += len(e.s)
		}
	case "string":
		for pos := 0; p.S != ""; {
			k := strings.Index(t[pos:], p.S)
			if k < 0 {
				break
			}
			spans = append(spans, []int{pos + k, pos + k + len(p.S)})
			pos += k + len(p.S)
		}
	case "regex":
		spans = regexp.MustCompile(p.S).FindAllStringIndex(t, -1)
	}
	return cut(es, spans, p.Invert)
}

func cut(es []exp, spans [][]int, invert bool) []seg {
	var out []seg
	pos, i := 0, 0
	take := func(to int, m bool) {
		j := i
		for j < len(es) && pos < to {
			pos += len(es[j].s)
			j++
		}
		if j > i {
			out = append(out, seg{es[i:j], m != invert})
		}
		i = j
	}
	for _, sp := range spans {
		take(sp[0], false)
		if sp[0] == sp[1] { // an empty match
			out = append(out, seg{nil, !invert})
			continue
		}
		take(sp[1], true)
	}
	take(1<<30, false)
	return out
}

// behave applies a split behavior, by its documentation.
func behave(segs []seg, b normalizer.SplitDelimiterBehavior) [][]exp {
	var out [][]exp
	cat := func(a, b []exp) []exp { return append(append([]exp{}, a...), b...) }
	switch b {
	case normalizer.RemovedBehavior:
		for _, s := range segs {
			if !s.match {
				out = append(out, s.es)
			}
		}
	case normalizer.IsolatedBehavior:
		for _, s := range segs {
			out = append(out, s.es)
		}
	case normalizer.MergedWithPreviousBehavior:
		for i, s := range segs {
			if s.match && i > 0 && !segs[i-1].match {
				out[len(out)-1] = cat(out[len(out)-1], s.es)
			} else {
				out = append(out, s.es)
			}
		}
	case normalizer.MergedWithNextBehavior:
		for i := 0; i < len(segs); i++ {
			if segs[i].match && i+1 < len(segs) && !segs[i+1].match {
				out = append(out, cat(segs[i].es, segs[i+1].es))
				i++
			} else {
				out = append(out, segs[i].es)
			}
		}
	case normalizer.ContiguousBehavior:
		for i, s := range segs {
			if i > 0 && s.match == segs[i-1].match {
				out[len(out)-1] = append(out[len(out)-1], s.es...)
			} else {
				out = append(out, cat(nil, s.es))
			}
		}
	}
	return out
}

var splitRegexes = []string{`\s+`, `\s`, `[a-c]+`, `\w+`, `\w+|[^\w\s]+`, `é|ed`, `\p{L}+`, `\d`, `.`, `a|ab`, `--?`, `-*`, `a?`, `\b`, `$`, `^`, `^a?|-`, `\s*`}

func genPat(t *rapid.T) patSpec {
	p := patSpec{Kind: pick(t, "pk", []string{"rune", "string", "regex", "fn"}), Invert: weighted(t, "inv", 3, 1) == 1}
	switch p.Kind {
	case "rune":
		p.S = pick(t, "r", []string{"a", " ", "-", "é", "中", "😀", "b", "\x00"})
	case "string":
		p.S = pick(t, "s", []string{"a", " ", "--", "-", "é", "中", "aa", "un", ".", "", "un want", "[", "$"})
	case "regex":
		p.S = pick(t, "re", splitRegexes)
	case "fn":
		p.S = pick(t, "fn", []string{"space", "upper", "notletter", "all", "none"})
	}
	return p
}

// splitText draws texts in which delimiters are frequent and adjacent.
func splitText(t *rapid.T) string {
	if rapid.Bool().Draw(t, "dense") {
		return stretch(t, genOver(t, "dense", []string{"a", "b", "-", " ", "é", "中", "aa", "un", ".", "A", "1"}, 0, 12), 1200)
	}
	return stretch(t, genText(t, "text", 8), 1200)
}

type splitCase struct {
	Text     string
	Norm     *normSpec `json:",omitempty"`
	Pat      patSpec
	Behavior int
	Pre      bool // through the Split pre-tokenizer
}

// normalized builds the string, and the model of it as aligned by the code.
func normalizedOf(text string, ns *normSpec) (*normalizer.NormalizedString, []exp, error) {
	n := normalizer.NewNormalizedFrom(text)
	if ns != nil {
		var err error
		if n, err = ns.build().Normalize(n); err != nil {
			return nil, nil, err
		}
	}
	return n, expsOf(n), nil
}

func expsOf(n *normalizer.NormalizedString) []exp {
	var es []exp
	al := n.Alignments()
	for i, r := range n.GetNormalized() {
		a := al[i]
		es = append(es, exp{string(r), a[0], a[1], true})
	}
	return es
}

func nonEmpty(ps [][]exp) [][]exp {
	var out [][]exp
	for _, p := range ps {
		if len(p) > 0 {
			out = append(out, p)
		}
	}
	return out
}

// spanOf gives the least and the greatest span the split may report.
func spanOf(es []exp) (ia, ib, oa, ob int) {
	oa, ob = es[0].a, es[len(es)-1].b
	ia, ib = oa, ob
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].exact {
			ia = es[i].a
		}
	}
	if !es[0].exact {
		// inexact leading chars may be anywhere from their a to the next exact char
		for _, e := range es {
			if e.exact {
				break
			}
			oa = min(oa, e.a)
		}
	}
	return
}

// charIndex gives the number of chars before a position of text.
func charIndex(text string) func(int) int {
	if len(text) < 200 {
		return func(i int) int { return utf8.RuneCountInString(text[:i]) }
	}
	at := make([]int, len(text)+1)
	n := 0
	for i := 0; i < len(text); {
		_, k := utf8.DecodeRuneInString(text[i:])
		for j := 0; j < k; j++ {
			at[i+j] = n + min(j, 1)
		}
		n++
		i += k
	}
	at[len(text)] = n
	return func(i int) int { return at[i] }
}

func checkSplits(text string, pt *tokenizer.PreTokenizedString, want [][]exp) error {
	want = nonEmpty(want)
	desc := func() string {
		var s []string
		for _, w := range want {
			s = append(s, fmt.Sprintf("%q", etext(w)))
		}
		return strings.Join(s, " ")
	}
	ob := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	nb := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte)
	oc := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Char)
	nc := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Char)
	if len(want) == 0 && len(ob) == 1 && ob[0].Value == "" {
		return nil // an empty text which nothing has split
	}
	if len(ob) != len(want) || len(nb) != len(want) || len(oc) != len(want) || len(nc) != len(want) {
		return fmt.Errorf("%d splits %v, want %s", len(ob), ob, desc())
	}
	p, pc := 0, 0
	char := charIndex(text)
	for i, w := range want {
		v := etext(w)
		if ob[i].Value != v || nb[i].Value != v || oc[i].Value != v || nc[i].Value != v {
			return fmt.Errorf("split %d is %q, want %q (all: %s)", i, ob[i].Value, v, desc())
		}
		ia, ib, oa, oe := spanOf(w)
		o := ob[i].Offsets
		if o[0] < oa || o[0] > ia || o[1] != ib || o[1] != oe {
			return fmt.Errorf("split %d %q has offsets %v in %q, want [%d %d]", i, v, o, text, ia, ib)
		}
		c := oc[i].Offsets
		if c[0] != char(o[0]) || c[1] != char(o[1]) {
			return fmt.Errorf("split %d %q has offsets %v in bytes and %v in chars of %q", i, v, o, c, text)
		}
		if nb[i].Offsets[0] != p || nb[i].Offsets[1] != p+len(v) {
			return fmt.Errorf("split %d %q has offsets %v in the normalized text, want [%d %d]", i, v, nb[i].Offsets, p, p+len(v))
		}
		if nc[i].Offsets[0] != pc || nc[i].Offsets[1] != pc+len(w) {
			return fmt.Errorf("split %d %q has char offsets %v in the normalized text, want [%d %d]", i, v, nc[i].Offsets, pc, pc+len(w))
		}
		p += len(v)
		pc += len(w)
	}
	return nil
}

func runSplitCase(x *Ctx, c splitCase) error {
	n, es, err := normalizedOf(c.Text, c.Norm)
	if err != nil {
		return err
	}
	segs := c.Pat.segments(es)
	want := nonEmpty(behave(segs, normalizer.SplitDelimiterBehavior(c.Behavior)))
	nm := 0
	for _, s := range segs {
		if s.match {
			nm++
		}
	}
	x.NonTrivial(nm > 0 && nm < len(segs))
	x.Label(fmt.Sprintf("behavior-%d", c.Behavior), nm > 0)
	if c.Pre {
		pt := tokenizer.NewPreTokenizedStringFromNS(n)
		pt, err := pretokenizer.NewSplit(patSpec{c.Pat.Kind, c.Pat.S, false}.build(), normalizer.SplitDelimiterBehavior(c.Behavior), c.Pat.Invert).PreTokenize(pt)
		if err != nil {
			return err
		}
		return checkSplits(c.Text, pt, want)
	}
	before := n.GetNormalized()
	parts := n.Split(c.Pat.build(), normalizer.SplitDelimiterBehavior(c.Behavior))
	if n.GetNormalized() != before || n.GetOriginal() != c.Text {
		return fmt.Errorf("Split changed the string itself")
	}
	i, lo := 0, 0
	var chars []mch
	for _, e := range es {
		chars = append(chars, mch{e.s, e.a, e.b})
	}
	for k := range parts {
		p := &parts[k]
		if p.IsEmpty() {
			continue
		}
		if i >= len(want) || p.GetNormalized() != etext(want[i]) {
			return fmt.Errorf("part %d is %q, want %v", i, p.GetNormalized(), want)
		}
		m := &mns{orig: c.Text, chars: chars}
		// position of the part in the whole, after the part before
		for lo+len(want[i]) <= len(es) && !sameExps(es[lo:lo+len(want[i])], want[i]) {
			lo++
		}
		oa, ob := want[i][0].a, want[i][len(want[i])-1].b
		if o := p.OffsetsOriginal(); o[0] != oa || o[1] != ob {
			return fmt.Errorf("part %q has offsets %v, want [%d %d]", p.GetNormalized(), o, oa, ob)
		}
		if err := m.slice(p, oa, ob, lo, lo+len(want[i])); err != nil {
			return fmt.Errorf("part %q: %w", p.GetNormalized(), err)
		}
		if err := m.check(p); err != nil {
			return fmt.Errorf("part %q: %w", p.GetNormalized(), err)
		}
		lo += len(want[i])
		i++
	}
	if i != len(want) {
		return fmt.Errorf("%d parts, want %d", i, len(want))
	}
	return nil
}

func sameExps(a, b []exp) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- pre-tokenizers

type pretokSpec struct {
	Kind string
	S    string       `json:",omitempty"`
	Flag bool         `json:",omitempty"`
	N    int          `json:",omitempty"`
	Pat  *patSpec     `json:",omitempty"`
	Seq  []pretokSpec `json:",omitempty"`
}

func (s pretokSpec) build() tokenizer.PreTokenizer {
	switch s.Kind {
	case "bert":
		return pretokenizer.NewBertPreTokenizer()
	case "whitespace":
		if s.Flag {
			return pretokenizer.DefaultWhitespace()
		}
		return pretokenizer.NewWhitespace()
	case "wssplit":
		return pretokenizer.NewWhitespaceSplit()
	case "punct":
		if s.Flag && normalizer.SplitDelimiterBehavior(s.N) == normalizer.IsolatedBehavior {
			return pretokenizer.DefaultPunctuation()
		}
		return pretokenizer.NewPunctuation(normalizer.SplitDelimiterBehavior(s.N))
	case "digits":
		if !s.Flag {
			return pretokenizer.DefaultDigits()
		}
		return pretokenizer.NewDigits(s.Flag)
	case "delimiter":
		return pretokenizer.NewCharDelimiterSplit([]rune(s.S)[0])
	case "split":
		return pretokenizer.NewSplit(patSpec{s.Pat.Kind, s.Pat.S, false}.build(), normalizer.SplitDelimiterBehavior(s.N), s.Pat.Invert)
	case "metaspace":
		return pretokenizer.NewMetaspaceWithScheme(s.S, pretokenizer.PrependScheme(s.N))
	case "metaspace-old":
		if s.S == "▁" && s.Flag && s.N == 0 {
			return pretokenizer.DefaultMetaspace()
		}
		if len(s.S)%2 == 1 { // (another way to say the same)
			m := pretokenizer.NewMetaspace("x", s.Flag)
			m.SetReplacement(s.S)
			return m
		}
		return pretokenizer.NewMetaspace(s.S, s.Flag)
	case "bytelevel":
		b := pretokenizer.NewByteLevel()
		b.SetAddPrefixSpace(s.Flag)
		return b
	case "script":
		if s.Flag {
			return pretokenizer.DefaultUnicodeScript()
		}
		return pretokenizer.NewUnicodeScript()
	case "seq":
		var ps []tokenizer.PreTokenizer
		for _, x := range s.Seq {
			ps = append(ps, x.build())
		}
		return pretokenizer.NewSequence(ps)
	}
	panic("harness: pre-tokenizer " + s.Kind)
}

func isAsciiSpace(r rune) bool { return strings.ContainsRune("\t\n\f\r ", r) }
func isAsciiWord(r rune) bool {
	return r == '_' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z')
}
func isPunc(r rune) bool {
	return (r >= 33 && r <= 47) || (r >= 58 && r <= 64) || (r >= 91 && r <= 96) || (r >= 123 && r <= 126) || unicode.Is(unicode.P, r)
}

// byChar cuts where fn says a char is a match.
func byChar(es []exp, fn func(rune) bool) []seg {
	var out []seg
	for i := range es {
		m := fn(erune(es[i]))
		if !m && len(out) > 0 && !out[len(out)-1].match {
			out[len(out)-1].es = es[i-len(out[len(out)-1].es) : i+1]
		} else {
			out = append(out, seg{es[i : i+1], m})
		}
	}
	return out
}

// byClass cuts where the class of the chars changes.
func byClass(es []exp, class func(rune) int) [][]exp {
	var out [][]exp
	last := 0
	for i := range es {
		c := class(erune(es[i]))
		if i > 0 && c == last {
			k := len(out) - 1
			out[k] = es[i-len(out[k]) : i+1]
		} else {
			out = append(out, es[i:i+1])
		}
		last = c
	}
	return out
}

// gpt2Chars is the byte to char table of GPT-2.
var gpt2Chars = func() [256]string {
	var t [256]string
	n := 0
	for b := 0; b < 256; b++ {
		if (b >= '!' && b <= '~') || (b >= 0xA1 && b <= 0xAC) || (b >= 0xAE && b <= 0xFF) {
			t[b] = string(rune(b))
		} else {
			t[b] = string(rune(256 + n))
			n++
		}
	}
	return t
}()

var (
	scriptMu    sync.Mutex
	scriptCache = map[rune]string{}
)

func scriptOf(r rune) string {
	if r == ' ' {
		return "Any"
	}
	if r == 0x30FC {
		return "Han"
	}
	scriptMu.Lock()
	defer scriptMu.Unlock()
	if s, ok := scriptCache[r]; ok {
		return s
	}
	s := ""
	for n, rt := range unicode.Scripts {
		if unicode.Is(rt, r) {
			s = n
		}
	}
	if s == "Hiragana" || s == "Katakana" {
		s = "Han"
	}
	scriptCache[r] = s
	return s
}

var gpt2Re = regexp.MustCompile(`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+`)

// model gives the splits each split is cut into; first says whether it is the
// first split of the text.
func (s pretokSpec) model(splits [][]exp) [][]exp {
	var out [][]exp
	if s.Kind == "seq" {
		out = splits
		for _, x := range s.Seq {
			out = x.model(out)
		}
		return out
	}
	for idx, es := range splits {
		var parts [][]exp
		switch s.Kind {
		case "bert":
			for _, w := range behave(byChar(es, isAsciiSpace), normalizer.RemovedBehavior) {
				parts = append(parts, behave(byChar(w, isPunc), normalizer.IsolatedBehavior)...)
			}
		case "whitespace":
			cl := func(r rune) int {
				switch {
				case isAsciiWord(r):
					return 1
				case isAsciiSpace(r):
					return 0
				}
				return 2
			}
			for _, p := range byClass(es, cl) {
				if cl(erune(p[0])) != 0 {
					parts = append(parts, p)
				}
			}
		case "wssplit":
			parts = behave(byChar(es, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), normalizer.RemovedBehavior)
		case "punct":
			parts = behave(byChar(es, isPunc), normalizer.SplitDelimiterBehavior(s.N))
		case "digits":
			b := normalizer.SplitDelimiterBehavior(normalizer.ContiguousBehavior)
			if s.Flag {
				b = normalizer.IsolatedBehavior
			}
			parts = behave(byChar(es, unicode.IsNumber), b)
		case "delimiter":
			parts = behave(byChar(es, func(r rune) bool { return string(r) == s.S }), normalizer.RemovedBehavior)
		case "split":
			parts = behave(s.Pat.segments(es), normalizer.SplitDelimiterBehavior(s.N))
		case "metaspace", "metaspace-old":
			var rs []exp
			for _, e := range es {
				if isAsciiSpace(erune(e)) {
					for _, r := range s.S {
						rs = append(rs, exp{string(r), e.a, e.b, e.exact})
					}
				} else {
					rs = append(rs, e)
				}
			}
			scheme := s.N
			if s.Kind == "metaspace-old" {
				scheme = 0
				if s.Flag {
					scheme = 2
				}
			}
			if scheme == 2 || (scheme == 1 && idx == 0) {
				rs = ePrefix(rs, s.S)
			}
			parts = behave(patSpec{Kind: "string", S: s.S}.segments(rs), normalizer.MergedWithNextBehavior)
		case "bytelevel":
			if s.Flag {
				es = ePrefix(es, " ")
			}
			for _, p := range cut(es, gpt2Re.FindAllStringIndex(etext(es), -1), false) {
				var bs []exp
				for _, e := range p.es {
					for _, b := range []byte(e.s) {
						bs = append(bs, exp{gpt2Chars[b], e.a, e.b, e.exact})
					}
				}
				parts = append(parts, bs)
			}
		case "script":
			last, start := "?", -1
			for i, e := range es {
				sc := scriptOf(erune(e))
				if sc == "Any" {
					continue
				}
				if sc != last {
					if start >= 0 {
						parts = append(parts, es[start:i])
					}
					start = i
				}
				last = sc
			}
			if start >= 0 {
				parts = append(parts, es[start:])
			}
		default:
			panic("harness: pre-tokenizer " + s.Kind)
		}
		out = append(out, nonEmpty(parts)...)
	}
	return out
}

func ePrefix(es []exp, p string) []exp {
	if len(es) == 0 || strings.HasPrefix(etext(es), p) {
		return es
	}
	var out []exp
	for _, r := range p {
		out = append(out, exp{string(r), es[0].a, es[0].b, false})
	}
	return append(out, es...)
}

func genPretok(t *rapid.T, depth int) pretokSpec {
	kinds := []string{"bert", "whitespace", "wssplit", "punct", "digits", "delimiter", "split", "metaspace", "metaspace", "metaspace-old", "bytelevel", "bytelevel", "script"}
	if depth > 0 {
		kinds = append(kinds, "seq", "seq", "seq", "seq")
	}
	s := pretokSpec{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch s.Kind {
	case "whitespace", "script":
		s.Flag = rapid.Bool().Draw(t, "default")
	case "punct":
		s.N = rapid.IntRange(0, 4).Draw(t, "behavior")
		s.Flag = rapid.Bool().Draw(t, "default")
	case "digits", "bytelevel":
		s.Flag = rapid.Bool().Draw(t, "flag")
	case "delimiter":
		s.S = pick(t, "delim", []string{"-", " ", "é", "中", "a", "|"})
	case "split":
		p := genPat(t)
		s.Pat = &p
		s.N = rapid.IntRange(0, 4).Draw(t, "behavior")
	case "metaspace", "metaspace-old":
		s.S = pick(t, "repl", []string{"▁", "▁", "_", "▁▁", ".", "|", "$", "a"})
		s.N = rapid.IntRange(0, 2).Draw(t, "scheme")
		s.Flag = rapid.Bool().Draw(t, "flag")
	case "seq":
		n := rapid.IntRange(1, 3).Draw(t, "n")
		for i := 0; i < n; i++ {
			s.Seq = append(s.Seq, genPretok(t, depth-1))
		}
	}
	return s
}

type pretokCase struct {
	Text string
	Norm *normSpec `json:",omitempty"`
	Pre  pretokSpec
}

func maybeNorm(t *rapid.T) *normSpec {
	if weighted(t, "norm?", 2, 1) == 1 {
		n := genNormSpec(t, 1)
		return &n
	}
	return nil
}

func runPretok(x *Ctx, c pretokCase) error {
	n, es, err := normalizedOf(c.Text, c.Norm)
	if err != nil {
		return err
	}
	want := c.Pre.model([][]exp{es})
	pt, err := c.Pre.build().PreTokenize(tokenizer.NewPreTokenizedStringFromNS(n))
	if err != nil {
		return fmt.Errorf("PreTokenize: %v", err)
	}
	x.NonTrivial(len(nonEmpty(want)) > 1)
	x.Label(c.Pre.Kind, len(nonEmpty(want)) > 1)
	return checkSplits(c.Text, pt, want)
}

// pretokRefuse is a sequence whose part At refuses any text.
type pretokRefuse struct {
	Text  string
	Parts []pretokSpec
	At    int
	In    bool // within a sequence of its own
}

// pretokSpy notes the pieces it is given, and gives err.
type pretokSpy struct {
	called bool
	seen   []tokenizer.PreToken
	err    error
}

func (s *pretokSpy) PreTokenize(pt *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	s.called = true
	s.seen = pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	if s.err != nil {
		return nil, s.err
	}
	return pt, nil
}

func runPretokRefuse(x *Ctx, c pretokRefuse) error {
	n, es, err := normalizedOf(c.Text, nil)
	if err != nil {
		return err
	}
	want := [][]exp{es}
	re, after := &pretokSpy{err: errRefused}, &pretokSpy{}
	var ps []tokenizer.PreTokenizer
	for _, p := range c.Parts[:c.At] {
		ps = append(ps, p.build())
		want = p.model(want)
	}
	bad := tokenizer.PreTokenizer(re)
	if c.In {
		bad = pretokenizer.NewSequence([]tokenizer.PreTokenizer{re, after})
	}
	ps = append(ps, bad, after)
	for _, p := range c.Parts[c.At:] {
		ps = append(ps, p.build())
	}
	_, err = pretokenizer.NewSequence(ps).PreTokenize(tokenizer.NewPreTokenizedStringFromNS(n))
	x.NonTrivial(c.At > 0)
	if !errors.Is(err, errRefused) {
		return fmt.Errorf("part %d refuses the text, but the sequence gives the error %v", c.At, err)
	}
	var got, exp []string
	for _, p := range re.seen {
		if p.Value != "" {
			got = append(got, p.Value)
		}
	}
	for _, p := range nonEmpty(want) {
		exp = append(exp, etext(p))
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
		return fmt.Errorf("part %d is given %q, want %q", c.At, got, exp)
	}
	if after.called {
		return fmt.Errorf("the parts after part %d are called", c.At)
	}
	return nil
}

func init() {
	Prop("C05", "random texts, optionally normalized, x pattern (rune, string, regex, predicate, inverted) x the five behaviors; non-trivial: the pattern matches part of the text but not all")
	split := func(t *rapid.T) splitCase {
		return splitCase{splitText(t), maybeNorm(t), genPat(t), rapid.IntRange(0, 4).Draw(t, "behavior"), rapid.Bool().Draw(t, "pre")}
	}
	genSplit = split
	Reg("C05", "split", 3000000, 80000000, split, runSplitCase)
	Reg("C05", "long", 30000, 800000, Large(split), runSplitCase)
	Prop("C06", "random texts, optionally normalized, x random pre-tokenizer (all kinds, nested sequences); non-trivial: the text is cut into at least two splits")
	Reg("C06", "single", 800000, 20000000, func(t *rapid.T) pretokCase {
		return pretokCase{splitText(t), maybeNorm(t), genPretok(t, 0)}
	}, runPretok)
	sequence := func(t *rapid.T) pretokCase {
		return pretokCase{splitText(t), maybeNorm(t), genPretok(t, 2)}
	}
	genPretokCase = sequence
	Reg("C06", "sequence", 400000, 10000000, sequence, runPretok)
	Reg("C06", "long", 10000, 300000, Large(sequence), runPretok)
	// Every char of Unicode falls in its class, in each pre-tokenizer.
	Reg("C06", "any-rune", 150000, 3000000, func(t *rapid.T) pretokCase {
		r := rapid.OneOf(rapid.Rune(), rapid.RuneFrom(nil, unicode.P, unicode.S), rapid.RuneFrom(nil, unicode.N, unicode.Z), rapid.RuneFrom(nil, unicode.Han, unicode.Hiragana, unicode.Katakana, unicode.Common))
		rs := rapid.SliceOfN(r, 1, 5).Draw(t, "runes")
		return pretokCase{string(rs), nil, genPretok(t, 0)}
	}, runPretok)
	// A part of a sequence which refuses the text.
	Reg("C06", "refused", 20000, 200000, func(t *rapid.T) pretokRefuse {
		c := pretokRefuse{Text: splitText(t), At: rapid.IntRange(0, 2).Draw(t, "at"), In: rapid.Bool().Draw(t, "in")}
		for i := rapid.IntRange(c.At, 3).Draw(t, "parts"); i >= 0; i-- {
			c.Parts = append(c.Parts, genPretok(t, 1))
		}
		return c
	}, runPretokRefuse)
}
