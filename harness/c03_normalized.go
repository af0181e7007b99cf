package main

// C03: NormalizedString keeps the original text, and the alignment of every
// byte with it, through any history of operations.

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer/normalizer"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

type nsOp struct {
	Op   string
	S    string `json:",omitempty"`
	S2   string `json:",omitempty"`
	A, B int    `json:",omitempty"`
}

type nsCase struct {
	Text string
	Ops  []nsOp
}

// mch is one char of the normalized text, with its span in the original one.
type mch struct {
	s    string
	a, b int
}

// mns is the reference model of a NormalizedString.
type mns struct {
	orig  string
	chars []mch
	shift int
}

func newMns(s string) *mns {
	m := &mns{orig: s}
	for i := 0; i < len(s); {
		_, n := utf8.DecodeRuneInString(s[i:])
		m.chars = append(m.chars, mch{s[i : i+n], i, i + n})
		i += n
	}
	return m
}

func (m *mns) text() string {
	var sb strings.Builder
	for _, c := range m.chars {
		sb.WriteString(c.s)
	}
	return sb.String()
}

// exp is one expected char: its text and the span its alignment must lie in;
// exact says the alignment must be just that span.
type exp struct {
	s     string
	a, b  int
	exact bool
}

func keep(c mch) exp { return exp{c.s, c.a, c.b, true} }

func hull(cs []mch) (int, int) {
	if len(cs) == 0 {
		return 0, 0
	}
	a, b := cs[0].a, cs[0].b
	for _, c := range cs {
		a, b = min(a, c.a), max(b, c.b)
	}
	return a, b
}

// adopt checks the real string against the expectation, then takes the
// alignment it has chosen.
func (m *mns) adopt(n *normalizer.NormalizedString, want []exp) error {
	var sb strings.Builder
	for _, e := range want {
		sb.WriteString(e.s)
	}
	if n.GetNormalized() != sb.String() {
		return fmt.Errorf("normalized text is %q, want %q", n.GetNormalized(), sb.String())
	}
	al := n.Alignments()
	if len(al) != sb.Len() {
		return fmt.Errorf("%d alignments for %d bytes", len(al), sb.Len())
	}
	var chars []mch
	p := 0
	for _, e := range want {
		if e.s == "" {
			continue
		}
		x := al[p]
		if len(x) != 2 {
			return fmt.Errorf("byte %d: alignment %v", p, x)
		}
		for k := range e.s {
			_ = k
		}
		for k := 0; k < len(e.s); k++ {
			y := al[p+k]
			if len(y) != 2 || y[0] != x[0] || y[1] != x[1] {
				return fmt.Errorf("bytes of char %q at %d are aligned differently: %v %v", e.s, p, x, y)
			}
		}
		if e.exact && (x[0] != e.a || x[1] != e.b) {
			return fmt.Errorf("char %q at byte %d of %q is aligned with %v of the original, want [%d %d]", e.s, p, n.GetNormalized(), x, e.a, e.b)
		}
		if x[0] < e.a || x[1] > e.b || x[0] > x[1] {
			return fmt.Errorf("char %q at byte %d of %q is aligned with %v of the original, outside of [%d %d]", e.s, p, n.GetNormalized(), x, e.a, e.b)
		}
		chars = append(chars, mch{e.s, x[0], x[1]})
		p += len(e.s)
	}
	m.chars = chars
	return nil
}

// invariants which hold for any history.
func (m *mns) check(n *normalizer.NormalizedString) error {
	if n.GetOriginal() != m.orig {
		return fmt.Errorf("original text is %q, want %q", n.GetOriginal(), m.orig)
	}
	if n.Len() != len(n.GetNormalized()) || n.LenOriginal() != len(m.orig) || n.IsEmpty() != (n.GetNormalized() == "") {
		return fmt.Errorf("Len %d LenOriginal %d IsEmpty %v for %q", n.Len(), n.LenOriginal(), n.IsEmpty(), n.GetNormalized())
	}
	if n.Shift() != m.shift {
		return fmt.Errorf("Shift %d, want %d", n.Shift(), m.shift)
	}
	if o := n.OffsetsOriginal(); o[0] != m.shift || o[1] != m.shift+len(m.orig) {
		return fmt.Errorf("OffsetsOriginal %v, want [%d %d]", o, m.shift, m.shift+len(m.orig))
	}
	al := n.Alignments()
	prev := []int{0, 0}
	for i, a := range al {
		if a[0] < 0 || a[1] > len(m.orig) || a[0] > a[1] {
			return fmt.Errorf("alignment %d %v out of the original (%d bytes)", i, a, len(m.orig))
		}
		if !isCharBoundary(m.orig, a[0]) || !isCharBoundary(m.orig, a[1]) {
			return fmt.Errorf("alignment %d %v cuts a char of the original %q", i, a, m.orig)
		}
		if a[0] < prev[0] || a[1] < prev[1] {
			return fmt.Errorf("alignments go backwards at %d: %v then %v", i, prev, a)
		}
		prev = a
	}
	// The other way around: a byte of the original which has normalized bytes
	// is mapped to just those, the others to an empty range.
	ao := n.AlignmentsOriginal()
	if len(ao) != len(m.orig) {
		return fmt.Errorf("%d original alignments for %d bytes", len(ao), len(m.orig))
	}
	first := make([]int, len(m.orig))
	last := make([]int, len(m.orig))
	for i := range first {
		first[i] = -1
	}
	for i, a := range al {
		for j := a[0]; j < a[1]; j++ {
			if first[j] < 0 {
				first[j] = i
			}
			last[j] = i + 1
		}
	}
	prev = []int{0, 0}
	for j, o := range ao {
		if len(o) != 2 || o[0] < 0 || o[0] > o[1] || o[1] > len(al) {
			return fmt.Errorf("original alignment %d %v out of the normalized text (%d bytes)", j, o, len(al))
		}
		if first[j] >= 0 {
			if o[0] != first[j] || o[1] != last[j] {
				return fmt.Errorf("byte %d of the original %q is aligned with %v of %q, want [%d %d]", j, m.orig, o, n.GetNormalized(), first[j], last[j])
			}
		} else if o[0] != o[1] {
			return fmt.Errorf("byte %d of the original %q does not appear in %q, yet is aligned with %v", j, m.orig, n.GetNormalized(), o)
		}
		if o[0] < prev[0] || o[1] < prev[1] {
			return fmt.Errorf("original alignments go backwards at %d: %v then %v", j, prev, o)
		}
		prev = o
	}
	return nil
}

// conversions of ranges both ways.
func (m *mns) checkRange(n *normalizer.NormalizedString, i, j int) error {
	t := n.GetNormalized()
	bs := boundaries(t)
	a, b := bs[i%len(bs)], bs[j%len(bs)]
	if a > b {
		a, b = b, a
	}
	rg := func() *normalizer.Range { return normalizer.NewRange(a, b, normalizer.NormalizedTarget) }
	if got := n.Range(rg()); got != t[a:b] {
		return fmt.Errorf("Range(normalized %d..%d) = %q, want %q", a, b, got, t[a:b])
	}
	if a < b {
		al := n.Alignments()
		oa, ob := al[a][0], al[b-1][1]
		r := n.ConvertOffset(rg())
		if r == nil || r.Start() != oa || r.End() != ob || r.On() != normalizer.OriginalTarget {
			return fmt.Errorf("ConvertOffset(normalized %d..%d of %q) = %v, want original %d..%d", a, b, t, r, oa, ob)
		}
		if got := n.RangeOriginal(rg()); got != m.orig[oa:ob] {
			return fmt.Errorf("RangeOriginal(normalized %d..%d of %q) = %q, want %q", a, b, t, got, m.orig[oa:ob])
		}
	}
	bs = boundaries(m.orig)
	a, b = bs[i%len(bs)], bs[j%len(bs)]
	if a > b {
		a, b = b, a
	}
	ro := func() *normalizer.Range { return normalizer.NewRange(a, b, normalizer.OriginalTarget) }
	if got := n.RangeOriginal(ro()); got != m.orig[a:b] {
		return fmt.Errorf("RangeOriginal(original %d..%d) = %q, want %q", a, b, got, m.orig[a:b])
	}
	if a < b {
		// What the range covers in the normalized text: all the chars aligned
		// with a byte of it.
		na, nb := -1, -1
		for p, x := range n.Alignments() {
			if max(x[0], a) < min(x[1], b) {
				if na < 0 {
					na = p
				}
				nb = p + 1
			}
		}
		r := n.ConvertOffset(ro())
		if r == nil || r.On() != normalizer.NormalizedTarget {
			return fmt.Errorf("ConvertOffset(original %d..%d of %q) = %v", a, b, m.orig, r)
		}
		if na < 0 {
			if r.Start() != r.End() {
				return fmt.Errorf("ConvertOffset(original %d..%d of %q) = %v, yet nothing of it is left in %q", a, b, m.orig, r, t)
			}
		} else {
			// the ends may be empty (removed chars), never short
			if r.Start() > na || r.End() < nb {
				return fmt.Errorf("ConvertOffset(original %d..%d of %q) = %v, which misses part of %d..%d of %q", a, b, m.orig, r, na, nb, t)
			}
			for p := r.Start(); p < r.End(); p++ {
				x := n.Alignments()[p]
				if x[0] < x[1] && !(max(x[0], a) < min(x[1], b)) {
					return fmt.Errorf("ConvertOffset(original %d..%d of %q) = %v covers %q which is aligned with %v", a, b, m.orig, r, t[p:p+1], x)
				}
			}
			if got := n.Range(ro()); got != t[r.Start():r.End()] {
				return fmt.Errorf("Range(original %d..%d) = %q, want %q", a, b, got, t[r.Start():r.End()])
			}
		}
	}
	return nil
}

var formOf = map[string]norm.Form{"nfc": norm.NFC, "nfd": norm.NFD, "nfkc": norm.NFKC, "nfkd": norm.NFKD}

func (m *mns) apply(n *normalizer.NormalizedString, op nsOp) (*normalizer.NormalizedString, error) {
	var want []exp
	switch op.Op {
	case "nfc", "nfd", "nfkc", "nfkd":
		form := formOf[op.Op]
		t := m.text()
		formString(form, t)
		ci := 0
		for len(t) > 0 {
			size := form.NextBoundaryInString(t, true)
			seg := t[:size]
			t = t[size:]
			k := utf8.RuneCountInString(seg)
			a, b := hull(m.chars[ci : ci+k])
			for _, r := range formString(form, seg) {
				want = append(want, exp{string(r), a, b, k == 1})
			}
			ci += k
		}
		switch op.Op {
		case "nfc":
			n = n.NFC()
		case "nfd":
			n = n.NFD()
		case "nfkc":
			n = n.NFKC()
		default:
			n = n.NFKD()
		}
		if full := form.String(m.text()); full != n.GetNormalized() {
			return n, fmt.Errorf("%s gives %q, want %q", op.Op, n.GetNormalized(), full)
		}
	case "lower", "upper", "map":
		fn := unicode.ToLower
		switch op.Op {
		case "upper":
			fn = unicode.ToUpper
		case "map":
			fn = func(r rune) rune {
				if r == 'a' {
					return 'é'
				} else if r == 'é' {
					return '中'
				} else if r == '中' {
					return 'z'
				}
				return r
			}
		}
		for _, c := range m.chars {
			r, _ := utf8.DecodeRuneInString(c.s)
			want = append(want, exp{string(fn(r)), c.a, c.b, true})
		}
		switch op.Op {
		case "lower":
			n = n.Lowercase()
		case "upper":
			n = n.Uppercase()
		default:
			if len(m.chars)%2 == 0 {
				n = n.ForEach(fn)
			} else {
				n = n.Map(fn)
			}
		}
	case "filter", "accents":
		drop := func(r rune) bool { return strings.ContainsRune(op.S, r) }
		if op.Op == "accents" {
			drop = func(r rune) bool { return unicode.Is(unicode.Mn, r) }
		}
		for _, c := range m.chars {
			r, _ := utf8.DecodeRuneInString(c.s)
			if !drop(r) {
				want = append(want, keep(c))
			}
		}
		if op.Op == "filter" {
			n = n.Filter(func(r rune) bool { return !drop(r) })
		} else {
			n = n.RemoveAccents()
		}
	case "lstrip", "rstrip", "strip":
		cs := m.chars
		sp := func(c mch) bool { r, _ := utf8.DecodeRuneInString(c.s); return unicode.IsSpace(r) }
		if op.Op != "rstrip" {
			for len(cs) > 0 && sp(cs[0]) {
				cs = cs[1:]
			}
		}
		if op.Op != "lstrip" {
			for len(cs) > 0 && sp(cs[len(cs)-1]) {
				cs = cs[:len(cs)-1]
			}
		}
		for _, c := range cs {
			want = append(want, keep(c))
		}
		switch op.Op {
		case "lstrip":
			n = n.LStrip()
		case "rstrip":
			n = n.RStrip()
		default:
			n = n.Strip()
		}
	case "prepend":
		if len(m.chars) > 0 && op.S != "" {
			f := m.chars[0]
			for _, r := range op.S {
				want = append(want, exp{string(r), 0, f.b, false})
			}
		}
		for _, c := range m.chars {
			want = append(want, keep(c))
		}
		n = n.Prepend(op.S)
	case "append":
		for _, c := range m.chars {
			want = append(want, keep(c))
		}
		if len(m.chars) > 0 {
			l := m.chars[len(m.chars)-1]
			for _, r := range op.S {
				want = append(want, exp{string(r), l.a, len(m.orig), false})
			}
		}
		n = n.Append(op.S)
	case "clear":
		n.Clear()
	case "replace":
		t := m.text()
		ci := 0
		for ci < len(m.chars) {
			if op.S != "" && strings.HasPrefix(t, op.S) {
				k := utf8.RuneCountInString(op.S)
				a, b := hull(m.chars[ci : ci+k])
				for _, r := range op.S2 {
					want = append(want, exp{string(r), a, b, false})
				}
				t = t[len(op.S):]
				ci += k
				continue
			}
			want = append(want, keep(m.chars[ci]))
			t = t[len(m.chars[ci].s):]
			ci++
		}
		n = n.Replace(normalizer.NewStringPattern(op.S), op.S2)
	case "transform":
		// op.S spells the change of each char: k keep, r replace, d delete
		// (never the first of the text: that is the initial offset), i insert
		// a new char after it, I insert two.
		var cm []normalizer.ChangeMap
		initial := 0
		for i, c := range m.chars {
			what := byte('k')
			if len(op.S) > 0 {
				what = op.S[i%len(op.S)]
			}
			if what == 'd' {
				if len(cm) == 0 {
					initial++
				} else if l := &cm[len(cm)-1]; l.Changes <= 0 {
					l.Changes--
				} else {
					what = 'k'
				}
			}
			switch what {
			case 'd':
			case 'r':
				cm = append(cm, normalizer.ChangeMap{RuneVal: op.S2, Changes: 0})
				want = append(want, exp{op.S2, c.a, c.b, true})
			default:
				cm = append(cm, normalizer.ChangeMap{RuneVal: c.s, Changes: 0})
				want = append(want, keep(c))
				ins := 0
				if what == 'i' {
					ins = 1
				} else if what == 'I' {
					ins = 2
				}
				for x := 0; x < ins; x++ {
					cm = append(cm, normalizer.ChangeMap{RuneVal: op.S2, Changes: 1})
					want = append(want, exp{op.S2, c.a, c.b, true})
				}
			}
		}
		n = n.Transform(cm, initial)
	case "slice", "sliceo":
		if op.Op == "slice" {
			t := m.text()
			bs := boundaries(t)
			i, j := op.A%len(bs), op.B%len(bs)
			if i > j {
				i, j = j, i
			}
			a, b := bs[i], bs[j]
			s := n.Slice(normalizer.NewRange(a, b, normalizer.NormalizedTarget))
			if s == nil {
				return n, fmt.Errorf("Slice(normalized %d..%d of %q) = nil", a, b, t)
			}
			if s.GetNormalized() != t[a:b] {
				return n, fmt.Errorf("Slice(normalized %d..%d of %q) = %q", a, b, t, s.GetNormalized())
			}
			oa, ob := hull(m.chars[i:j])
			if i == j {
				o := s.OffsetsOriginal()
				oa, ob = o[0]-m.shift, o[0]-m.shift
			}
			return s, m.slice(s, oa, ob, i, j)
		}
		bs := boundaries(m.orig)
		i, j := op.A%len(bs), op.B%len(bs)
		if i > j {
			i, j = j, i
		}
		a, b := bs[i], bs[j]
		s := n.Slice(normalizer.NewRange(a, b, normalizer.OriginalTarget))
		if s == nil {
			return n, fmt.Errorf("Slice(original %d..%d of %q) = nil", a, b, m.orig)
		}
		// the chars of it: at least those aligned with a byte of the range
		st := s.GetNormalized()
		lo, hi := len(m.chars), 0
		for k, c := range m.chars {
			if max(c.a, a) < min(c.b, b) {
				lo, hi = min(lo, k), max(hi, k+1)
			}
		}
		for lo > 0 && lo <= hi && m.chars[lo-1].a == m.chars[lo-1].b && len(join(m.chars[lo:hi])) < len(st) {
			lo--
		}
		for hi < len(m.chars) && lo <= hi && m.chars[hi].a == m.chars[hi].b && len(join(m.chars[lo:hi])) < len(st) {
			hi++
		}
		if lo > hi {
			lo, hi = 0, 0
			if st != "" {
				return n, fmt.Errorf("Slice(original %d..%d of %q) = %q, yet nothing of it is left in %q", a, b, m.orig, st, m.text())
			}
		}
		if st != join(m.chars[lo:hi]) {
			return n, fmt.Errorf("Slice(original %d..%d of %q) = %q, want %q", a, b, m.orig, st, join(m.chars[lo:hi]))
		}
		return s, m.slice(s, a, b, lo, hi)
	default:
		panic("harness: op " + op.Op)
	}
	if n == nil {
		return nil, fmt.Errorf("%s returned nil", op.Op)
	}
	return n, m.adopt(n, want)
}

func join(cs []mch) string {
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteString(c.s)
	}
	return sb.String()
}

func (m *mns) slice(s *normalizer.NormalizedString, oa, ob, i, j int) error {
	if s.GetOriginal() != m.orig[oa:ob] {
		return fmt.Errorf("slice keeps %q of the original, want %q", s.GetOriginal(), m.orig[oa:ob])
	}
	var cs []mch
	for _, c := range m.chars[i:j] {
		cl := func(v int) int { return min(max(v-oa, 0), ob-oa) }
		cs = append(cs, mch{c.s, cl(c.a), cl(c.b)})
	}
	al := s.Alignments()
	p := 0
	for _, c := range cs {
		for range []byte(c.s) {
			if p >= len(al) || al[p][0] != c.a || al[p][1] != c.b {
				return fmt.Errorf("slice: byte %d (%q) has alignments %v, want [%d %d]", p, c.s, al, c.a, c.b)
			}
			p++
		}
	}
	if p != len(al) {
		return fmt.Errorf("slice: %d alignments for %d bytes", len(al), p)
	}
	m.orig, m.chars, m.shift = m.orig[oa:ob], cs, m.shift+oa
	return nil
}

func genNsOp(t *rapid.T) nsOp {
	op := rapid.SampledFrom([]string{"nfc", "nfd", "nfkc", "nfkd", "lower", "upper", "map", "filter", "accents", "lstrip", "rstrip", "strip",
		"prepend", "append", "replace", "replace", "transform", "transform", "slice", "sliceo", "clear"}).Draw(t, "op")
	o := nsOp{Op: op}
	switch op {
	case "filter":
		o.S = genOver(t, "drop", []string{"a", "b", " ", "e", "\u0301", "中", "é", "x"}, 1, 3)
	case "prepend", "append":
		o.S = genText(t, "s", 2)
	case "replace":
		o.S = genOver(t, "pat", []string{"a", "b", " ", "e", "é", "中", "an", "l"}, 1, 2)
		o.S2 = genText(t, "by", 2)
	case "transform":
		o.S = genOver(t, "spell", []string{"k", "k", "r", "d", "i", "I"}, 1, 8)
		o.S2 = pick(t, "c", []string{"z", "é", "中", "😀", " "})
	case "slice", "sliceo":
		o.A = rapid.IntRange(0, 40).Draw(t, "a")
		o.B = rapid.IntRange(0, 40).Draw(t, "b")
	}
	return o
}

// unitCase is a range of a text, in bytes or in chars.
type unitCase struct {
	Text string
	A, B int
}

func runUnits(x *Ctx, c unitCase) error {
	bs := boundaries(c.Text)
	n := len(bs) - 1 // chars
	x.NonTrivial(n > 0 && len(c.Text) > n)
	inside := func(b int) int { // the char which starts at b
		for i, p := range bs {
			if p == b {
				return i
			}
		}
		return -1
	}
	// bytes to chars: both ends are known, or one of them is not the start of a char
	got := normalizer.BytesToChar(c.Text, []int{c.A, c.B})
	if len(got) != 2 {
		return fmt.Errorf("BytesToChar(%d, %d) = %v", c.A, c.B, got)
	}
	i, j := inside(c.A), inside(c.B)
	switch {
	case i >= 0 && j >= 0 && (c.A < c.B || c.A == c.B && (i < n || c.A == 0)):
		if got[0] != i || got[1] != j {
			return fmt.Errorf("BytesToChar(%d, %d) of %q = %v, want [%d %d]", c.A, c.B, c.Text, got, i, j)
		}
	case i < 0 || j < 0:
		x.Label("not on chars", true)
		if got[0] >= 0 && got[1] >= 0 {
			return fmt.Errorf("BytesToChar(%d, %d) of %q = %v, but these are no chars", c.A, c.B, c.Text, got)
		}
	}
	// chars to bytes
	got = normalizer.CharToBytes(c.Text, []int{c.A, c.B})
	if len(got) != 2 {
		return fmt.Errorf("CharToBytes(%d, %d) = %v", c.A, c.B, got)
	}
	switch {
	case c.A <= c.B && c.B <= n && (c.A < n || c.A == 0 && c.B == 0):
		if got[0] != bs[c.A] || got[1] != bs[c.B] {
			return fmt.Errorf("CharToBytes(%d, %d) of %q = %v, want [%d %d]", c.A, c.B, c.Text, got, bs[c.A], bs[c.B])
		}
	case c.A > n:
		if got[0] >= 0 || got[1] >= 0 {
			return fmt.Errorf("CharToBytes(%d, %d) of %q = %v, but there are %d chars", c.A, c.B, c.Text, got, n)
		}
	}
	// a range of chars, cut at the end
	want := ""
	if e := min(c.B, n); c.A < e {
		want = c.Text[bs[c.A]:bs[e]]
	}
	if got := normalizer.RangeOf(c.Text, []int{c.A, c.B}); got != want {
		return fmt.Errorf("RangeOf(%d, %d) of %q = %q, want %q", c.A, c.B, c.Text, got, want)
	}
	return nil
}

func init() {
	Prop("C03", "random texts over mixed scripts, then 1-8 random operations; non-trivial: the normalized text differs from the original at some step and at least two operations changed something")
	genHistory = func(t *rapid.T) nsCase {
		return nsCase{stretch(t, genText(t, "text", 10), 120), rapid.SliceOfN(rapid.Custom(genNsOp), 1, 8).Draw(t, "ops")}
	}
	history = func(x *Ctx, c nsCase) error {
		n := normalizer.NewNormalizedFrom(c.Text)
		m := newMns(c.Text)
		root := c.Text
		changed := 0
		// what slices are taken of, which goes its own way
		type kept struct {
			n *normalizer.NormalizedString
			m mns
		}
		var parents []kept
		for i, op := range c.Ops {
			before := m.text()
			var err error
			if op.Op == "slice" || op.Op == "sliceo" {
				parents = append(parents, kept{n, mns{orig: m.orig, chars: append([]mch{}, m.chars...), shift: m.shift}})
			}
			n, err = m.apply(n, op)
			if err == nil {
				err = m.check(n)
			}
			if err == nil && root[m.shift:m.shift+len(m.orig)] != m.orig {
				err = fmt.Errorf("the offsets %v of the slice do not point at %q in %q", n.OffsetsOriginal(), m.orig, root)
			}
			if err == nil {
				err = m.checkRange(n, op.A+i, op.B+3*i+1)
			}
			if err == nil {
				k := len(m.chars) + 1
				err = m.checkRange(n, i%k, k-1)
			}
			if err != nil {
				return fmt.Errorf("step %d %+v: %w", i, op, err)
			}
			if m.text() != before {
				changed++
			}
			x.Label(op.Op, true)
		}
		for _, p := range parents {
			err := p.m.check(p.n)
			if err == nil {
				var es []exp
				for _, c := range p.m.chars {
					es = append(es, keep(c))
				}
				err = p.m.adopt(p.n, es)
			}
			if err != nil {
				return fmt.Errorf("a text, once a slice of it was edited: %w", err)
			}
		}
		x.NonTrivial(changed >= 2)
		return nil
	}
	Reg("C03", "units", 150000, 10000000, func(t *rapid.T) unitCase {
		return unitCase{genText(t, "text", 12), rapid.IntRange(0, 45).Draw(t, "a"), rapid.IntRange(0, 45).Draw(t, "b")}
	}, runUnits)
	Reg("C03", "history", 900000, 40000000, genHistory, history)
	Reg("C03", "long", 20000, 500000, Large(genHistory), history)
	// Invalid input bytes: every op is total, the alignments stay valid spans.
	Reg("C03", "invalid-utf8", 150000, 5000000, func(t *rapid.T) struct {
		Text Str
		Ops  []nsOp
	} {
		return struct {
			Text Str
			Ops  []nsOp
		}{Str(genBytes(t, "text", 6)), rapid.SliceOfN(rapid.Custom(genNsOp), 1, 6).Draw(t, "ops")}
	}, func(x *Ctx, c struct {
		Text Str
		Ops  []nsOp
	}) error {
		n := normalizer.NewNormalizedFrom(string(c.Text))
		for i, op := range c.Ops {
			m := newMns(n.GetNormalized())
			m.orig = n.GetOriginal()
			err := Guard(func() error {
				s := n
				switch op.Op {
				case "slice", "sliceo":
					tgt, l := normalizer.NormalizedTarget, n.Len()
					if op.Op == "sliceo" {
						tgt, l = normalizer.OriginalTarget, n.LenOriginal()
					}
					a, b := op.A%(l+1), op.B%(l+1)
					if a > b {
						a, b = b, a
					}
					if s = n.Slice(normalizer.NewRange(a, b, normalizer.IndexOn(tgt))); s == nil {
						return nil // not on char boundaries
					}
				case "transform":
					return nil
				default:
					var e error
					s, e = m.apply(n, op)
					if IsPanic(e) || s == nil {
						return e
					}
				}
				n = s
				return nil
			})
			if err != nil {
				return fmt.Errorf("step %d %+v: %w", i, op, err)
			}
			al := n.Alignments()
			if len(al) != n.Len() || len(n.AlignmentsOriginal()) != n.LenOriginal() {
				return fmt.Errorf("step %d %+v: %d alignments for %d bytes, %d for the %d original ones", i, op, len(al), n.Len(), len(n.AlignmentsOriginal()), n.LenOriginal())
			}
			for _, a := range al {
				if a[0] < 0 || a[0] > a[1] || a[1] > n.LenOriginal() {
					return fmt.Errorf("step %d %+v: alignment %v out of the original text", i, op, a)
				}
			}
			o := n.OffsetsOriginal()
			if o[0] < 0 || o[1] > len(c.Text) || string(c.Text[o[0]:o[1]]) != n.GetOriginal() {
				return fmt.Errorf("step %d %+v: offsets %v do not point at %q", i, op, o, n.GetOriginal())
			}
		}
		x.NonTrivial(!utf8.ValidString(string(c.Text)))
		return nil
	})
}
