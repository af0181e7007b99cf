package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"pgregory.net/rapid"
)

// ptOp is one step in the life of a pre-tokenized text.
type ptOp struct {
	Kind   string      // split pre normalize tokenize
	Pat    *patSpec    `json:",omitempty"`
	Beh    int         `json:",omitempty"`
	Attach int         `json:",omitempty"` // split: pieces which get tokens at once, 0: none
	Pre    *pretokSpec `json:",omitempty"`
	Norm   *normSpec   `json:",omitempty"`
	Size   int         `json:",omitempty"` // tokenize: chars per token
	Refuse Str         `json:",omitempty"` // tokenize: a text with it is an error
}

type ptCase struct {
	Text  Str
	Norm  *normSpec `json:",omitempty"`
	Ops   []ptOp
	Type  int
	Words []int // given word indexes, -1: none
}

// ptPiece is a piece: its chars, the stretch of the original text it stands for and
// its tokens, nil until it is tokenized.
type ptPiece struct {
	es   []exp
	a, b int
	toks []tokenizer.Token
}

// chunks is the model of these cases: tokens of n chars.
func chunks(s string, n int) []tokenizer.Token {
	var out []tokenizer.Token
	rs := []rune(s)
	p := 0
	for i := 0; i < len(rs); i += n {
		v := string(rs[i:min(i+n, len(rs))])
		out = append(out, tokenizer.NewToken(100*len(v)+i, v, []int{p, p + len(v)}))
		p += len(v)
	}
	return out
}

var errRefused = errors.New("refused")

// checkPieces compares the pieces in each of the four units.
func checkPieces(text string, pt *tokenizer.PreTokenizedString, want []ptPiece) error {
	p, pc := 0, 0
	char := charIndex(text)
	for _, off := range []tokenizer.OffsetType{tokenizer.Byte, tokenizer.Char} {
		o := pt.GetSplits(normalizer.OriginalTarget, off)
		n := pt.GetSplits(normalizer.NormalizedTarget, off)
		if len(o) != len(want) || len(n) != len(want) {
			return fmt.Errorf("%d pieces %v, want %d", len(o), o, len(want))
		}
		p, pc = 0, 0
		for i, w := range want {
			v := etext(w.es)
			if o[i].Value != v || n[i].Value != v {
				return fmt.Errorf("piece %d is %q, want %q", i, o[i].Value, v)
			}
			a, b, q, e := w.a, w.b, p, p+len(v)
			p += len(v)
			if off == tokenizer.Char {
				a, b = char(a), char(b)
				q, e = pc, pc+len(w.es)
				pc += len(w.es)
			}
			if g := o[i].Offsets; g[0] != a || g[1] != b {
				return fmt.Errorf("piece %d %q has offsets %v in %q, want [%d %d] (unit %v)", i, v, g, text, a, b, off)
			}
			if g := n[i].Offsets; g[0] != q || g[1] != e {
				return fmt.Errorf("piece %d %q has offsets %v in the normalized text, want [%d %d] (unit %v)", i, v, g, q, e, off)
			}
			for _, g := range [][]tokenizer.Token{o[i].Tokens, n[i].Tokens} {
				if (g == nil) != (w.toks == nil) || len(g) != len(w.toks) || len(g) > 0 && !reflect.DeepEqual(g, w.toks) {
					return fmt.Errorf("piece %d %q has tokens %v, want %v", i, v, g, w.toks)
				}
			}
		}
	}
	return nil
}

// checkInto compares the encoding made of the pieces.
func checkInto(text string, pt *tokenizer.PreTokenizedString, want []ptPiece, ty, word int) error {
	ready := true
	for _, p := range want {
		ready = ready && p.toks != nil
	}
	for _, off := range []tokenizer.OffsetType{tokenizer.Byte, tokenizer.Char} {
		e, err := pt.IntoEncoding(ty, word, off)
		if (err == nil) != ready {
			return fmt.Errorf("all pieces are tokenized: %v, but the error is %v", ready, err)
		}
		if !ready {
			continue
		}
		got, err := table(e)
		if err != nil {
			return err
		}
		if len(e.Overflowing) > 0 {
			return fmt.Errorf("%d overflowing parts", len(e.Overflowing))
		}
		k := 0
		var char func(int) int
		if off == tokenizer.Char {
			char = charIndex(text)
		}
		for i, p := range want {
			at := []int{0} // where each char of the piece starts
			for _, e := range p.es {
				at = append(at, at[len(at)-1]+len(e.s))
			}
			for _, tok := range p.toks {
				if k >= len(got) {
					return fmt.Errorf("only %d tokens", len(got))
				}
				sub := p.es[sort.SearchInts(at, tok.Offsets[0]):sort.SearchInts(at, tok.Offsets[1])]
				ia, ib, oa, _ := spanOf(sub)
				w := word
				if w == -1 {
					w = i
				}
				r := refRow{row{Id: tok.Id, Type: ty, Tok: tok.Value, A: ia, B: ib, Word: w, Att: 1}, oa}
				if f := r.fitsIn(got[k], char); got[k] != f {
					return fmt.Errorf("token %d is %v, want %v (unit %v)", k, got[k], f, off)
				}
				k++
			}
		}
		if k != len(got) {
			return fmt.Errorf("%d tokens, want %d", len(got), k)
		}
	}
	return nil
}

func runPt(x *Ctx, c ptCase) error {
	text := string(c.Text)
	n, es, err := normalizedOf(text, c.Norm)
	if err != nil {
		return err
	}
	pt := tokenizer.NewPreTokenizedStringFromNS(n)
	if c.Norm == nil && len(text)%2 == 0 {
		pt = tokenizer.NewPreTokenizedString(text)
	}
	state := []ptPiece{{es: es, a: 0, b: len(text)}}
	if err := checkPieces(text, pt, state); err != nil {
		return fmt.Errorf("at first: %w", err)
	}
	for k, op := range c.Ops {
		if state, err = op.apply(x, text, pt, state); err != nil {
			return fmt.Errorf("step %d (%s): %w", k, op.Kind, err)
		}
		if err := checkPieces(text, pt, state); err != nil {
			return fmt.Errorf("step %d (%s): %w", k, op.Kind, err)
		}
		if err := checkInto(text, pt, state, c.Type, c.Words[k%len(c.Words)]); err != nil {
			return fmt.Errorf("step %d (%s), encoding: %w", k, op.Kind, err)
		}
		if err := checkPieces(text, pt, state); err != nil {
			return fmt.Errorf("step %d (%s), after the encoding: %w", k, op.Kind, err)
		}
	}
	toks := 0
	for _, p := range state {
		toks += len(p.toks)
	}
	x.NonTrivial(len(state) > 1 && toks > 0)
	return nil
}

// settle takes the pieces es split off at their offsets in pt, which have to be the
// stretch their chars come from.
func settle(text string, pt *tokenizer.PreTokenizedString, want []ptPiece) ([]ptPiece, error) {
	got := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	if len(got) != len(want) {
		return nil, fmt.Errorf("%d pieces %v, want %d", len(got), got, len(want))
	}
	for i := range want {
		w := &want[i]
		if w.a >= 0 {
			continue
		}
		ia, ib, oa, oe := spanOf(w.es)
		o := got[i].Offsets
		if o[0] < oa || o[0] > ia || o[1] != ib || o[1] != oe {
			return nil, fmt.Errorf("piece %d %q has offsets %v in %q, want [%d %d]", i, got[i].Value, o, text, ia, ib)
		}
		w.a, w.b = o[0], o[1]
	}
	return want, nil
}

func (op ptOp) apply(x *Ctx, text string, pt *tokenizer.PreTokenizedString, state []ptPiece) ([]ptPiece, error) {
	var want []ptPiece
	switch op.Kind {
	case "split":
		var bad error
		last := -1
		count := 0
		seen := 0
		attach := func(s string) []tokenizer.Token {
			if s == "" {
				return nil
			}
			count++
			switch {
			case op.Attach == 0 || count%3 != op.Attach%3:
				return nil
			case op.Attach > 2:
				return []tokenizer.Token{} // tokenized into nothing
			}
			return []tokenizer.Token{tokenizer.NewToken(7, "<"+s+">", []int{0, len(s)})}
		}
		got := pt.Split(func(i int, n *normalizer.NormalizedString) []tokenizer.SplitIdx {
			seen++
			if i <= last || i >= len(state) || state[i].toks != nil || n.GetNormalized() != etext(state[i].es) {
				bad = fmt.Errorf("piece %d, %q, is given to be split (after piece %d)", i, n.GetNormalized(), last)
			}
			last = i
			var out []tokenizer.SplitIdx
			for _, s := range n.Split(op.Pat.build(), normalizer.SplitDelimiterBehavior(op.Beh)) {
				s := s
				out = append(out, tokenizer.SplitIdx{Normalized: &s, Tokens: attach(s.GetNormalized())})
			}
			return out
		})
		if bad != nil {
			return nil, bad
		}
		if got != pt {
			return nil, fmt.Errorf("Split gives another text")
		}
		count = 0
		open := 0
		for _, p := range state {
			if p.toks != nil {
				want = append(want, p)
				x.Label("tokens are kept when splitting", true)
				continue
			}
			open++
			for _, part := range behave(op.Pat.segments(p.es), normalizer.SplitDelimiterBehavior(op.Beh)) {
				if len(part) > 0 {
					want = append(want, ptPiece{es: part, a: -1, toks: attach(etext(part))})
				}
			}
		}
		if seen != open {
			return nil, fmt.Errorf("%d pieces are given to be split, want %d", seen, open)
		}
		return settle(text, pt, want)
	case "pre":
		var ps []mPiece
		for i, p := range state {
			id := -1
			if p.toks != nil {
				id = i
			}
			ps = append(ps, mPiece{p.es, id})
		}
		got, err := op.Pre.build().PreTokenize(pt)
		if err != nil || got != pt {
			return nil, fmt.Errorf("PreTokenize gives %v, %v", got, err)
		}
		for _, p := range op.Pre.onPieces(ps) {
			if p.id >= 0 {
				want = append(want, state[p.id])
			} else {
				want = append(want, ptPiece{es: p.es, a: -1})
			}
		}
		return settle(text, pt, want)
	case "normalize":
		norm := op.Norm.build()
		var bad error
		i := -1
		want = append(want, state...)
		got := pt.Normalize(func(n *normalizer.NormalizedString) *normalizer.NormalizedString {
			for i++; i < len(state) && state[i].toks != nil; i++ {
			}
			if i >= len(state) || n.GetNormalized() != etext(state[i].es) {
				bad = fmt.Errorf("%q is given to be normalized", n.GetNormalized())
				return n
			}
			out, err := norm.Normalize(n)
			if err != nil {
				bad = err
				return n
			}
			es := expsOf(out)
			for j := range es {
				es[j].a += state[i].a
				es[j].b += state[i].a
			}
			if want[i] = (ptPiece{es: es, a: state[i].a, b: state[i].b}); len(es) == 0 {
				x.Label("nothing left of a piece", true)
			}
			return out
		})
		for i++; i < len(state) && bad == nil; i++ {
			if state[i].toks == nil {
				bad = fmt.Errorf("piece %d is not normalized", i)
			}
		}
		if bad == nil && got != pt {
			bad = fmt.Errorf("Normalize gives another text")
		}
		return want, bad
	case "tokenize":
		i := -1
		var bad error
		refuses := false
		got, err := pt.Tokenize(func(n *normalizer.NormalizedString) ([]tokenizer.Token, error) {
			for i++; i < len(state) && state[i].toks != nil; i++ {
			}
			if i >= len(state) || n.GetNormalized() != etext(state[i].es) {
				bad = fmt.Errorf("%q is given to be tokenized", n.GetNormalized())
				return nil, nil
			}
			for _, r := range n.GetNormalized() {
				if string(r) == string(op.Refuse) {
					refuses = true
					return nil, errRefused
				}
			}
			return chunks(n.GetNormalized(), op.Size), nil
		})
		if bad != nil {
			return nil, bad
		}
		if refuses {
			x.Label("refused", true)
			if got != nil || !errors.Is(err, errRefused) {
				return nil, fmt.Errorf("a piece cannot be tokenized, but Tokenize gives %v, %v", got, err)
			}
			return state, nil // as it was
		}
		if err != nil || got != pt {
			return nil, fmt.Errorf("Tokenize gives %v, %v", got, err)
		}
		for _, p := range state {
			if p.toks == nil {
				p.toks = chunks(etext(p.es), op.Size)
				if p.toks == nil {
					p.toks = []tokenizer.Token{}
				}
			}
			want = append(want, p)
		}
		return want, nil
	}
	panic("harness: " + op.Kind)
}

func genPt(t *rapid.T) ptCase {
	c := ptCase{Text: Str(splitText(t)), Norm: maybeNorm(t), Type: rapid.IntRange(0, 2).Draw(t, "type")}
	for k := rapid.IntRange(1, 5).Draw(t, "steps"); k > 0; k-- {
		op := ptOp{Kind: []string{"split", "pre", "normalize", "tokenize"}[weighted(t, "kind", 4, 2, 2, 2)]}
		switch op.Kind {
		case "split":
			p := genPat(t)
			op.Pat = &p
			op.Beh = rapid.IntRange(0, 4).Draw(t, "behavior")
			op.Attach = weighted(t, "attach", 3, 1, 1, 1, 1)
		case "pre":
			p := genPretok(t, 1)
			op.Pre = &p
		case "normalize":
			n := genNormSpec(t, 1)
			op.Norm = &n
		case "tokenize":
			op.Size = rapid.IntRange(1, 3).Draw(t, "size")
			op.Refuse = Str(pick(t, "refuse", []string{"", "", "", "b", "é"}))
		}
		c.Ops = append(c.Ops, op)
		c.Words = append(c.Words, weighted(t, "word", 3, 1, 1, 1)-1)
	}
	if weighted(t, "tokenize at the end", 1, 2) == 1 {
		c.Ops = append(c.Ops, ptOp{Kind: "tokenize", Size: rapid.IntRange(1, 3).Draw(t, "size")})
	}
	return c
}

func init() {
	Prop("C28", "a case counts when the text is cut into pieces and has tokens at the end",
		"functions given to a pre-tokenized text return pieces of the text they are given; texts are valid UTF-8", "what the normalizers, patterns and pre-tokenizers themselves give is what C03 to C06 check")
	Reg("C28", "history", 400000, 5000000, genPt, runPt)
	Reg("C28", "long", 10000, 100000, Large(genPt), runPt)
}
