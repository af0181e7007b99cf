package main

// C18: the text form of templates, and their builder.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/processor"
	"pgregory.net/rapid"
)

// parsePiece is the grammar of a piece: `$`, `$A`, `$B`, `$<type>` or the name of a special
// token, then optionally `:<type>`.
func parsePiece(s string) (p tplPiece, ok bool) {
	id, ty, typed := strings.Cut(s, ":")
	switch {
	case !strings.HasPrefix(id, "$"):
		p = tplPiece{Seq: -1, Tok: id}
	case id == "$" || id == "$A" || id == "$a":
		p = tplPiece{Seq: 0}
	case id == "$B" || id == "$b":
		p = tplPiece{Seq: 1}
	default:
		n, err := strconv.Atoi(id[1:])
		if err != nil {
			return p, false
		}
		p = tplPiece{Seq: 0, Type: n}
	}
	if typed {
		n, err := strconv.Atoi(ty)
		if err != nil {
			return p, false
		}
		p.Type = n
	}
	return p, true
}

type tplCase struct {
	Single, Pair []string
	Joined       bool // the templates are given as one text
	Toks         []tplTok
	Order        int // of the calls of the builder
	A            encSpec
	B            *encSpec
	Special      bool
}

func runTemplate(x *Ctx, c tplCase) error {
	arg := func(parts []string) interface{} {
		if c.Joined {
			return strings.Join(parts, " ")
		}
		return parts
	}
	p := procSpec{Kind: "template"}
	valid := true
	parse := func(parts []string) ([]tplPiece, error) {
		var want []tplPiece
		good := true
		for _, s := range parts {
			q, ok := parsePiece(s)
			good = good && ok
			want = append(want, q)
		}
		tpl, err := processor.NewTemplate(arg(parts))
		if (err == nil) != good {
			return nil, fmt.Errorf("template %q: error %v, it is right: %v", parts, err, good)
		}
		if !good {
			valid = false
			return nil, nil
		}
		var got []tplPiece
		for _, q := range tpl {
			switch q := q.(type) {
			case *processor.SequencePiece:
				got = append(got, tplPiece{Seq: int(q.Id), Type: q.TypeId})
			case *processor.SpecialTokenPiece:
				got = append(got, tplPiece{Seq: -1, Tok: q.Id, Type: q.TypeId})
			}
		}
		if !reflect.DeepEqual(got, want) {
			return nil, fmt.Errorf("template %q is %+v, want %+v", parts, got, want)
		}
		return want, nil
	}
	var err error
	if p.Single, err = parse(c.Single); err != nil {
		return err
	}
	if p.Pair, err = parse(c.Pair); err != nil {
		return err
	}
	x.Label("wrong-piece", !valid)
	if !valid {
		return nil
	}

	// the builder, whatever the order
	b := processor.DefaultTemplateProcessing().Builder()
	var toks []tokenizer.Token
	for _, t := range c.Toks {
		p.Toks = append(p.Toks, tplTok{t.Name, t.Ids[:1], []string{t.Name}})
		toks = append(toks, tokenizer.Token{Id: t.Ids[0], Value: t.Name})
	}
	calls := []func(){func() { b.NewSingle(arg(c.Single)) }, func() { b.NewPair(arg(c.Pair)) }, func() { b.NewSpecialTokens(toks) }}
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}}[c.Order] {
		calls[i]()
	}

	var missing []string
	seqs := map[int]bool{}
	for i, tpl := range [][]tplPiece{p.Single, p.Pair} {
		for _, q := range tpl {
			if q.Seq >= 0 && i == 1 {
				seqs[q.Seq] = true
			}
			known := q.Seq >= 0
			for _, t := range p.Toks {
				known = known || t.Name == q.Tok
			}
			if !known {
				missing = append(missing, q.Tok)
			}
		}
	}
	right := len(missing) == 0 && len(seqs) == 2
	err = b.Validate()
	if (err == nil) != right {
		return fmt.Errorf("single %q pair %q tokens %v: Validate says %v, missing tokens %v, both sequences %v", c.Single, c.Pair, p.Toks, err, missing, len(seqs) == 2)
	}
	if len(seqs) == 2 {
		for _, m := range missing {
			if !strings.Contains(err.Error(), strconv.Quote(m)) {
				return fmt.Errorf("Validate does not tell that %q is missing: %v", m, err)
			}
		}
	}
	if got, want := b.DefaultAdded(true), p.added(false); got != want {
		return fmt.Errorf("single %q adds %d tokens, want %d", c.Single, got, want)
	}
	if got, want := b.DefaultAdded(false), p.added(true); got != want {
		return fmt.Errorf("pair %q adds %d tokens, want %d", c.Pair, got, want)
	}
	x.Label("incomplete", !right)
	tp := b.Build()
	if got, want := [2]int{tp.AddedTokens(false), tp.AddedTokens(true)}, [2]int{p.added(false), p.added(true)}; got != want {
		return fmt.Errorf("the template adds %d tokens, want %d", got, want)
	}
	for _, q := range p.Single {
		right = right && q.Seq <= 0 // there is no second one
	}
	if !right || len(p.Single) == 0 {
		return nil
	}
	ma := mOf(c.A)
	var mb *mEnc
	var eb *tokenizer.Encoding
	if c.B != nil {
		m := mOf(*c.B)
		mb, eb = &m, c.B.build()
	}
	want := p.apply(ma, mb, c.Special)
	x.NonTrivial(len(want.rows) > 0)
	x.Label("processed", true)
	return want.check("processed", tp.Process(c.A.build(), eb, c.Special))
}

func init() {
	Reg("C18", "template", 40000, 3000000, func(t *rapid.T) tplCase {
		c := tplCase{Joined: rapid.Bool().Draw(t, "joined"), Order: rapid.IntRange(0, 3).Draw(t, "calls"), Special: weighted(t, "special", 1, 3) == 1}
		names := []string{"[CLS]", "[SEP]", "<eos>", "x$", "é"}
		for i, n := range names {
			if weighted(t, "known", 1, 5) == 1 {
				c.Toks = append(c.Toks, tplTok{Name: n, Ids: []int{500 + i}})
			}
		}
		wrong := weighted(t, "wrong", 8, 1) == 1
		piece := func(seq int) string {
			var s string
			switch {
			case wrong && weighted(t, "bad", 6, 1) == 1:
				return pick(t, "badpiece", []string{"$C", "$A:x", "[CLS]:", "$A:1:2", "[SEP]:y", "$$", "$AB", "$é", ":", "a::", "$:"})
			case seq == 0:
				s = pick(t, "a", []string{"$", "$A", "$a", "$0", "$1", "$12"})
			case seq == 1:
				s = pick(t, "b", []string{"$B", "$b"})
			default:
				s = pick(t, "tok", names)
			}
			if rapid.Bool().Draw(t, "typed") {
				s += ":" + strconv.Itoa(rapid.IntRange(0, 12).Draw(t, "type"))
			}
			return s
		}
		tpl := func(seqs ...int) []string {
			var out []string
			specials := func() {
				for i := weighted(t, "nspecial", 3, 4, 1); i > 0; i-- {
					out = append(out, piece(-1))
				}
			}
			specials()
			for _, s := range seqs {
				out = append(out, piece(s))
				specials()
			}
			return out
		}
		c.Single = tpl(0)
		switch weighted(t, "pair", 6, 2, 1, 1, 1) {
		case 0:
			c.Pair = tpl(0, 1)
		case 1:
			c.Pair = tpl(1, 0)
		case 2:
			c.Pair = tpl(0)
		case 3:
			c.Pair = tpl(1, 1)
		case 4:
			c.Pair = tpl(0, 1, 0)
		}
		if len(c.Single) == 0 || len(c.Pair) == 0 {
			c.Joined = false
		}
		c.A = genPlainEnc(t, 0, 0, 100)
		if rapid.Bool().Draw(t, "b") {
			b := genPlainEnc(t, 1, 0, 200)
			c.B = &b
		}
		return c
	}, runTemplate)
}
