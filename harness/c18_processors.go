package main

// C18: post-processors against the table model of encodings.

import (
	"fmt"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"pgregory.net/rapid"
)

type tplPiece struct {
	Seq  int // -1: special token
	Tok  string
	Type int
}

type tplTok struct {
	Name string
	Ids  []int
	Toks []string
}

type procSpec struct {
	Kind         string // none, bert, roberta, template, bytelevel, sequence
	Sep, Cls     string
	SepId, ClsId int
	Trim, Prefix bool
	Single, Pair []tplPiece
	Toks         []tplTok
	How          int
	Parts        []procSpec
}

func (p procSpec) build() (tokenizer.PostProcessor, error) {
	switch p.Kind {
	case "bert":
		return processor.NewBertProcessing(processor.PostToken{Value: p.Sep, Id: p.SepId}, processor.PostToken{Value: p.Cls, Id: p.ClsId}), nil
	case "roberta":
		if p.How == 1 {
			r := processor.NewRobertaProcessing(processor.PostToken{Value: p.Sep, Id: p.SepId}, processor.PostToken{Value: p.Cls, Id: p.ClsId}, !p.Trim, !p.Prefix)
			r.TrimOffsets(p.Trim)
			r.AddPrefixSpace(p.Prefix)
			return r, nil
		}
		return processor.NewRobertaProcessing(processor.PostToken{Value: p.Sep, Id: p.SepId}, processor.PostToken{Value: p.Cls, Id: p.ClsId}, p.Trim, p.Prefix), nil
	case "bytelevel":
		return processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{AddPrefixSpace: p.Prefix, TrimOffsets: p.Trim}), nil
	case "template":
		single, err := p.template(p.Single)
		if err != nil {
			return nil, err
		}
		pair, err := p.template(p.Pair)
		if err != nil {
			return nil, err
		}
		var toks []processor.SpecialToken
		for _, t := range p.Toks {
			toks = append(toks, *processor.NewSpecialToken(t.Name, t.Ids, t.Toks))
		}
		if p.How == 1 {
			m := map[string]processor.SpecialToken{}
			for _, t := range toks {
				m[t.Id] = t
			}
			return processor.NewTemplateProcessing(single, pair, processor.NewTokensFromMap(m)), nil
		}
		all := processor.NewTokensFrom(toks)
		for i, tok := range toks {
			if got, ok := all.GetItemByOrder(i); !ok || got.Id != tok.Id {
				return nil, fmt.Errorf("special token %d is %q, want %q", i, got.Id, tok.Id)
			}
		}
		return processor.NewTemplateProcessing(single, pair, all), nil
	case "sequence":
		var ps []tokenizer.PostProcessor
		for _, q := range p.Parts {
			b, err := q.build()
			if err != nil {
				return nil, err
			}
			ps = append(ps, b)
		}
		return processor.NewSequence(ps), nil
	}
	return nil, fmt.Errorf("no processor %q", p.Kind)
}

// template goes through the text form or through the pieces.
func (p procSpec) template(pieces []tplPiece) (processor.Template, error) {
	var parts []string
	var tpl processor.Template
	for _, q := range pieces {
		switch {
		case q.Seq < 0:
			tpl = append(tpl, processor.NewSpecialTokenPiece(q.Tok, q.Type))
			if q.Type == 0 && p.How != 2 {
				parts = append(parts, q.Tok)
			} else {
				parts = append(parts, fmt.Sprintf("%s:%d", q.Tok, q.Type))
			}
		case q.Seq == 0:
			tpl = append(tpl, processor.NewSequencePiece("A", q.Type))
			switch {
			case p.How == 2:
				parts = append(parts, fmt.Sprintf("$%d", q.Type))
			case q.Type == 0:
				parts = append(parts, "$")
			default:
				parts = append(parts, fmt.Sprintf("$a:%d", q.Type))
			}
		default:
			tpl = append(tpl, processor.NewSequencePiece("B", q.Type))
			if q.Type == 0 && p.How == 2 {
				parts = append(parts, "$b")
			} else {
				parts = append(parts, fmt.Sprintf("$B:%d", q.Type))
			}
		}
	}
	switch p.How {
	case 0:
		return tpl, nil
	case 1:
		return processor.NewTemplate(strings.Join(parts, " "))
	}
	return processor.NewTemplate(parts)
}

func (p procSpec) added(pair bool) int {
	switch p.Kind {
	case "bert":
		if pair {
			return 3
		}
		return 2
	case "roberta":
		if pair {
			return 4
		}
		return 2
	case "template":
		n := 0
		tpl := p.Single
		if pair {
			tpl = p.Pair
		}
		for _, q := range tpl {
			if q.Seq < 0 {
				for _, t := range p.Toks {
					if t.Name == q.Tok {
						n += len(t.Ids)
					}
				}
			}
		}
		return n
	case "sequence":
		n := 0
		for _, q := range p.Parts {
			n += q.added(pair)
		}
		return n
	}
	return 0
}

func (m mEnc) each(fn func(rows []row) []row) mEnc {
	out := mEnc{seqs: m.seqs, rows: fn(append([]row{}, m.rows...))}
	for _, o := range m.over {
		out.over = append(out.over, o.each(fn))
	}
	return out
}

// inSeq marks the encoding and its parts as sequence s. Parts without tokens have no
// sequence at all.
func (m mEnc) inSeq(s int) mEnc {
	out := m.each(func(rows []row) []row {
		for i := range rows {
			rows[i].Seq = s
		}
		return rows
	})
	return out.fixSeqs()
}

func (m mEnc) fixSeqs() mEnc {
	m.seqs = false
	for _, r := range m.rows {
		m.seqs = m.seqs || r.Seq >= 0
	}
	for i := range m.over {
		m.over[i] = m.over[i].fixSeqs()
	}
	return m
}

// typed sets the type of the tokens, not those of the overflowing parts.
func (m mEnc) typed(ty int) mEnc {
	m.rows = append([]row{}, m.rows...)
	for i := range m.rows {
		m.rows[i].Type = ty
	}
	return m
}

func specialRow(tok string, id, ty int) row {
	return row{Id: id, Type: ty, Spec: 1, Att: 1, Word: -1, Tok: tok, Seq: -1}
}

// around puts special tokens around an encoding and its parts.
func (m mEnc) around(before, after []row) mEnc {
	return m.each(func(rows []row) []row {
		for i := range rows {
			rows[i].Spec, rows[i].Att = 0, 1
		}
		return append(append(append([]row{}, before...), rows...), after...)
	})
}

// trimmed: the spaces of byte-level tokens are left out of their offsets.
func (m mEnc) trimmed(prefix bool) mEnc {
	return m.each(func(rows []row) []row {
		for i := range rows {
			lead := 0
			for _, c := range rows[i].Tok {
				if c != 'Ġ' {
					break
				}
				lead++
			}
			trail := len(rows[i].Tok) - len(strings.TrimRight(rows[i].Tok, "Ġ"))
			trail /= len("Ġ")
			if i == 0 && prefix && lead == 1 {
				lead = 0
			}
			if rows[i].A+lead < rows[i].B {
				rows[i].A += lead
			} else if lead > 0 {
				rows[i].A = rows[i].B
			}
			if trail > 0 && rows[i].B >= trail {
				rows[i].B -= trail
				if rows[i].B < rows[i].A {
					rows[i].B = rows[i].A
				}
			}
		}
		return rows
	})
}

func plainMerge(a mEnc, b *mEnc) mEnc {
	if b == nil {
		return a
	}
	return a.inSeq(0).typed(0).merge(b.inSeq(1).typed(1), false)
}

func (p procSpec) apply(a mEnc, b *mEnc, special bool) mEnc {
	switch p.Kind {
	case "none":
		return plainMerge(a, b)
	case "bytelevel":
		a = a.inSeq(0).typed(0)
		if p.Trim {
			a = a.trimmed(p.Prefix)
		}
		if b != nil {
			t := b.inSeq(1).typed(1)
			if p.Trim {
				t = t.trimmed(p.Prefix)
			}
			return a.merge(t, false)
		}
		return a
	case "bert", "roberta":
		if p.Kind == "roberta" && p.Trim {
			a = a.trimmed(p.Prefix)
			if b != nil {
				t := b.trimmed(p.Prefix)
				b = &t
			}
		}
		if !special {
			return plainMerge(a, b)
		}
		cls, sep, sep1 := specialRow(p.Cls, p.ClsId, 0), specialRow(p.Sep, p.SepId, 0), specialRow(p.Sep, p.SepId, 1)
		out := a.inSeq(0).around([]row{cls}, []row{sep})
		if b != nil {
			var before []row
			if p.Kind == "roberta" {
				before = []row{sep1}
			}
			out = out.merge(b.inSeq(1).around(before, []row{sep1}), false)
		}
		return out.fixSeqs()
	case "template":
		tpl := p.Single
		if b != nil {
			tpl = p.Pair
		}
		var out *mEnc
		for _, q := range tpl {
			var part mEnc
			switch {
			case q.Seq == 0:
				part = a.inSeq(0).typed(q.Type)
			case q.Seq == 1:
				part = b.inSeq(1).typed(q.Type)
			case !special:
				continue
			default:
				for _, t := range p.Toks {
					if t.Name == q.Tok {
						for i := range t.Ids {
							part.rows = append(part.rows, specialRow(t.Toks[i], t.Ids[i], q.Type))
						}
					}
				}
			}
			if out == nil {
				out = &part
			} else {
				m := out.merge(part, false)
				out = &m
			}
		}
		return out.fixSeqs()
	case "sequence":
		if len(p.Parts) == 0 {
			return plainMerge(a, b)
		}
		for _, q := range p.Parts[:len(p.Parts)-1] {
			a = q.apply(a, nil, special)
			if b != nil {
				ty := b.rows
				t := q.apply(*b, nil, special)
				for i := range t.rows {
					t.rows[i].Type = ty[i].Type
				}
				b = &t
			}
		}
		return p.Parts[len(p.Parts)-1].apply(a, b, special)
	}
	panic("kind " + p.Kind)
}

type procCase struct {
	P       procSpec
	A       encSpec
	B       *encSpec
	Special bool
}

// genProcSpec draws a processor for a pipeline. Each sequence is there once in its
// templates: the limit of a truncation can't be respected otherwise.
func genProcSpec(t *rapid.T, depth int) procSpec {
	return genProcSpecOf(t, depth, false)
}

func genProcSpecOf(t *rapid.T, depth int, repeat bool) procSpec {
	kinds := []string{"bert", "roberta", "template", "bytelevel"}
	if depth > 0 {
		kinds = append(kinds, "sequence")
	}
	p := procSpec{Kind: pick(t, "kind", kinds), How: rapid.IntRange(0, 2).Draw(t, "how"), Trim: rapid.Bool().Draw(t, "trim"), Prefix: rapid.Bool().Draw(t, "prefix")}
	switch p.Kind {
	case "bert", "roberta":
		p.Sep, p.Cls = pick(t, "sep", []string{"[SEP]", "</s>"}), pick(t, "cls", []string{"[CLS]", "<s>"})
		p.SepId, p.ClsId = rapid.IntRange(0, 9).Draw(t, "sepid"), rapid.IntRange(0, 9).Draw(t, "clsid")
	case "template":
		for i, n := range []string{"[CLS]", "[SEP]", "<eos>"} {
			k := 1 + weighted(t, "ntoks", 5, 1, 1)
			tok := tplTok{Name: n}
			for j := 0; j < k; j++ {
				tok.Ids = append(tok.Ids, 500+10*i+j)
				name := n
				if j > 0 {
					name = fmt.Sprintf("%s%d", n, j)
				}
				tok.Toks = append(tok.Toks, name)
			}
			p.Toks = append(p.Toks, tok)
		}
		gen := func(seqs []int) []tplPiece {
			var out []tplPiece
			specials := func() {
				for i := weighted(t, "nspecial", 3, 4, 1); i > 0; i-- {
					out = append(out, tplPiece{-1, pick(t, "stok", []string{"[CLS]", "[SEP]", "<eos>"}), rapid.IntRange(0, 3).Draw(t, "ty")})
				}
			}
			specials()
			for _, s := range seqs {
				out = append(out, tplPiece{Seq: s, Type: rapid.IntRange(0, 3).Draw(t, "ty")})
				specials()
			}
			return out
		}
		single, order := [][]int{{0}}, [][]int{{0, 1}, {0, 1}, {1, 0}}
		if repeat { // a sequence may be there several times
			single, order = [][]int{{0}, {0}, {0}, {0, 0}}, [][]int{{0, 1}, {0, 1}, {1, 0}, {0, 1, 0}, {0, 0, 1, 1}}
		}
		p.Single = gen(single[rapid.IntRange(0, len(single)-1).Draw(t, "single")])
		p.Pair = gen(order[rapid.IntRange(0, len(order)-1).Draw(t, "order")])
	case "sequence":
		n := rapid.IntRange(0, 3).Draw(t, "nparts")
		for i := 0; i < n; i++ {
			if i == n-1 {
				p.Parts = append(p.Parts, genProcSpecOf(t, depth-1, repeat))
			} else {
				p.Parts = append(p.Parts, procSpec{Kind: "bytelevel", Trim: rapid.Bool().Draw(t, "trim"), Prefix: rapid.Bool().Draw(t, "prefix")})
			}
		}
	}
	return p
}

// encodings as the pipeline gives them: one sequence, no special token
func genPlainEnc(t *rapid.T, seq int, depth int, base int) encSpec {
	s := encSpec{NoWords: weighted(t, "nowords", 5, 1) == 1}
	pos, word := 0, 0
	for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
		l := rapid.IntRange(0, 4).Draw(t, "len")
		tok := strings.Repeat("Ġ", weighted(t, "lead", 3, 3, 1)) + pick(t, "tok", []string{"a", "bc", "", "é", "dĠe"}) + strings.Repeat("Ġ", weighted(t, "trail", 5, 1, 1))
		s.Rows = append(s.Rows, row{Id: base + len(s.Rows), Type: seq, Tok: tok, A: pos, B: pos + l, Word: word, Att: 1})
		pos += l
		if rapid.Bool().Draw(t, "newword") {
			word++
			pos += rapid.IntRange(0, 1).Draw(t, "gap")
		}
	}
	if depth > 0 {
		for k := weighted(t, "nover", 2, 1, 1); k > 0; k-- {
			o := genPlainEnc(t, seq, 0, base+10*k)
			o.NoWords = s.NoWords
			s.Overflow = append(s.Overflow, o)
		}
	}
	return s
}

func runProc(x *Ctx, c procCase) error {
	p, err := c.P.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	if got, want := p.AddedTokens(false), c.P.added(false); got != want {
		return fmt.Errorf("adds %d tokens, want %d", got, want)
	}
	if got, want := p.AddedTokens(true), c.P.added(true); got != want {
		return fmt.Errorf("adds %d tokens to a pair, want %d", got, want)
	}
	// twice: a processor has no state
	for round := 0; round < 2; round++ {
		ma := mOf(c.A)
		var mb *mEnc
		var eb *tokenizer.Encoding
		if c.B != nil {
			m := mOf(*c.B)
			mb, eb = &m, c.B.build()
		}
		want := c.P.apply(ma, mb, c.Special)
		got := p.Process(c.A.build(), eb, c.Special)
		if got == nil {
			return fmt.Errorf("no encoding")
		}
		n := len(c.A.Rows)
		if c.B != nil {
			n += len(c.B.Rows)
		}
		x.NonTrivial(n > 0 && (c.Special && len(want.rows) > n || c.B != nil))
		x.Label(c.P.Kind, true)
		x.Label("pair", c.B != nil)
		x.Label("overflowing", len(want.over) > 0)
		if err := want.check("processed", got); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	Prop("C18", "a case counts when special tokens are added or two sequences are merged",
		"in a sequence of processors the one which adds tokens is the last", "a template of a pipeline holds each sequence once (the limit of a truncation could not be respected)",
		"the types of overflowing parts are those they had, with a template")
	genProcCase = func(t *rapid.T) procCase {
		c := procCase{P: genProcSpecOf(t, 1, weighted(t, "repeat", 7, 1) == 1), A: genPlainEnc(t, 0, 1, 100), Special: weighted(t, "special", 1, 3) == 1}
		if rapid.Bool().Draw(t, "pair") {
			b := genPlainEnc(t, 1, 1, 200)
			c.B = &b
		}
		return c
	}
	Reg("C18", "process", 120000, 10000000, genProcCase, runProc)
}
