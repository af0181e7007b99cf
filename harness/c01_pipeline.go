package main

// The whole pipeline: C07 extraction of added tokens, C02 tokens and offsets of a
// sequence, C01 truncation, post-processing and padding of its encodings.

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- added tokens

type atSpec struct {
	C                  Str
	Single, L, R, Norm bool
}

type avCall struct {
	Special bool
	Toks    []atSpec
}

func (a atSpec) build() tokenizer.AddedToken {
	if len(a.C)%3 == 1 { // (another way to say the same)
		base := tokenizer.NewAddedToken(string(a.C), true, tokenizer.WithSingleWord(!a.Single))
		other := base.SetSingleWord(a.Single).SetLStrip(a.L).SetRStrip(a.R).SetNormalized(a.Norm)
		if base.SingleWord == a.Single || base.Normalized {
			panic("harness: the setters change the token they are called on")
		}
		return other
	}
	return tokenizer.NewAddedToken(string(a.C), false, tokenizer.WithSingleWord(a.Single), tokenizer.WithLStrip(a.L), tokenizer.WithRStrip(a.R), tokenizer.WithNormalized(a.Norm))
}

func (c avCall) build() []tokenizer.AddedToken {
	var out []tokenizer.AddedToken
	for _, a := range c.Toks {
		out = append(out, a.build())
	}
	return out
}

// avModel is the model of the vocabulary: that of the model, and the added tokens.
type avModel struct {
	base    map[string]int
	added   map[string]int
	special []atSpec // in order
	normal  []atSpec // in order
	isSpec  map[string]bool
}

func newAvModel(base map[string]int) *avModel {
	return &avModel{base: base, added: map[string]int{}, isSpec: map[string]bool{}}
}

func (m *avModel) id(tok string) (int, bool) {
	if id, ok := m.added[tok]; ok {
		return id, true
	}
	id, ok := m.base[tok]
	return id, ok
}

// call applies a call, with the ids of new tokens as given by the code; it returns
// how many tokens are new.
func (m *avModel) call(c avCall, idOf func(string) (int, bool)) int {
	n := 0
	if c.Special {
		for _, a := range c.Toks {
			if a.C != "" && !m.isSpec[string(a.C)] {
				m.isSpec[string(a.C)] = true
				m.special = append(m.special, a)
			}
		}
	}
	for _, a := range c.Toks {
		s := string(a.C)
		if s == "" {
			continue
		}
		if _, ok := m.id(s); ok {
			continue
		}
		id, _ := idOf(s)
		m.added[s] = id
		n++
		if !m.isSpec[s] {
			m.normal = append(m.normal, a)
		}
	}
	return n
}

type avEntry struct {
	at      atSpec
	content string
	id      int
}

// entries are the tokens to look for, in order of preference.
func (m *avModel) entries(normalized bool, norm *normSpec) ([]avEntry, error) {
	var out []avEntry
	for _, a := range append(append([]atSpec{}, m.special...), m.normal...) {
		if a.Norm != normalized {
			continue
		}
		content := string(a.C)
		if a.Norm && norm != nil {
			n, err := norm.build().Normalize(normalizer.NewNormalizedFrom(content))
			if err != nil {
				return nil, err
			}
			content = n.GetNormalized()
		}
		if content == "" {
			continue
		}
		id, ok := m.id(string(a.C))
		if !ok {
			return nil, fmt.Errorf("added token %q has no id", a.C)
		}
		out = append(out, avEntry{a, content, id})
	}
	return out, nil
}

func isWordRune(r rune) bool {
	return unicode.In(r, unicode.L, unicode.M, unicode.Nd, unicode.Pc, unicode.Join_Control)
}

type avSpan struct{ a, b, id int } // id -1: text

// findAdded cuts a text: leftmost token first, of those which overlap with it the
// one that is preferred.
func findAdded(text string, es []avEntry) []avSpan {
	type occ struct{ a, b, e int }
	at := func(e int, p int) bool {
		c := es[e].content
		if !strings.HasPrefix(text[p:], c) {
			return false
		}
		if es[e].at.Single {
			l, _ := utf8.DecodeLastRuneInString(text[:p])
			f, _ := utf8.DecodeRuneInString(c)
			if p > 0 && isWordRune(l) && isWordRune(f) {
				return false
			}
			l, _ = utf8.DecodeLastRuneInString(c)
			f, _ = utf8.DecodeRuneInString(text[p+len(c):])
			if p+len(c) < len(text) && isWordRune(l) && isWordRune(f) {
				return false
			}
		}
		return true
	}
	var chosen []occ
	for p := 0; p < len(text); {
		first := -1
		for e := range es {
			if at(e, p) {
				first = e
				break
			}
		}
		if first < 0 {
			p++
			continue
		}
		best := occ{p, p + len(es[first].content), first}
		for q := p + 1; q < p+len(es[first].content); q++ {
			for e := 0; e < best.e; e++ {
				if at(e, q) {
					best = occ{q, q + len(es[e].content), e}
				}
			}
		}
		chosen = append(chosen, best)
		p = best.b
	}
	var out []avSpan
	pos := 0
	for i, c := range chosen {
		a, b := c.a, c.b
		for es[c.e].at.L && a > pos {
			r, k := utf8.DecodeLastRuneInString(text[pos:a])
			if !unicode.IsSpace(r) {
				break
			}
			a -= k
		}
		lim := len(text)
		if i+1 < len(chosen) {
			lim = chosen[i+1].a
		}
		for es[c.e].at.R && b < lim {
			r, k := utf8.DecodeRuneInString(text[b:lim])
			if !unicode.IsSpace(r) {
				break
			}
			b += k
		}
		if a > pos {
			out = append(out, avSpan{pos, a, -1})
		}
		out = append(out, avSpan{a, b, es[c.e].id})
		pos = b
	}
	if pos < len(text) {
		out = append(out, avSpan{pos, len(text), -1})
	}
	return out
}

// mPiece is a piece of a text: chars with what they come from, and the id of the
// added token if it is one.
type mPiece struct {
	es []exp
	id int
}

func subExps(es []exp, a, b int) []exp {
	var out []exp
	p := 0
	for _, e := range es {
		if p >= a && p+len(e.s) <= b {
			out = append(out, e)
		}
		p += len(e.s)
	}
	return out
}

// extract is the reference of ExtractAndNormalize.
func (m *avModel) extract(text string, norm *normSpec) ([]mPiece, error) {
	raw, err := m.entries(false, norm)
	if err != nil {
		return nil, err
	}
	normed, err := m.entries(true, norm)
	if err != nil {
		return nil, err
	}
	var out []mPiece
	for _, s := range findAdded(text, raw) {
		n := normalizer.NewNormalizedFrom(text[s.a:s.b])
		if s.id < 0 && norm != nil {
			if n, err = norm.build().Normalize(n); err != nil {
				return nil, err
			}
		}
		es := expsOf(n)
		for i := range es {
			es[i].a += s.a
			es[i].b += s.a
		}
		if s.id >= 0 {
			out = append(out, mPiece{es, s.id})
			continue
		}
		for _, q := range findAdded(etext(es), normed) {
			if sub := subExps(es, q.a, q.b); len(sub) > 0 {
				out = append(out, mPiece{sub, q.id})
			}
		}
	}
	return out, nil
}

var atContents = []string{"a", "ab", "b", "ba", "aba", "A", "é", "É", "e\u0301", "éa", "中", "中国", "[MASK]", "[M", "MASK", "<s>", "s>", " ", "a b", " a", "-", "a-", "_", "a_", "ß", "SS", "\u0301", "ب", "1", "\t", "．", "ﬁ", "ǅ", "\u00a0"}

func genAt(t *rapid.T) atSpec {
	a := atSpec{C: Str(pick(t, "content", atContents))}
	if weighted(t, "made", 5, 1) == 1 {
		a.C = Str(genOver(t, "content", []string{"a", "b", "é", "中", " ", "-", "A"}, 0, 4))
	}
	fl := bools(t, 4)
	a.Single, a.L, a.R, a.Norm = fl[0], fl[1] && fl[0], fl[2], fl[3]
	if weighted(t, "lstrip", 1, 1) == 1 {
		a.L = fl[1]
	}
	return a
}

func genAvCalls(t *rapid.T, max int) []avCall {
	var out []avCall
	for i := rapid.IntRange(0, max).Draw(t, "calls"); i > 0; i-- {
		c := avCall{Special: rapid.Bool().Draw(t, "special")}
		for k := upTo(t, "toks", 4, 60); k > 0; k-- {
			a := genAt(t)
			if big && rapid.Bool().Draw(t, "number") {
				a.C += Str(fmt.Sprint(k))
			}
			c.Toks = append(c.Toks, a)
		}
		out = append(out, c)
	}
	return out
}

// avText draws a text in which the tokens of the calls are frequent.
func avText(t *rapid.T, calls []avCall, max int) string {
	var pieces []string
	for _, c := range calls {
		for _, a := range c.Toks {
			pieces = append(pieces, string(a.C))
		}
	}
	n := rapid.IntRange(0, max).Draw(t, "pieces")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch weighted(t, "piece", 5, 3, 3, 1) {
		case 0:
			if len(pieces) > 0 {
				sb.WriteString(pick(t, "tok", pieces))
			}
		case 1:
			sb.WriteString(pick(t, "sp", []string{" ", " ", "  ", "\t", "\n", "\u00a0", "\u3000", "\u2003 "}))
		case 2:
			sb.WriteString(pick(t, "ch", []string{"a", "b", "A", "é", "É", "中", "国", "-", ".", "_", "1", "x", "ب", "\u0301", "M", "s", "[", ">", "\u203f", "\u200d"}))
		case 3:
			sb.WriteString(genPiece(t))
		}
	}
	return sb.String()
}

type extractCase struct {
	Vocab []Str
	Calls []avCall
	Norm  *normSpec `json:",omitempty"`
	Texts []Str
}

func runExtract(x *Ctx, c extractCase) error {
	wl := wlSpec{Tokens: c.Vocab, Step: 1}
	model, err := buildModel(modelSpec{Wl: &wl})
	if err != nil {
		return err
	}
	var n normalizer.Normalizer
	if c.Norm != nil {
		n = c.Norm.build()
	}
	av := tokenizer.NewAddedVocabulary()
	m := newAvModel(wl.vocab())
	for _, call := range c.Calls {
		var got int
		if call.Special {
			got = av.AddSpecialTokens(call.build(), model, n)
		} else {
			got = av.AddTokens(call.build(), model, n)
		}
		want := m.call(call, func(s string) (int, bool) { return av.TokenToId(s, model) })
		if got != want {
			return fmt.Errorf("%d tokens are said to be added, want %d", got, want)
		}
	}
	for _, s := range c.Texts {
		text := string(s)
		want, err := m.extract(text, c.Norm)
		if err != nil {
			return err
		}
		pt := av.ExtractAndNormalize(text, n)
		found := 0
		var plain [][]exp
		for _, p := range want {
			plain = append(plain, p.es)
			if p.id >= 0 {
				found++
			}
		}
		x.NonTrivial(found > 0 && found < len(want))
		x.Label("adjacent tokens", found > 1)
		if err := checkSplits(text, pt, plain); err != nil {
			return fmt.Errorf("text %q: %w", text, err)
		}
		if len(want) == 0 {
			continue
		}
		for i, g := range pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
			p := want[i]
			if (g.Tokens != nil) != (p.id >= 0) {
				return fmt.Errorf("text %q: piece %q has tokens %v, want id %d", text, g.Value, g.Tokens, p.id)
			}
			if p.id < 0 {
				continue
			}
			if len(g.Tokens) != 1 {
				return fmt.Errorf("text %q: piece %q has tokens %v", text, g.Value, g.Tokens)
			}
			tok := g.Tokens[0]
			if tok.Id != p.id || tok.Value != g.Value || len(tok.Offsets) != 2 || tok.Offsets[0] != 0 || tok.Offsets[1] != len(g.Value) {
				return fmt.Errorf("text %q: piece %q has token %v, want id %d", text, g.Value, tok, p.id)
			}
		}
	}
	return nil
}

func genExtract(t *rapid.T) extractCase {
	c := extractCase{Norm: maybeNorm(t)}
	for k := rapid.IntRange(0, 3).Draw(t, "vocab"); k > 0; k-- {
		c.Vocab = append(c.Vocab, Str(pick(t, "v", atContents)))
	}
	c.Calls = genAvCalls(t, 3)
	for k := rapid.IntRange(1, 3).Draw(t, "texts"); k > 0; k-- {
		c.Texts = append(c.Texts, Str(stretch(t, avText(t, c.Calls, 9), 1200)))
	}
	return c
}

// ---------------------------------------------------------------- models

type modelSpec struct {
	Bpe *bpeSpec `json:",omitempty"`
	Wp  *wpSpec  `json:",omitempty"`
	Wl  *wlSpec  `json:",omitempty"`
	Uni *uniSpec `json:",omitempty"`
}

func (s modelSpec) vocab() map[string]int {
	switch {
	case s.Bpe != nil:
		return s.Bpe.vocab()
	case s.Wp != nil:
		return s.Wp.vocab()
	case s.Wl != nil:
		return s.Wl.vocab()
	}
	return s.Uni.vocab()
}

func buildModel(s modelSpec) (tokenizer.Model, error) {
	switch {
	case s.Bpe != nil:
		return s.Bpe.build()
	case s.Wp != nil:
		return s.Wp.build()
	case s.Wl != nil:
		return s.Wl.build()
	case s.Uni != nil:
		return s.Uni.build()
	}
	return nil, fmt.Errorf("no model")
}

// genModel draws a model for the given words.
func genModel(t *rapid.T, words []string, kinds ...string) modelSpec {
	if len(words) == 0 {
		words = []string{"a", "b"}
	}
	word := func() []rune { return []rune(pick(t, "word", words)) }
	var toks []Str
	seen := map[Str]bool{}
	add := func(s Str) bool {
		if s == "" || seen[s] {
			return false
		}
		seen[s] = true
		toks = append(toks, s)
		return true
	}
	chars := func(prefix Str) {
		for _, w := range words {
			for i, r := range []rune(w) {
				if weighted(t, "char", 1, 12) == 1 {
					if i > 0 && prefix != "" {
						add(prefix + Str(string(r)))
					} else {
						add(Str(string(r)))
					}
				}
			}
		}
	}
	step := 1 + weighted(t, "step", 4, 1)
	base := idBases[weighted(t, "base", 24, 6, 2, 2, 1, 1)]
	switch pick(t, "model", kinds) {
	case "bpe":
		s := bpeSpec{IdBase: base, Cache: weighted(t, "cache", 3, 1, 1) - 1}
		if s.Cache == 1 {
			s.Cache = 2
		}
		if rapid.Bool().Draw(t, "unk") {
			u := Str("<unk>")
			s.Unk = &u
			add(u)
		}
		chars("")
		for k := rapid.IntRange(0, 12).Draw(t, "merges"); k > 0; k-- {
			// merge what is already known, at a place of some word
			w := word()
			if len(w) < 2 {
				continue
			}
			i := rapid.IntRange(0, len(w)-2).Draw(t, "at")
			j := i + 1 + rapid.IntRange(0, min(2, len(w)-i-2)).Draw(t, "mid")
			l := j + 1 + rapid.IntRange(0, min(2, len(w)-j-1)).Draw(t, "len")
			a, b := Str(string(w[i:j])), Str(string(w[j:l]))
			if !seen[a] || !seen[b] {
				j, l = i+1, i+2
				a, b = Str(string(w[i:j])), Str(string(w[j:l]))
				if !seen[a] || !seen[b] {
					continue
				}
			}
			if strings.ContainsAny(string(a+b), " ") {
				continue
			}
			m := [2]Str{a, b}
			dup := false
			for _, o := range s.Merges {
				dup = dup || o == m
			}
			if !dup {
				add(a + b)
				s.Merges = append(s.Merges, m)
			}
		}
		s.Tokens = toks
		return modelSpec{Bpe: &s}
	case "wp":
		s := wpSpec{Base: base, Step: step, Prefix: Str(pick(t, "prefix", []string{"##", "##", "", "é"})), Unk: "[UNK]", Max: 100}
		if weighted(t, "max", 4, 1) == 1 {
			s.Max = rapid.IntRange(1, 5).Draw(t, "maxchars")
		}
		chars(s.Prefix)
		for k := rapid.IntRange(0, 8).Draw(t, "pieces"); k > 0; k-- {
			w := word()
			if len(w) == 0 {
				continue
			}
			i := rapid.IntRange(0, len(w)-1).Draw(t, "i")
			p := Str(string(w[i : i+1+rapid.IntRange(0, len(w)-i-1).Draw(t, "j")]))
			if i > 0 {
				p = s.Prefix + p
			}
			add(p)
		}
		s.Tokens = toks
		return modelSpec{Wp: &s}
	case "wl":
		s := wlSpec{Base: base, Step: step, Unk: "[UNK]"}
		if weighted(t, "unk", 1, 4) == 1 {
			add(s.Unk)
		}
		for _, w := range words {
			if weighted(t, "known", 1, 5) == 1 {
				add(Str(w))
			}
		}
		s.Tokens = toks
		return modelSpec{Wl: &s}
	}
	s := uniSpec{Unk: -1, Fuse: rapid.Bool().Draw(t, "fuse")}
	if weighted(t, "unk", 1, 4) == 1 {
		add("<unk>")
		s.Unk = 0
	}
	if weighted(t, "bytes", 3, 1) == 1 {
		s.Bytes = true
		for b := 0; b < 256; b++ {
			add(Str(fmt.Sprintf("<0x%02X>", b)))
		}
	}
	chars("")
	for k := rapid.IntRange(0, 8).Draw(t, "pieces"); k > 0; k-- {
		w := word()
		if len(w) == 0 {
			continue
		}
		i := rapid.IntRange(0, len(w)-1).Draw(t, "i")
		add(Str(string(w[i : i+1+rapid.IntRange(0, len(w)-i-1).Draw(t, "j")])))
	}
	if len(toks) == 0 {
		add("a")
	}
	s.Tokens = toks
	fine := weighted(t, "fine", 2, 1) == 1
	for range toks {
		if fine { // which a float32 cannot tell apart
			n := 1.0
			if len([]rune(string(toks[len(s.Scores)]))) > 1 {
				n = 2
			}
			s.Scores = append(s.Scores, -n*1.25+float64(rapid.IntRange(-3, 3).Draw(t, "finely"))/(1<<24))
			continue
		}
		s.Scores = append(s.Scores, -float64(rapid.IntRange(0, 40).Draw(t, "score"))/4)
	}
	return modelSpec{Uni: &s}
}

// ---------------------------------------------------------------- the pipeline

type truncSpec struct{ Max, Stride, Strategy int }

type padSpec struct {
	Fixed      int // 0: longest of the batch
	Left       bool
	Id, TypeId int
	Tok        string
}

type pipeSpec struct {
	Norm  *normSpec   `json:",omitempty"`
	Pre   *pretokSpec `json:",omitempty"`
	Model modelSpec
	Calls []avCall
	Proc  *procSpec  `json:",omitempty"`
	Trunc *truncSpec `json:",omitempty"`
	Pad   *padSpec   `json:",omitempty"`
}

func (s padSpec) params() *tokenizer.PaddingParams {
	st := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if s.Fixed > 0 {
		st = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(s.Fixed))
	}
	d := tokenizer.PaddingDirection(tokenizer.Right)
	if s.Left {
		d = tokenizer.PaddingDirection(tokenizer.Left)
	}
	return &tokenizer.PaddingParams{Strategy: *st, Direction: d, PadId: s.Id, PadTypeId: s.TypeId, PadToken: s.Tok}
}

func (s pipeSpec) build() (*tokenizer.Tokenizer, *avModel, error) {
	m, err := buildModel(s.Model)
	if err != nil {
		return nil, nil, err
	}
	tk := tokenizer.NewTokenizer(m)
	if len(s.Calls)%2 == 1 { // (another way to say the same)
		tk = tokenizer.NewTokenizer(nil)
		tk.WithModel(m)
	}
	if tk.GetModel() != m || tk.GetNormalizer() != nil || tk.GetPreTokenizer() != nil || tk.GetPostProcessor() != nil || tk.GetDecoder() != nil || tk.GetTruncation() != nil || tk.GetPadding() != nil {
		return nil, nil, fmt.Errorf("a new tokenizer has parts which were not asked for")
	}
	if s.Norm != nil {
		tk.WithNormalizer(s.Norm.build())
	}
	if s.Pre != nil {
		tk.WithPreTokenizer(s.Pre.build())
	}
	if s.Proc != nil {
		p, err := s.Proc.build()
		if err != nil {
			return nil, nil, err
		}
		tk.WithPostProcessor(p)
	}
	if s.Trunc != nil {
		tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: s.Trunc.Max, Stride: s.Trunc.Stride, Strategy: tokenizer.TruncationStrategy(s.Trunc.Strategy)})
	}
	if s.Pad != nil {
		tk.WithPadding(s.Pad.params())
	}
	av := newAvModel(s.Model.vocab())
	for _, c := range s.Calls {
		if c.Special {
			tk.AddSpecialTokens(c.build())
		} else {
			tk.AddTokens(c.build())
		}
		av.call(c, tk.TokenToId)
	}
	return tk, av, nil
}

// pretok applies the reference pre-tokenizer to the pieces which are no tokens yet.
func (s pretokSpec) onPieces(ps []mPiece) []mPiece {
	if s.Kind == "seq" {
		for _, q := range s.Seq {
			ps = q.onPieces(ps)
		}
		return ps
	}
	dummy := []exp{{"x", 0, 1, true}}
	skip := len(s.model([][]exp{dummy}))
	var out []mPiece
	for i, p := range ps {
		if p.id >= 0 {
			out = append(out, p)
			continue
		}
		var parts [][]exp
		if i == 0 {
			parts = s.model([][]exp{p.es})
		} else {
			parts = s.model([][]exp{dummy, p.es})[skip:]
		}
		for _, q := range parts {
			if len(q) > 0 {
				out = append(out, mPiece{q, -1})
			}
		}
	}
	return out
}

// refRow is what a token should be; offsets of text that comes from nowhere (a
// prefix) may start anywhere between oa and ia.
type refRow struct {
	row
	oa int
}

// sequence is the reference of the encoding of one text: ok is false when the model
// cannot tokenize it.
func (s pipeSpec) sequence(av *avModel, text string, word int) (rows []refRow, ok bool, err error) {
	model, err := buildModel(s.Model)
	if err != nil {
		return nil, false, err
	}
	return s.sequenceBy(model.Tokenize, av, text, word)
}

// sequenceBy is sequence with words tokenized by a function.
func (s pipeSpec) sequenceBy(tokenize func(string) ([]tokenizer.Token, error), av *avModel, text string, word int) (rows []refRow, ok bool, err error) {
	ps, err := av.extract(text, s.Norm)
	if err != nil {
		return nil, false, err
	}
	if s.Pre != nil {
		ps = s.Pre.onPieces(ps)
	}
	for i, p := range ps {
		v := etext(p.es)
		toks := []tokenizer.Token{{Id: p.id, Value: v, Offsets: []int{0, len(v)}}}
		if p.id < 0 {
			if toks, err = tokenize(v); err != nil {
				return nil, false, nil
			}
		}
		for _, tok := range toks {
			// the chars the token lies in
			var sub []exp
			q := 0
			for _, e := range p.es {
				if q < tok.Offsets[1] && q+len(e.s) > tok.Offsets[0] {
					sub = append(sub, e)
				}
				q += len(e.s)
			}
			if len(sub) == 0 {
				return nil, false, fmt.Errorf("token %v of %q covers nothing", tok, v)
			}
			ia, ib, oa, _ := spanOf(sub)
			w := word
			if word < 0 {
				w = i
			}
			rows = append(rows, refRow{row{Id: tok.Id, Tok: tok.Value, A: ia, B: ib, Word: w, Att: 1}, oa})
		}
	}
	return rows, true, nil
}

type inputSpec struct {
	Pieces []Str // one: raw
	Pre    bool  // pre-tokenized input
}

func (i inputSpec) build() tokenizer.InputSequence {
	if i.Pre {
		var ps []string
		for _, p := range i.Pieces {
			ps = append(ps, string(p))
		}
		return tokenizer.NewInputSequence(ps)
	}
	if len(i.Pieces[0])%2 == 1 { // (another way to say the same)
		return tokenizer.NewRawInputSequence(string(i.Pieces[0]))
	}
	return tokenizer.NewInputSequence(string(i.Pieces[0]))
}

// input is the reference of the encoding of one input: the tokens, and the text each
// of them is in.
func (s pipeSpec) input(av *avModel, in inputSpec) (rows []refRow, texts []string, ok bool, err error) {
	ok = true
	for i, p := range in.Pieces {
		w := -1
		if in.Pre {
			w = i
		}
		rs, good, err := s.sequence(av, string(p), w)
		if err != nil {
			return nil, nil, false, err
		}
		ok = ok && good
		for range rs {
			texts = append(texts, string(p))
		}
		rows = append(rows, rs...)
	}
	return rows, texts, ok, nil
}

// fits returns the row with the start g has, when that is a start w may have.
func (w refRow) fits(g row, text string, char bool) row {
	if !char {
		return w.fitsIn(g, nil)
	}
	return w.fitsIn(g, func(i int) int { return utf8.RuneCountInString(text[:i]) })
}

// fitsIn is fits in the unit which char converts to, bytes when it is nil.
func (w refRow) fitsIn(g row, char func(int) int) row {
	r, oa := w.row, w.oa
	if char != nil {
		oa = char(oa)
		r.A, r.B = char(r.A), char(r.B)
	}
	if g.A >= oa && g.A <= r.A {
		r.A = g.A
	}
	return r
}

type seqCase struct {
	P    pipeSpec
	In   inputSpec
	Type int
}

func runSequence(x *Ctx, c seqCase) error {
	tk, av, err := c.P.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	want, texts, ok, err := c.P.input(av, c.In)
	if err != nil {
		return err
	}
	be, berr := tk.EncodeSingleSequence(c.In.build(), c.Type, tokenizer.Byte)
	ce, cerr := tk.EncodeSingleSequence(c.In.build(), c.Type, tokenizer.Char)
	if !ok {
		x.Label("cannot be tokenized", true)
		if berr == nil || cerr == nil {
			return fmt.Errorf("the model cannot tokenize it, but there is no error")
		}
		return nil
	}
	if berr != nil || cerr != nil {
		return fmt.Errorf("%v %v", berr, cerr)
	}
	bt, err := table(be)
	if err != nil {
		return err
	}
	ct, err := table(ce)
	if err != nil {
		return err
	}
	if len(bt) != len(want) || len(ct) != len(want) {
		return fmt.Errorf("%d tokens %q, want %d", len(bt), be.Tokens, len(want))
	}
	x.NonTrivial(len(want) > 1)
	x.Label("pretokenized", c.In.Pre && len(c.In.Pieces) > 1)
	if len(be.Overflowing)+len(ce.Overflowing) > 0 {
		return fmt.Errorf("there are overflowing parts")
	}
	multi := false
	for i, w := range want {
		g, h := bt[i], ct[i]
		w.Type = c.Type
		if g.A >= w.oa && g.A <= w.A {
			w.A = g.A
		}
		if g != w.row {
			return fmt.Errorf("token %d is %v, want %v", i, g, w.row)
		}
		r := w.row
		r.A, r.B = utf8.RuneCountInString(texts[i][:g.A]), utf8.RuneCountInString(texts[i][:g.B])
		multi = multi || r.B != g.B
		if h != r {
			return fmt.Errorf("token %d is %v with char offsets, want %v", i, h, r)
		}
	}
	x.Label("multi-byte", multi)
	return nil
}

func genInput(t *rapid.T, calls []avCall) inputSpec {
	if weighted(t, "pretokenized", 3, 1) == 1 {
		in := inputSpec{Pre: true}
		for k := upTo(t, "subs", 4, 300); k > 0; k-- {
			in.Pieces = append(in.Pieces, Str(pipeText(t, calls, 3)))
		}
		return in
	}
	return inputSpec{Pieces: []Str{Str(stretch(t, pipeText(t, calls, 10), 1200))}}
}

func pipeText(t *rapid.T, calls []avCall, max int) string {
	switch weighted(t, "textkind", 4, 3, 2) {
	case 0:
		return avText(t, calls, max)
	case 1:
		return genOver(t, "dense", []string{"a", "b", "c", "ab", "é", "中", " ", " ", "un", ".", "A", "1", "'s", "\n"}, 0, max)
	}
	return genText(t, "text", max)
}

// genPipe draws a pipeline made for the given inputs.
func genPipe(t *rapid.T, norm bool) (pipeSpec, []avCall) {
	var p pipeSpec
	if norm && rapid.Bool().Draw(t, "norm?") {
		n := genNormSpec(t, 1)
		p.Norm = &n
	}
	if weighted(t, "pre?", 1, 4) == 1 {
		q := genPretok(t, 1)
		p.Pre = &q
	}
	if rapid.Bool().Draw(t, "added?") {
		p.Calls = genAvCalls(t, 2)
	}
	return p, p.Calls
}

// wordsOf lists the words the model of the pipeline sees.
func (p pipeSpec) wordsOf(inputs ...inputSpec) []string {
	av := newAvModel(nil)
	var words []string
	for _, in := range inputs {
		for _, text := range in.Pieces {
			var ps []mPiece
			if Guard(func() (err error) { ps, err = av.extract(string(text), p.Norm); return }) != nil {
				continue
			}
			if p.Pre != nil {
				ps = p.Pre.onPieces(ps)
			}
			for _, q := range ps {
				words = append(words, etext(q.es))
			}
		}
	}
	return words
}

var allModels = []string{"bpe", "wp", "wl", "uni"}

func genSequence(t *rapid.T) seqCase {
	p, calls := genPipe(t, true)
	in := genInput(t, calls)
	p.Model = genModel(t, p.wordsOf(in), allModels...)
	return seqCase{p, in, rapid.IntRange(0, 2).Draw(t, "type")}
}

// ---------------------------------------------------------------- C01

type encCase struct {
	P       pipeSpec
	A       inputSpec
	B       *inputSpec `json:",omitempty"`
	Special bool
	How     int // 0 Encode, 1 EncodeCharOffsets, 2 the short forms
}

func (m mEnc) pad(c padCase, target int) mEnc {
	out := mEnc{seqs: m.seqs, rows: padRows(m.rows, c, target)}
	for _, o := range m.over {
		out.over = append(out.over, o.pad(c, target))
	}
	return out
}

// truncated keeps k tokens; ok is false if the stride does not fit.
func truncated(m mEnc, k, stride int) (mEnc, bool) {
	n := len(m.rows)
	if k >= n {
		return m, true
	}
	if k == 0 {
		return mEnc{over: []mEnc{m}}, true
	}
	if stride >= k {
		return m, false
	}
	out := mEnc{rows: windowRows(m.rows, 0, k)}
	for s := k - stride; s+stride < n; s += k - stride {
		out.over = append(out.over, mEnc{rows: windowRows(m.rows, s, min(n, s+k))})
	}
	return out, true
}

// truncations lists the acceptable results of a truncation of a and b to max tokens.
func truncations(a mEnc, b *mEnc, max int, s truncSpec) (out [][2]mEnc, ok bool) {
	na, nb := len(a.rows), 0
	if b != nil {
		nb = len(b.rows)
	}
	var sizes [][2]int
	rem := na + nb - max
	switch {
	case rem <= 0:
		sizes = [][2]int{{na, nb}}
	case s.Strategy == int(tokenizer.LongestFirst):
		x, y := longestFirst(na, nb, rem)
		sizes = [][2]int{{x, y}}
	case s.Strategy == int(tokenizer.OnlyFirst):
		if na < rem || na == rem && max > 0 {
			return nil, false
		}
		sizes = [][2]int{{na - rem, nb}}
	default:
		if b == nil || nb < rem || nb == rem && max > 0 {
			return nil, false
		}
		sizes = [][2]int{{na, nb - rem}}
	}
	for _, z := range sizes {
		ta, oka := truncated(a, z[0], s.Stride)
		tb, okb := mEnc{}, true
		if b != nil {
			tb, okb = truncated(*b, z[1], s.Stride)
		}
		if oka && okb {
			out = append(out, [2]mEnc{ta, tb})
		}
	}
	return out, len(out) == len(sizes)
}

func runEncode(x *Ctx, c encCase) error {
	tk, av, err := c.P.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	var bad error
	off := tokenizer.OffsetType(tokenizer.Byte)
	if c.How == 1 {
		off = tokenizer.Char
	}
	single := func(in inputSpec, ty int) (mEnc, error) {
		e, err := tk.EncodeSingleSequence(in.build(), ty, off)
		if err != nil {
			if _, _, ok, rerr := c.P.input(av, in); ok || rerr != nil {
				bad = fmt.Errorf("%+v cannot be encoded: %v %v", in, err, rerr)
			}
			return mEnc{}, err
		}
		rows, err := table(e)
		if err != nil {
			return mEnc{}, err
		}
		want, texts, ok, err := c.P.input(av, in)
		if err != nil || !ok || len(rows) != len(want) || len(e.Overflowing) > 0 {
			bad = fmt.Errorf("%+v is encoded as %q, want %d tokens (can be tokenized: %v) %v", in, e.Tokens, len(want), ok, err)
			return mEnc{}, nil
		}
		for i, w := range want {
			w.Type = ty
			if r := w.fits(rows[i], texts[i], c.How == 1); rows[i] != r && bad == nil {
				bad = fmt.Errorf("token %d of %+v is %v, want %v", i, in, rows[i], r)
			}
			rows[i].Seq = -1
		}
		return mEnc{rows: rows}, nil
	}
	var flag []bool // without it there are no special tokens
	if c.Special || len(c.A.Pieces)%2 == 0 || len(c.A.Pieces) > 0 && len(c.A.Pieces[0])%2 == 0 {
		flag = []bool{c.Special}
	}
	encode := func() (*tokenizer.Encoding, error) {
		in := tokenizer.NewSingleEncodeInput(c.A.build())
		if c.B != nil {
			in = tokenizer.NewDualEncodeInput(c.A.build(), c.B.build())
		}
		switch {
		case c.How == 1:
			return tk.EncodeCharOffsets(in, c.Special)
		case c.How == 2 && !c.A.Pre && c.B == nil:
			return tk.EncodeSingle(string(c.A.Pieces[0]), flag...)
		case c.How == 2 && !c.A.Pre && !c.B.Pre:
			return tk.EncodePair(string(c.A.Pieces[0]), string(c.B.Pieces[0]), flag...)
		}
		return tk.Encode(in, c.Special)
	}
	a, err := single(c.A, 0)
	var b *mEnc
	if err == nil && c.B != nil {
		var m mEnc
		m, err = single(*c.B, 1)
		b = &m
	}
	if bad != nil {
		return bad
	}
	got, gerr := encode()
	if err != nil {
		x.Label("cannot be tokenized", true)
		if gerr == nil {
			return fmt.Errorf("a sequence cannot be encoded (%v) but the whole can", err)
		}
		return nil
	}
	proc := procSpec{Kind: "none"}
	if c.P.Proc != nil {
		proc = *c.P.Proc
	}
	cands := [][2]mEnc{{a, {}}}
	if b != nil {
		cands[0][1] = *b
	}
	limit := -1
	n := len(cands[0][0].rows) + len(cands[0][1].rows)
	if t := c.P.Trunc; t != nil && t.Max > 0 {
		limit = t.Max
		max := t.Max
		if c.Special {
			max -= proc.added(b != nil)
		}
		if max < 0 {
			max = 0
			limit = -1 // the added tokens alone exceed it
		}
		var ok bool
		cands, ok = truncations(a, b, max, *t)
		if len(cands) == 0 || (!ok && gerr != nil) {
			x.Label("refused", true)
			if gerr == nil {
				return fmt.Errorf("%d tokens cannot be truncated to %d (%+v), but there is no error", n, max, *t)
			}
			return nil
		}
		x.Label("truncated", n > max)
		x.Label("nothing kept", n > 0 && max == 0)
	}
	if gerr != nil {
		return gerr
	}
	var first error
	for _, cand := range cands {
		var pb *mEnc
		if b != nil {
			pb = &cand[1]
		}
		want := proc.apply(cand[0], pb, c.Special)
		x.NonTrivial(n > 0 && (len(want.over) > 0 || len(want.rows) > n || b != nil))
		if p := c.P.Pad; p != nil {
			target := p.Fixed
			if target == 0 {
				target = len(want.rows)
			}
			x.Label("padded", target > len(want.rows))
			want = want.pad(padCase{Left: p.Left, PadId: p.Id, PadTypeId: p.TypeId, PadToken: p.Tok}, target)
			limit = -1
		}
		if first = want.check("encoding", got); first == nil {
			break
		}
	}
	if first != nil {
		return first
	}
	if limit >= 0 && got.Len() > limit {
		return fmt.Errorf("%d tokens, the limit is %d", got.Len(), limit)
	}
	if !c.A.Pre && c.B == nil && c.How == 2 {
		toks, err := tk.Tokenize(string(c.A.Pieces[0]), flag...)
		if err != nil || strings.Join(toks, "\x00") != strings.Join(got.Tokens, "\x00") {
			return fmt.Errorf("Tokenize gives %q, want %q (%v)", toks, got.Tokens, err)
		}
	}
	if err := c.postProcess(tk, off, got); err != nil {
		return err
	}
	// again: nothing of the first time is left
	again, err := encode()
	if err != nil {
		return fmt.Errorf("the second time: %v", err)
	}
	return sameEncoding("the second time", again, got)
}

// postProcess: the encodings of the sequences, post-processed, are the whole.
func (c encCase) postProcess(tk *tokenizer.Tokenizer, off tokenizer.OffsetType, want *tokenizer.Encoding) error {
	special := c.Special
	a, err := tk.EncodeSingleSequence(c.A.build(), 0, off)
	if err != nil {
		return err
	}
	var b *tokenizer.Encoding
	if c.B != nil {
		if b, err = tk.EncodeSingleSequence(c.B.build(), 1, off); err != nil {
			return err
		}
	}
	return sameEncoding("the sequences, post-processed", tk.PostProcess(a, b, special), want)
}

func genEncode(t *rapid.T) encCase {
	p, calls := genPipe(t, false)
	c := encCase{A: genInput(t, calls), Special: weighted(t, "special", 1, 2) == 1, How: rapid.IntRange(0, 2).Draw(t, "how")}
	ins := []inputSpec{c.A}
	if rapid.Bool().Draw(t, "pair") {
		b := genInput(t, calls)
		c.B = &b
		ins = append(ins, b)
	}
	p.Model = genModel(t, p.wordsOf(ins...), allModels...)
	if weighted(t, "proc?", 1, 3) == 1 {
		q := genProcSpec(t, 1)
		p.Proc = &q
	}
	if rapid.Bool().Draw(t, "trunc?") {
		p.Trunc = &truncSpec{manyOr(t, "max", 0, 12), weighted(t, "stride", 4, 2, 1, 1), weighted(t, "strategy", 3, 1, 1)}
	}
	if weighted(t, "pad?", 2, 1) == 1 {
		p.Pad = &padSpec{Fixed: weighted(t, "fixed?", 1, 3) * (1 + upTo(t, "fixed", 13, 700)), Left: rapid.Bool().Draw(t, "left"), Id: 77, TypeId: 3, Tok: "[PAD]"}
		if weighted(t, "fixed3", 1, 1) == 1 {
			p.Pad.Fixed = 0
		}
	}
	c.P = p
	return c
}

func init() {
	Prop("C07", "a case counts when an added token is found in a text and other text is left",
		"special and plain tokens are preferred in the order they were added, special ones first", "added tokens and the normalizer do not change after the first text")
	Reg("C07", "extract", 700000, 8000000, genExtract, runExtract)
	Prop("C02", "a case counts when there are two tokens or more",
		"texts are valid UTF-8", "the model's own tokens and the alignment of normalized text are those C03 to C13 check")
	Reg("C02", "sequence", 60000, 5000000, genSequence, runSequence)
	Reg("C02", "long", 1500, 100000, Large(genSequence), runSequence)
	Reg("C07", "long", 20000, 200000, Large(genExtract), runExtract)
	Reg("C02", "whole", 40000, 3000000, func(t *rapid.T) encCase {
		c := genEncode(t)
		if c.How == 2 {
			c.How = 1
		}
		return c
	}, runEncode)
	Prop("C01", "a case counts when there are tokens, and special tokens, a pair or overflowing parts",
		"the model's own tokens and the alignment of normalized text are those C03 to C13 check", "in a sequence of processors the one which adds tokens is the last")
	Reg("C01", "encode", 80000, 5000000, genEncode, runEncode)
	Reg("C01", "long", 1500, 100000, Large(genEncode), runEncode)
}
