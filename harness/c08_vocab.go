package main

// C08: histories of an added vocabulary and decoding; C19: decoders; C20: decoding
// what was encoded.

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- decoders

type decSpec struct {
	Kind  string
	S, S2 Str       `json:",omitempty"`
	Flag  bool      `json:",omitempty"`
	N, N2 int       `json:",omitempty"`
	Deft  bool      `json:",omitempty"` // through the constructor of defaults
	Seq   []decSpec `json:",omitempty"`
}

func (d decSpec) build() tokenizer.Decoder {
	switch d.Kind {
	case "bpe":
		if d.Deft {
			return decoder.DefaultBpeDecoder()
		}
		return decoder.NewBpeDecoder(string(d.S))
	case "wordpiece":
		if d.Deft {
			return decoder.DefaultWordpieceDecoder()
		}
		return decoder.NewWordPieceDecoder(string(d.S), d.Flag)
	case "ctc":
		if d.Deft {
			return decoder.DefaultCTC()
		}
		return decoder.NewCTC(string(d.S), string(d.S2), d.Flag)
	case "metaspace":
		if d.Deft {
			return pretokenizer.NewMetaspace(string(d.S), d.N != 0)
		}
		return pretokenizer.NewMetaspaceWithScheme(string(d.S), pretokenizer.PrependScheme(d.N))
	case "bytelevel":
		return pretokenizer.NewByteLevel()
	case "fuse":
		return decoder.NewFuse()
	case "strip":
		return decoder.NewStrip(string(d.S), d.N, d.N2)
	case "bytefallback":
		return decoder.NewByteFallback()
	case "replace":
		return normalizer.NewReplace(normalizer.String, string(d.S), string(d.S2))
	case "replacere":
		return normalizer.NewReplace(normalizer.Regex, string(d.S), string(d.S2))
	case "seq":
		var ds []tokenizer.Decoder
		for _, q := range d.Seq {
			ds = append(ds, q.build())
		}
		return decoder.NewSequence(ds)
	}
	panic("harness: decoder " + d.Kind)
}

// tidy undoes the artifacts of tokenization of English.
func tidy(s string) string {
	for _, p := range [][2]string{{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}} {
		s = strings.Join(strings.Split(s, p[0]), p[1])
	}
	return s
}

var byteChar = func() map[rune]byte {
	m := map[rune]byte{}
	for b, c := range gpt2Chars {
		r, _ := utf8.DecodeRuneInString(c)
		m[r] = byte(b)
	}
	return m
}()

var byteTokRe = regexp.MustCompile(`^<0x([0-9A-Fa-f]{2})>$`)

func (d decSpec) model(toks []string) []string {
	var out []string
	switch d.Kind {
	case "bpe":
		suffix := string(d.S)
		if d.Deft {
			suffix = "</w>"
		}
		for i, tok := range toks {
			sep := " "
			if i+1 == len(toks) {
				sep = ""
			}
			out = append(out, strings.Join(strings.Split(tok, suffix), sep))
		}
	case "wordpiece":
		prefix, clean := string(d.S), d.Flag
		if d.Deft {
			prefix, clean = "##", true
		}
		for i, tok := range toks {
			if i > 0 {
				if rest, ok := strings.CutPrefix(tok, prefix); ok {
					tok = rest
				} else {
					tok = " " + tok
				}
			}
			if clean {
				tok = tidy(tok)
			}
			out = append(out, tok)
		}
	case "ctc":
		pad, word, clean := string(d.S), string(d.S2), d.Flag
		if d.Deft {
			pad, word, clean = "<pad>", "|", true
		}
		for i, tok := range toks {
			if i > 0 && tok == toks[i-1] {
				continue
			}
			tok = strings.Join(strings.Split(tok, pad), "")
			if clean {
				tok = strings.Join(strings.Split(tidy(tok), word), " ")
			}
			if tok != "" {
				out = append(out, tok)
			}
		}
	case "metaspace":
		for i, tok := range toks {
			sep := " "
			if i == 0 && d.N != 0 {
				sep = ""
			}
			out = append(out, strings.Join(strings.Split(tok, string(d.S)), sep))
		}
	case "bytelevel":
		for _, tok := range toks {
			var bs []byte
			for _, r := range tok {
				b, ok := byteChar[r]
				if !ok {
					bs = []byte(tok)
					break
				}
				bs = append(bs, b)
			}
			out = append(out, string(bs))
		}
	case "fuse":
		out = []string{strings.Join(toks, "")}
	case "strip":
		for _, tok := range toks {
			n := d.N
			for n > 0 && strings.HasPrefix(tok, string(d.S)) && tok != "" {
				tok = tok[len(d.S):]
				n--
			}
			n = d.N2
			for n > 0 && strings.HasSuffix(tok, string(d.S)) && tok != "" {
				tok = tok[:len(tok)-len(d.S)]
				n--
			}
			out = append(out, tok)
		}
	case "bytefallback":
		for i := 0; i < len(toks); {
			var bs []byte
			j := i
			for ; j < len(toks); j++ {
				m := byteTokRe.FindStringSubmatch(toks[j])
				if m == nil {
					break
				}
				b, _ := strconv.ParseUint(m[1], 16, 8)
				bs = append(bs, byte(b))
			}
			switch {
			case j == i:
				out = append(out, toks[i])
				j++
			case utf8.Valid(bs):
				out = append(out, string(bs))
			default:
				for range bs {
					out = append(out, "\ufffd")
				}
			}
			i = j
		}
	case "replace":
		for _, tok := range toks {
			out = append(out, strings.Join(strings.Split(tok, string(d.S)), string(d.S2)))
		}
	case "replacere":
		re := regexp.MustCompile(string(d.S))
		for _, tok := range toks {
			out = append(out, re.ReplaceAllLiteralString(tok, string(d.S2)))
		}
	case "seq":
		out = toks
		for _, q := range d.Seq {
			out = q.model(out)
		}
	}
	return out
}

func genDec(t *rapid.T, depth int) decSpec {
	kinds := []string{"bpe", "wordpiece", "wordpiece", "ctc", "metaspace", "bytelevel", "fuse", "strip", "bytefallback", "replace", "replacere"}
	if depth > 0 {
		kinds = append(kinds, "seq", "seq", "seq")
	}
	d := decSpec{Kind: pick(t, "decoder", kinds), Deft: weighted(t, "default", 3, 1) == 1}
	switch d.Kind {
	case "bpe":
		d.S = Str(pick(t, "suffix", []string{"</w>", "$", "é", "a"}))
	case "wordpiece":
		d.S, d.Flag = Str(pick(t, "prefix", []string{"##", "##", "@@", "é", "", "#"})), rapid.Bool().Draw(t, "cleanup")
	case "ctc":
		d.S, d.S2, d.Flag = Str(pick(t, "pad", []string{"<pad>", "_", "a"})), Str(pick(t, "word", []string{"|", " ", "é", "##"})), rapid.Bool().Draw(t, "cleanup")
	case "metaspace":
		d.S, d.N = Str(pick(t, "repl", []string{"▁", "▁", "_", "a"})), rapid.IntRange(0, 2).Draw(t, "scheme")
	case "strip":
		d.S, d.N, d.N2 = Str(pick(t, "content", []string{" ", "a", "é", "▁", "中"})), rapid.IntRange(0, 4).Draw(t, "start"), rapid.IntRange(0, 4).Draw(t, "stop")
	case "replace":
		d.S, d.S2 = Str(pick(t, "pat", []string{"▁", "a", "aa", "é", "##", "."})), Str(pick(t, "with", []string{" ", "", "b", "▁▁", "$1"}))
	case "replacere":
		d.S, d.S2 = Str(pick(t, "pat", []string{"▁+", "[aé]", "^a", "a$", ".", `\s+`, "(a)b"})), Str(pick(t, "with", []string{" ", "", "b", "$1"}))
	case "seq":
		for k := rapid.IntRange(0, 4).Draw(t, "n"); k > 0; k-- {
			d.Seq = append(d.Seq, genDec(t, depth-1))
		}
	}
	return d
}

var decToks = []string{"a", "aa", "ab", "##a", "##", "a##", "b</w>", "</w>", "▁a", "▁", "▁▁b", "a▁b", "é", "Ġa", "Ġ", "Ã©", "Ã", "©", "<0x41>", "<0xC3>", "<0xA9>", "<0xc3>", "<0xZZ>", "<0x4>", "<0x>", "<0x415>", "<0x 4>", "x0x41>", "<0x41x", "<0X41>", "<0x4g>", "<0xE4>", "<0xB8>", "<0xAD>", "<0x20>", "<pad>", "|", "a|b", ".", "?", "'", " '", "n't", "'s", "'m", " 've", " 're", "'ve", "'re", " do not", "n't", "do not", " ", "  ", "", "中", "aé", "<s>", "n", "t", "_", "@@a", "\n"}

type decCase struct {
	D    decSpec
	Toks []Str
}

func plain(xs []Str) []string {
	var out []string
	for _, x := range xs {
		out = append(out, string(x))
	}
	return out
}

func runDec(x *Ctx, c decCase) error {
	d := c.D.build()
	toks := plain(c.Toks)
	for rep := 0; rep < 2; rep++ {
		in := append([]string(nil), toks...)
		want := c.D.model(toks)
		got := d.DecodeChain(in)
		if !sameStrings(got, want) {
			return fmt.Errorf("DecodeChain(%q) gives %q, want %q", toks, got, want)
		}
		if !sameStrings(in, toks) {
			return fmt.Errorf("DecodeChain changed its input to %q", in)
		}
		if s := d.Decode(in); s != strings.Join(want, "") {
			return fmt.Errorf("Decode(%q) gives %q, want %q", toks, s, strings.Join(want, ""))
		}
		x.NonTrivial(len(toks) > 1 && strings.Join(want, "") != strings.Join(toks, ""))
	}
	x.Label(c.D.Kind, true)
	return nil
}

func sameStrings(a, b []string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func genDecCase(t *rapid.T) decCase {
	c := decCase{D: genDec(t, 2)}
	for k := upTo(t, "toks", 7, 300); k > 0; k-- {
		switch weighted(t, "tok", 8, 3, 1) {
		case 0:
			c.Toks = append(c.Toks, Str(pick(t, "t", decToks)))
		case 1:
			c.Toks = append(c.Toks, Str(genOver(t, "t", []string{"a", "é", "▁", " ", "##", "b", "<", "0x", "</w>", "中", "Ġ", ".", "'"}, 0, 5)))
		case 2:
			c.Toks = append(c.Toks, Str(genText(t, "t", 4)))
		}
		if n := len(c.Toks); n > 0 && weighted(t, "again", 4, 1) == 1 {
			for k := 1 + upTo(t, "times", 0, 40); k > 0; k-- {
				c.Toks = append(c.Toks, c.Toks[n-1])
			}
		}
	}
	return c
}

// ---------------------------------------------------------------- C08

type decItem struct {
	Tok Str
	Id  int `json:",omitempty"` // when Tok is ""
}

type vocCase struct {
	Model modelSpec
	Norm  *normSpec `json:",omitempty"`
	Calls []avCall
	Dec   *decSpec `json:",omitempty"`
	Ids   []decItem
}

func (m *avModel) checkState(tk *tokenizer.Tokenizer, probes []string) error {
	base := m.base
	all := map[string]int{}
	for s, id := range base {
		all[s] = id
	}
	for s, id := range m.added {
		all[s] = id
	}
	rev := map[int]string{}
	top := 0
	for s, id := range all {
		if o, dup := rev[id]; dup {
			return fmt.Errorf("%q and %q have the same id %d", o, s, id)
		}
		rev[id] = s
		top = max(top, id)
	}
	for s, id := range all {
		if g, ok := tk.TokenToId(s); !ok || g != id {
			return fmt.Errorf("the id of %q is %d %v, want %d", s, g, ok, id)
		}
	}
	for _, s := range probes {
		if _, known := all[s]; !known {
			if g, ok := tk.TokenToId(s); ok {
				return fmt.Errorf("%q is no token but has the id %d", s, g)
			}
		}
	}
	probed := map[int]bool{}
	for id := -2; id <= min(top+3, 300); id++ {
		probed[id] = true
	}
	for id := range rev {
		// around each of them, and what is the same in 16, 24 or 32 bits
		for d := -3; d <= 3; d++ {
			probed[id+d] = true
		}
		for _, b := range []int{8, 16, 24, 32} {
			probed[id&(1<<b-1)], probed[id+1<<b] = true, true
		}
	}
	for id := range probed {
		w, known := rev[id]
		if g, ok := tk.IdToToken(id); ok != known || (ok && g != w) {
			return fmt.Errorf("the token of %d is %q %v, want %q %v", id, g, ok, w, known)
		}
	}
	for rep := 0; rep < 2; rep++ {
		g, b := tk.GetVocab(true), tk.GetVocab(false)
		if !reflect.DeepEqual(g, all) {
			return fmt.Errorf("the vocabulary is %v, want %v", g, all)
		}
		if !reflect.DeepEqual(b, base) {
			return fmt.Errorf("the vocabulary of the model is %v, want %v", b, base)
		}
		// it is the caller's
		for s := range g {
			g[s] = -5
		}
		for s := range b {
			delete(b, s)
		}
		b["new"], g["new"] = 1, 1
	}
	if n := tk.GetVocabSize(true); n != len(all) {
		return fmt.Errorf("the size of the vocabulary is %d, want %d", n, len(all))
	}
	if n := tk.GetVocabSize(false); n != len(base) {
		return fmt.Errorf("the size of the vocabulary of the model is %d, want %d", n, len(base))
	}
	var specials []string
	for _, a := range m.special {
		specials = append(specials, string(a.C))
	}
	if g := tk.GetSpecialTokens(); !sameStrings(g, specials) {
		return fmt.Errorf("the special tokens are %q, want %q", g, specials)
	}
	return nil
}

func contiguous(v map[string]int) bool {
	var ids []int
	for _, id := range v {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for i, id := range ids {
		if i != id {
			return false
		}
	}
	return true
}

func runVocab(x *Ctx, c vocCase) error {
	p := pipeSpec{Model: c.Model, Norm: c.Norm}
	tk, m, err := p.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	if c.Dec != nil {
		tk.WithDecoder(c.Dec.build())
	}
	probes := append([]string{"no such token"}, atContents...)
	for _, it := range c.Ids {
		probes = append(probes, string(it.Tok))
	}
	if err := m.checkState(tk, probes); err != nil {
		return fmt.Errorf("at first: %w", err)
	}
	added := 0
	for i, call := range c.Calls {
		toks := call.build()
		var got int
		if call.Special {
			got = tk.AddSpecialTokens(toks)
		} else {
			got = tk.AddTokens(toks)
		}
		for j := range toks { // they are the caller's
			toks[j].Content = "scribble"
		}
		before := len(m.added)
		want := m.call(call, tk.TokenToId)
		if got != want {
			return fmt.Errorf("call %d: %d tokens are said to be added, want %d", i, got, want)
		}
		added += want
		if contiguous(m.base) {
			// new tokens come right after those known, in the order they are given
			for _, a := range call.Toks {
				if id, ok := m.added[string(a.C)]; ok && id >= len(m.base)+before {
					if id > len(m.base)+before {
						return fmt.Errorf("call %d: the id of %q is %d, want %d", i, a.C, id, len(m.base)+before)
					}
					before++
				}
			}
		}
		if err := m.checkState(tk, probes); err != nil {
			return fmt.Errorf("after call %d: %w", i, err)
		}
	}
	x.NonTrivial(added > 0 && len(c.Calls) > 1)
	// decoding
	for _, skip := range []bool{false, true} {
		var ids []int
		var want []string
		for _, it := range c.Ids {
			id := it.Id
			if it.Tok != "" {
				var ok bool
				if id, ok = m.id(string(it.Tok)); !ok {
					continue
				}
			}
			ids = append(ids, id)
			tok, ok := "", false
			for _, v := range []map[string]int{m.base, m.added} {
				for s, k := range v {
					if k == id {
						tok, ok = s, true
					}
				}
			}
			if ok && !(skip && m.isSpec[tok]) {
				want = append(want, tok)
			}
		}
		text := strings.Join(want, " ")
		if c.Dec != nil {
			text = strings.Join(c.Dec.model(want), "")
		}
		in := append([]int(nil), ids...)
		if g := tk.Decode(in, skip); g != text {
			return fmt.Errorf("Decode(%v, %v) gives %q, want %q (tokens %q)", ids, skip, g, text, want)
		}
		if !reflect.DeepEqual(in, append([]int(nil), ids...)) {
			return fmt.Errorf("Decode changed the ids to %v", in)
		}
		for _, g := range tk.DecodeBatch([][]int{ids, nil, ids}, skip) {
			if g != text && g != tk.Decode(nil, skip) {
				return fmt.Errorf("DecodeBatch gives %q, want %q", g, text)
			}
		}
		x.Label("special token skipped", skip && len(want) < len(ids))
	}
	return nil
}

func genVocab(t *rapid.T) vocCase {
	var words []string
	for k := 1 + upTo(t, "words", 3, 30); k > 0; k-- {
		words = append(words, pick(t, "w", atContents))
	}
	c := vocCase{Model: genModel(t, words, allModels...), Norm: maybeNorm(t), Calls: genAvCalls(t, 4)}
	if rapid.Bool().Draw(t, "decoder?") {
		d := genDec(t, 1)
		c.Dec = &d
	}
	var known []string
	for _, call := range c.Calls {
		for _, a := range call.Toks {
			known = append(known, string(a.C))
		}
	}
	for s := range c.Model.vocab() {
		known = append(known, s)
	}
	sort.Strings(known)
	for k := rapid.IntRange(0, 8).Draw(t, "ids"); k > 0; k-- {
		if len(known) > 0 && weighted(t, "known", 1, 6) == 1 {
			c.Ids = append(c.Ids, decItem{Tok: Str(pick(t, "tok", known))})
		} else {
			c.Ids = append(c.Ids, decItem{Id: rapid.IntRange(-1, 40).Draw(t, "id")})
		}
	}
	return c
}

// ---------------------------------------------------------------- C20

type tripCase struct {
	Kind    string // bytelevel metaspace wordpiece suffix llama
	Model   modelSpec
	Flag    bool
	Scheme  int
	Repl    Str `json:",omitempty"`
	Calls   []avCall
	Text    Str
	Pair    *Str      `json:",omitempty"`
	Proc    *procSpec `json:",omitempty"`
	Special bool
	Max     int `json:",omitempty"` // truncation, without stride
}

// model is the model of the case, with the tokens of all bytes.
func (c tripCase) model() modelSpec {
	switch c.Kind {
	case "bytelevel":
		s := *c.Model.Bpe
		s.Tokens = nil
		for _, g := range gpt2Chars {
			s.Tokens = append(s.Tokens, Str(g))
		}
		s.Tokens = append(s.Tokens, c.Model.Bpe.Tokens...)
		return modelSpec{Bpe: &s}
	case "llama":
		s := *c.Model.Uni
		s.Tokens, s.Scores = []Str{"<unk>"}, make([]float64, 257)
		for b := 0; b < 256; b++ {
			s.Tokens = append(s.Tokens, Str(fmt.Sprintf("<0x%02X>", b)))
		}
		s.Tokens, s.Scores = append(s.Tokens, c.Model.Uni.Tokens...), append(s.Scores, c.Model.Uni.Scores...)
		return modelSpec{Uni: &s}
	}
	return c.Model
}

func (c tripCase) build() (*tokenizer.Tokenizer, *avModel, error) {
	p := pipeSpec{Model: c.model(), Calls: c.Calls, Proc: c.Proc}
	var d decSpec
	switch c.Kind {
	case "bytelevel":
		p.Pre, d = &pretokSpec{Kind: "bytelevel", Flag: c.Flag}, decSpec{Kind: "bytelevel"}
	case "metaspace":
		p.Pre, d = &pretokSpec{Kind: "metaspace", S: string(c.Repl), N: c.Scheme}, decSpec{Kind: "metaspace", S: c.Repl, N: c.Scheme}
	case "wordpiece":
		p.Pre, d = &pretokSpec{Kind: "bert"}, decSpec{Kind: "wordpiece", S: "##"}
	case "suffix":
		p.Pre, d = &pretokSpec{Kind: "wssplit"}, decSpec{Kind: "bpe", S: "</w>"}
	case "llama":
		p.Norm = &normSpec{Kind: "seq", Seq: []normSpec{{Kind: "prepend", S: "▁"}, {Kind: "replace", S: " ", S2: "▁"}}}
		d = decSpec{Kind: "seq", Seq: []decSpec{{Kind: "replace", S: "▁", S2: " "}, {Kind: "bytefallback"}, {Kind: "fuse"}, {Kind: "strip", S: " ", N: 1}}}
	}
	if c.Max > 0 {
		p.Trunc = &truncSpec{Max: c.Max}
	}
	tk, av, err := p.build()
	if err == nil {
		tk.WithDecoder(d.build())
	}
	return tk, av, err
}

// back is the text decoding should give, for one sequence.
func (c tripCase) back(av *avModel, text string, skip bool) (string, error) {
	if c.Kind == "llama" {
		return text, nil
	}
	ps, err := av.extract(text, nil)
	if err != nil {
		return "", err
	}
	out := ""
	var words []string
	for _, p := range ps {
		v := etext(p.es)
		if p.id >= 0 {
			if !(skip && av.isSpec[v]) {
				out += v
				if c.Kind == "suffix" { // it ends no word
					words = append(words, v)
				} else {
					words = append(words, v+" ")
				}
			}
			continue
		}
		switch c.Kind {
		case "bytelevel":
			if c.Flag && !strings.HasPrefix(v, " ") {
				v = " " + v
			}
		case "wordpiece", "suffix":
			k := "bert"
			if c.Kind == "suffix" {
				k = "wssplit"
			}
			for _, w := range (pretokSpec{Kind: k}).model([][]exp{p.es}) {
				words = append(words, etext(w)+" ")
			}
		}
		out += v
	}
	if c.Kind == "wordpiece" || c.Kind == "suffix" {
		if n := len(words); n > 0 {
			words[n-1] = strings.TrimSuffix(words[n-1], " ")
		}
		return strings.Join(words, ""), nil
	}
	return out, nil
}

func runTrip(x *Ctx, c tripCase) error {
	tk, av, err := c.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	skip := c.Special
	want, err := c.back(av, string(c.Text), skip)
	if err != nil {
		return err
	}
	var e *tokenizer.Encoding
	if c.Pair != nil {
		w2, err := c.back(av, string(*c.Pair), skip)
		if err != nil {
			return err
		}
		want += w2
		e, err = tk.EncodePair(string(c.Text), string(*c.Pair), c.Special)
		if err != nil {
			return err
		}
	} else if e, err = tk.EncodeSingle(string(c.Text), c.Special); err != nil {
		return err
	}
	ids := append([]int{}, e.Ids...)
	for i := range e.Overflowing {
		ids = append(ids, e.Overflowing[i].Ids...)
	}
	got := tk.Decode(ids, skip)
	x.NonTrivial(len(ids) > 2)
	x.Label(c.Kind, true)
	x.Label("in windows", len(e.Overflowing) > 0)
	x.Label("added tokens", len(c.Calls) > 0)
	if got != want {
		return fmt.Errorf("%q is decoded to %q, want %q (tokens %q)", c.Text, got, want, e.Tokens)
	}
	return nil
}

// fullBpe draws a BPE model which has a token for each char of the words.
func fullBpe(t *rapid.T, words []string, chars []string, suffix *Str) modelSpec {
	s := bpeSpec{Suffix: suffix, Cache: -1, How: 1}
	seen := map[Str]bool{}
	add := func(x Str) {
		if !seen[x] {
			seen[x] = true
			s.Tokens = append(s.Tokens, x)
		}
	}
	for _, c := range chars {
		add(Str(c))
	}
	for _, w := range words {
		for _, r := range w {
			add(Str(string(r)))
			if suffix != nil {
				add(Str(string(r)) + *suffix)
			}
		}
	}
	for k := rapid.IntRange(0, 10).Draw(t, "merges"); k > 0 && len(words) > 0; k-- {
		w := []rune(pick(t, "w", words))
		if len(w) < 2 {
			continue
		}
		i := rapid.IntRange(0, len(w)-2).Draw(t, "i")
		var syms []string
		for q, r := range w {
			x := string(r)
			if suffix != nil && q == len(w)-1 {
				x += string(*suffix)
			}
			syms = append(syms, x)
		}
		// as the merges so far would have it
		var bs []bsym
		for _, x := range syms {
			bs = append(bs, bsym{tok: x})
		}
		bs = s.mergeLoop(bs)
		if len(bs) < 2 {
			continue
		}
		i = min(i, len(bs)-2)
		m := [2]Str{Str(bs[i].tok), Str(bs[i+1].tok)}
		if strings.ContainsAny(string(m[0]+m[1]), " ") {
			continue
		}
		add(m[0] + m[1])
		s.Merges = append(s.Merges, m)
	}
	return modelSpec{Bpe: &s}
}

func genTrip(t *rapid.T) tripCase {
	c := tripCase{Kind: pick(t, "kind", []string{"bytelevel", "bytelevel", "bytelevel", "metaspace", "metaspace", "wordpiece", "suffix", "llama", "llama"})}
	text := func() string {
		var s string
		switch weighted(t, "textkind", 3, 2, 1) {
		case 0:
			s = genText(t, "text", 10)
		case 1:
			s = genOver(t, "text", []string{"a", "b", "ab", " ", " ", "é", "中", ".", "'s", "don't", "1", "  ", "\n"}, 0, 12)
		default:
			s = avText(t, c.Calls, 8)
		}
		return stretch(t, s, 800)
	}
	// added tokens which stand for themselves whatever the decoder
	if c.Kind != "llama" && c.Kind != "metaspace" && rapid.Bool().Draw(t, "added?") {
		for k := rapid.IntRange(1, 2).Draw(t, "calls"); k > 0; k-- {
			call := avCall{Special: rapid.Bool().Draw(t, "special")}
			for j := rapid.IntRange(1, 3).Draw(t, "toks"); j > 0; j-- {
				// (one that is special is no token of the model)
				call.Toks = append(call.Toks, atSpec{C: Str(pick(t, "content", []string{"<s>", "[MASK]", map[bool]string{true: "<ab>", false: "ab"}[call.Special], "中国", "a-b", "<|x|>", "b c"})), Single: rapid.Bool().Draw(t, "single"), Norm: rapid.Bool().Draw(t, "norm")})
			}
			c.Calls = append(c.Calls, call)
		}
	}
	texts := []string{text()}
	if weighted(t, "pair?", 3, 1) == 1 && (c.Kind == "bytelevel") {
		texts = append(texts, text())
	}
	c.Flag = rapid.Bool().Draw(t, "prefix")
	c.Scheme = rapid.IntRange(0, 2).Draw(t, "scheme")
	c.Repl = Str(pick(t, "repl", []string{"▁", "▁", "_", "中"}))
	// texts the scheme cannot tell from another one
	for i, s := range texts {
		switch c.Kind {
		case "metaspace":
			s = strings.Map(func(r rune) rune {
				if string(r) == string(c.Repl) || (isAsciiSpace(r) && r != ' ') {
					return 'x'
				}
				return r
			}, s)
			if c.Scheme != 0 {
				s = strings.TrimLeft(s, " ")
			}
		case "llama":
			s = strings.ReplaceAll(strings.ReplaceAll(s, "▁", "_"), "<0x", "0x")
		case "wordpiece":
			s = strings.ReplaceAll(s, "##", "#")
			s = strings.ReplaceAll(s, "##", "#")
		case "suffix":
			s = strings.ReplaceAll(s, "</w>", "w")
		}
		texts[i] = s
	}
	c.Text = Str(texts[0])
	if len(texts) > 1 {
		s := Str(texts[1])
		c.Pair = &s
	}
	// a model which has all chars
	var words []string
	av := newAvModel(nil)
	for _, call := range c.Calls {
		av.call(call, func(string) (int, bool) { return 0, true })
	}
	pre := map[string]*pretokSpec{"bytelevel": {Kind: "bytelevel", Flag: c.Flag}, "metaspace": {Kind: "metaspace", S: string(c.Repl), N: c.Scheme}, "wordpiece": {Kind: "bert"}, "suffix": {Kind: "wssplit"}}[c.Kind]
	for _, s := range texts {
		ps, _ := av.extract(s, nil)
		if pre != nil {
			ps = pre.onPieces(ps)
		}
		for _, p := range ps {
			if p.id < 0 {
				words = append(words, etext(p.es))
			}
		}
	}
	switch c.Kind {
	case "bytelevel":
		c.Model = fullBpe(t, words, gpt2Chars[:], nil)
		c.Model.Bpe.Tokens = c.Model.Bpe.Tokens[256:]
	case "metaspace":
		if rapid.Bool().Draw(t, "wl") {
			s := wlSpec{Step: 1, Unk: "[UNK]"}
			for _, w := range words {
				s.Tokens = append(s.Tokens, Str(w))
			}
			c.Model = modelSpec{Wl: &s}
		} else {
			c.Model = fullBpe(t, words, nil, nil)
		}
	case "suffix":
		suf := Str("</w>")
		c.Model = fullBpe(t, words, nil, &suf)
	case "wordpiece":
		s := wpSpec{Step: 1, Prefix: "##", Unk: "[UNK]", Max: 1000}
		for _, w := range words {
			for i, r := range []rune(w) {
				if i == 0 {
					s.Tokens = append(s.Tokens, Str(string(r)))
				} else {
					s.Tokens = append(s.Tokens, Str("##"+string(r)))
				}
			}
			if rw := []rune(w); len(rw) > 0 && rapid.Bool().Draw(t, "piece") {
				i := rapid.IntRange(0, len(rw)-1).Draw(t, "i")
				p := string(rw[i : i+1+rapid.IntRange(0, len(rw)-i-1).Draw(t, "j")])
				if i > 0 {
					p = "##" + p
				}
				s.Tokens = append(s.Tokens, Str(p))
			}
		}
		c.Model = modelSpec{Wp: &s}
	case "llama":
		s := uniSpec{Unk: 0, Bytes: true, Fuse: rapid.Bool().Draw(t, "fuse"), How: rapid.IntRange(0, 1).Draw(t, "how")}
		seen := map[string]bool{}
		add := func(p string, score float64) {
			if !seen[p] {
				seen[p] = true
				s.Tokens = append(s.Tokens, Str(p))
				s.Scores = append(s.Scores, score)
			}
		}
		add("▁", -1)
		rs := []rune("▁" + strings.ReplaceAll(texts[0], " ", "▁"))
		for k := rapid.IntRange(0, 10).Draw(t, "pieces"); k > 0; k-- {
			i := rapid.IntRange(0, len(rs)-1).Draw(t, "i")
			add(string(rs[i:i+1+rapid.IntRange(0, min(3, len(rs)-i-1)).Draw(t, "j")]), -float64(rapid.IntRange(0, 20).Draw(t, "score")))
		}
		c.Model = modelSpec{Uni: &s}
	}
	if c.Kind == "bytelevel" && rapid.Bool().Draw(t, "proc?") {
		// special tokens around, which decoding skips
		c.Calls = append(c.Calls, avCall{Special: true, Toks: []atSpec{{C: "<<"}, {C: ">>"}}})
		c.Special = true
		n := len(c.model().vocab())
		av := newAvModel(c.model().vocab())
		for _, call := range c.Calls {
			av.call(call, func(string) (int, bool) { n++; return n - 1, true })
		}
		a, _ := av.id("<<")
		b, _ := av.id(">>")
		c.Proc = &procSpec{Kind: pick(t, "proc", []string{"bert", "roberta"}), Cls: "<<", Sep: ">>", ClsId: a, SepId: b, Trim: rapid.Bool().Draw(t, "trim"), Prefix: c.Flag}
		if strings.ContainsAny(strings.Join(texts, ""), "<>") {
			c.Proc, c.Special, c.Calls = nil, false, c.Calls[:len(c.Calls)-1]
		}
	}
	if c.Pair == nil && !c.Special && rapid.Bool().Draw(t, "windows") {
		c.Max = manyOr(t, "max", 1, 6)
	}
	return c
}

func init() {
	Prop("C08", "a case counts when tokens are added in two calls or more",
		"the vocabulary of the model itself is the one C09 to C13 check")
	Reg("C08", "history", 150000, 4000000, genVocab, runVocab)
	Reg("C08", "long", 4000, 100000, Large(genVocab), runVocab)
	Prop("C19", "a case counts when there are two tokens or more and decoding changes them")
	Reg("C19", "chain", 2500000, 20000000, genDecCase, runDec)
	Reg("C19", "long", 15000, 100000, Large(genDecCase), runDec)
	Prop("C20", "a case counts when there are three tokens or more",
		"the model has a token for each char (or byte) of the text", "texts the scheme cannot tell from another one are left out: a marker char in the text, spaces the pre-tokenizer drops")
	Reg("C20", "text", 80000, 5000000, genTrip, runTrip)
	Reg("C20", "long", 1500, 100000, Large(genTrip), runTrip)
}
