package main

// C24: a tokenizer.json gives the pipeline it describes.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
	"pgregory.net/rapid"
)

type obj = map[string]any

// cfgStyle says how a configuration is written, where there is a choice.
type cfgStyle struct {
	NoType   bool // of the model, when it can be guessed
	Pairs    bool // merges as pairs
	Nulls    bool // null instead of a missing value
	Old      bool // older names and forms
	Indent   bool
	FromFile bool
	Extra    bool // keys of later versions
	Omit     bool // leave out what is the default
	Case     bool // other letter case of a name, where both are known
}

// flag writes a flag which is false when it is missing.
func (y cfgStyle) flag(o obj, key string, v bool) {
	if v || !y.Omit {
		o[key] = v
	} else {
		y.set(o, key, nil)
	}
}

func (y cfgStyle) scheme(n int) string {
	s := schemes[n]
	if y.Case {
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (y cfgStyle) set(o obj, key string, v any) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || (rv.Kind() == reflect.Map || rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Slice) && rv.IsNil() {
		if y.Nulls {
			o[key] = nil
		}
		return
	}
	o[key] = v
}

func (y cfgStyle) norm(s *normSpec) obj {
	if s == nil {
		return nil
	}
	switch s.Kind {
	case "bert":
		o := obj{"type": "BertNormalizer"}
		y.flag(o, "clean_text", s.Flags[0])
		y.flag(o, "lowercase", s.Flags[1])
		y.flag(o, "handle_chinese_chars", s.Flags[2])
		if s.Flags[3] != s.Flags[1] || y.Extra {
			o["strip_accents"] = s.Flags[3]
		} else {
			y.set(o, "strip_accents", nil)
		}
		return o
	case "nfc", "nfd", "nfkc", "nfkd":
		return obj{"type": strings.ToUpper(s.Kind)}
	case "lower":
		return obj{"type": "Lowercase"}
	case "strip":
		o := obj{"type": "Strip"}
		if y.Old {
			o["type"] = "StripNormalizer"
		}
		y.flag(o, "strip_left", s.Flags[0])
		y.flag(o, "strip_right", s.Flags[1])
		return o
	case "accents":
		return obj{"type": "StripAccents"}
	case "prepend":
		return obj{"type": "Prepend", "prepend": s.S}
	case "replace":
		return obj{"type": "Replace", "pattern": obj{"String": s.S}, "content": s.S2}
	case "replacere":
		return obj{"type": "Replace", "pattern": obj{"Regex": s.S}, "content": s.S2}
	case "precompiled":
		return obj{"type": "Precompiled", "precompiled_charsmap": base64.StdEncoding.EncodeToString(buildCharsmap(s.Rules))}
	case "seq":
		seq := []any{}
		for i := range s.Seq {
			seq = append(seq, y.norm(&s.Seq[i]))
		}
		return obj{"type": "Sequence", "normalizers": seq}
	}
	panic("harness: no configuration of " + s.Kind)
}

var behaviors = []string{"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}
var schemes = []string{"never", "first", "always"}

func patJSON(p *patSpec) obj {
	if p.Kind == "regex" {
		return obj{"Regex": p.S}
	}
	return obj{"String": p.S}
}

func (y cfgStyle) pre(s *pretokSpec) obj {
	if s == nil {
		return nil
	}
	switch s.Kind {
	case "bert":
		return obj{"type": "BertPreTokenizer"}
	case "whitespace":
		return obj{"type": "Whitespace"}
	case "wssplit":
		return obj{"type": "WhitespaceSplit"}
	case "punct":
		return obj{"type": "Punctuation", "behavior": behaviors[s.N]}
	case "digits":
		return obj{"type": "Digits", "individual_digits": s.Flag}
	case "delimiter":
		if y.Old {
			return obj{"type": "Delimiter", "delimiter": s.S}
		}
		return obj{"type": "CharDelimiterSplit", "delimiter": s.S}
	case "split":
		return obj{"type": "Split", "pattern": patJSON(s.Pat), "behavior": behaviors[s.N], "invert": s.Pat.Invert}
	case "metaspace":
		o := obj{"type": "Metaspace", "replacement": s.S, "prepend_scheme": y.scheme(s.N)}
		if y.Extra { // the scheme has the last word
			o["add_prefix_space"] = (s.N != 0) != y.Case
		}
		return o
	case "metaspace-old":
		o := obj{"type": "Metaspace", "replacement": s.S}
		y.flag(o, "add_prefix_space", s.Flag)
		if y.Extra {
			o["str_rep"] = s.S
		}
		return o
	case "bytelevel":
		o := obj{"type": "ByteLevel"}
		y.flag(o, "add_prefix_space", s.Flag)
		y.flag(o, "trim_offsets", true)
		if y.Extra {
			o["use_regex"] = true
		}
		return o
	case "script":
		return obj{"type": "UnicodeScripts"}
	case "seq":
		seq := []any{}
		for i := range s.Seq {
			seq = append(seq, y.pre(&s.Seq[i]))
		}
		return obj{"type": "Sequence", "pretokenizers": seq}
	}
	panic("harness: no configuration of " + s.Kind)
}

func (y cfgStyle) proc(p *procSpec) obj {
	if p == nil {
		return nil
	}
	switch p.Kind {
	case "bert":
		return obj{"type": "BertProcessing", "sep": []any{p.Sep, p.SepId}, "cls": []any{p.Cls, p.ClsId}}
	case "roberta":
		return obj{"type": "RobertaProcessing", "sep": []any{p.Sep, p.SepId}, "cls": []any{p.Cls, p.ClsId}, "trim_offsets": p.Trim, "add_prefix_space": p.Prefix}
	case "bytelevel":
		o := obj{"type": "ByteLevel"}
		y.flag(o, "add_prefix_space", p.Prefix)
		y.flag(o, "trim_offsets", p.Trim)
		return o
	case "template":
		tpl := func(ps []tplPiece) []any {
			out := []any{}
			for _, q := range ps {
				switch q.Seq {
				case -1:
					out = append(out, obj{"SpecialToken": obj{"id": q.Tok, "type_id": q.Type}})
				case 0:
					out = append(out, obj{"Sequence": obj{"id": "A", "type_id": q.Type}})
				default:
					out = append(out, obj{"Sequence": obj{"id": "B", "type_id": q.Type}})
				}
			}
			return out
		}
		toks := obj{}
		for _, q := range p.Toks {
			toks[q.Name] = obj{"id": q.Name, "ids": q.Ids, "tokens": q.Toks}
		}
		return obj{"type": "TemplateProcessing", "single": tpl(p.Single), "pair": tpl(p.Pair), "special_tokens": toks}
	case "sequence":
		seq := []any{}
		for i := range p.Parts {
			seq = append(seq, y.proc(&p.Parts[i]))
		}
		return obj{"type": "Sequence", "processors": seq}
	}
	panic("harness: no configuration of " + p.Kind)
}

func (y cfgStyle) dec(d *decSpec) obj {
	if d == nil {
		return nil
	}
	switch d.Kind {
	case "bpe":
		return obj{"type": "BPE", "suffix": string(d.S)}
	case "wordpiece":
		return obj{"type": "WordPiece", "prefix": string(d.S), "cleanup": d.Flag}
	case "ctc":
		key := "word_delimiter_token"
		if y.Old {
			key = "word_delimiter"
		}
		return obj{"type": "CTC", "pad_token": string(d.S), key: string(d.S2), "cleanup": d.Flag}
	case "metaspace":
		o := obj{"type": "Metaspace", "replacement": string(d.S)}
		if y.Old {
			y.flag(o, "add_prefix_space", d.N != 0)
		} else {
			o["prepend_scheme"] = y.scheme(d.N)
			if y.Extra {
				o["add_prefix_space"] = (d.N != 0) != y.Case
			}
		}
		return o
	case "bytelevel":
		return obj{"type": "ByteLevel", "add_prefix_space": true, "trim_offsets": false}
	case "fuse":
		return obj{"type": "Fuse"}
	case "strip":
		return obj{"type": "Strip", "content": string(d.S), "start": d.N, "stop": d.N2}
	case "bytefallback":
		return obj{"type": "ByteFallback"}
	case "replace":
		return obj{"type": "Replace", "pattern": obj{"String": string(d.S)}, "content": string(d.S2)}
	case "replacere":
		return obj{"type": "Replace", "pattern": obj{"Regex": string(d.S)}, "content": string(d.S2)}
	case "seq":
		seq := []any{}
		for i := range d.Seq {
			seq = append(seq, y.dec(&d.Seq[i]))
		}
		return obj{"type": "Sequence", "decoders": seq}
	}
	panic("harness: no configuration of " + d.Kind)
}

func (y cfgStyle) model(s modelSpec, dec *decSpec) obj {
	o := obj{}
	guess := "BPE" // by the decoder
	if dec != nil && dec.Kind == "wordpiece" {
		guess = "WordPiece"
	}
	typ := ""
	switch {
	case s.Bpe != nil:
		typ = "BPE"
		b := s.Bpe
		o["vocab"] = b.vocab()
		merges := []any{}
		for _, m := range b.Merges {
			if y.Pairs {
				merges = append(merges, []string{string(m[0]), string(m[1])})
			} else {
				merges = append(merges, string(m[0])+" "+string(m[1]))
			}
		}
		o["merges"] = merges
		y.set(o, "unk_token", b.Unk)
		y.set(o, "continuing_subword_prefix", b.Prefix)
		y.set(o, "end_of_word_suffix", b.Suffix)
		if b.Drop > 0 {
			o["dropout"] = b.Drop
		} else {
			y.set(o, "dropout", nil)
		}
		if y.Extra {
			o["fuse_unk"], o["byte_fallback"] = false, false
		}
	case s.Wp != nil:
		typ = "WordPiece"
		o["vocab"] = s.Wp.vocab()
		o["unk_token"] = string(s.Wp.Unk)
		if s.Wp.Prefix != "##" || !y.Nulls {
			o["continuing_subword_prefix"] = string(s.Wp.Prefix)
		}
		if s.Wp.Max != 100 || !y.Nulls {
			o["max_input_chars_per_word"] = s.Wp.Max
		}
	case s.Wl != nil:
		typ = "WordLevel"
		o["vocab"] = s.Wl.vocab()
		if s.Wl.Unk != "" || !y.Omit {
			o["unk_token"] = string(s.Wl.Unk)
		} else {
			y.set(o, "unk_token", nil)
		}
	default:
		typ = "Unigram"
		u := s.Uni
		vocab := []any{}
		for i := range u.Tokens {
			vocab = append(vocab, []any{string(u.Tokens[i]), u.Scores[i]})
		}
		o["vocab"] = vocab
		if u.Unk >= 0 {
			o["unk_id"] = u.Unk
		} else {
			y.set(o, "unk_id", nil)
		}
		if u.Bytes || !y.Nulls {
			o["byte_fallback"] = u.Bytes
		}
		if !u.Fuse || !y.Nulls {
			o["fuse_unk"] = u.Fuse
		}
	}
	if !(y.NoType && typ == guess) {
		o["type"] = typ
	}
	return o
}

type cfgCase struct {
	P     pipeSpec
	Dec   *decSpec `json:",omitempty"`
	Style cfgStyle
	In    []inputSpec // one or a pair
	Ids   []int
}

var strategies = []string{"LongestFirst", "OnlyFirst", "OnlySecond"}

func (c cfgCase) config() obj {
	y := c.Style
	o := obj{"model": y.model(c.P.Model, c.Dec)}
	if !y.Nulls {
		o["version"] = "1.0"
	}
	y.set(o, "normalizer", y.norm(c.P.Norm))
	y.set(o, "pre_tokenizer", y.pre(c.P.Pre))
	y.set(o, "post_processor", y.proc(c.P.Proc))
	y.set(o, "decoder", y.dec(c.Dec))
	toks := []any{}
	for _, call := range c.P.Calls {
		for _, a := range call.Toks {
			o := obj{"id": len(toks), "content": string(a.C)}
			y.flag(o, "single_word", a.Single)
			y.flag(o, "lstrip", a.L)
			y.flag(o, "rstrip", a.R)
			y.flag(o, "normalized", a.Norm)
			y.flag(o, "special", call.Special)
			toks = append(toks, o)
		}
	}
	o["added_tokens"] = toks
	var tr, pad obj
	if t := c.P.Trunc; t != nil {
		tr = obj{"max_length": t.Max, "strategy": strategies[t.Strategy], "stride": t.Stride}
		if y.Extra {
			tr["direction"] = "Right"
		}
	}
	if p := c.P.Pad; p != nil {
		pad = obj{"direction": map[bool]string{true: "Left", false: "Right"}[p.Left], "pad_id": p.Id, "pad_type_id": p.TypeId, "pad_token": p.Tok}
		if y.Case {
			pad["direction"] = strings.ToLower(pad["direction"].(string))
		}
		if y.Omit {
			for k, v := range map[string]any{"direction": "Right", "pad_id": 0, "pad_type_id": 0, "pad_token": "[PAD]"} {
				if pad[k] == v {
					delete(pad, k)
					y.set(pad, k, nil)
				}
			}
		}
		switch {
		case p.Fixed == 0:
			pad["strategy"] = "BatchLongest"
		case y.Old:
			pad["strategy"] = "Fixed"
			if !y.Omit || p.Fixed != 512 {
				pad["size"] = p.Fixed
			}
		default:
			pad["strategy"] = obj{"Fixed": p.Fixed}
		}
		if y.Extra {
			pad["pad_to_multiple_of"] = nil
		}
	}
	y.set(o, "truncation", tr)
	y.set(o, "padding", pad)
	return o
}

func (c cfgCase) text() []byte {
	var b []byte
	var err error
	if c.Style.Indent {
		b, err = json.MarshalIndent(c.config(), "", "  ")
	} else {
		b, err = marshalNoEsc(c.config())
	}
	if err != nil {
		panic(err)
	}
	return b
}

func load(text []byte, file bool) (*tokenizer.Tokenizer, error) {
	if !file {
		return pretrained.FromReader(strings.NewReader(string(text)))
	}
	dir, err := os.MkdirTemp("", "cfg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "tokenizer.json")
	if err := os.WriteFile(f, text, 0o644); err != nil {
		panic(err)
	}
	// the sections as they are read
	cfg, err := tokenizer.ConfigFromFile(f)
	var raw map[string]any
	if json.Unmarshal(text, &raw) == nil && raw != nil && err == nil {
		if cfg == nil {
			return nil, fmt.Errorf("ConfigFromFile gives nothing")
		}
		got := map[string]map[string]any{"model": cfg.Model, "normalizer": cfg.Normalizer, "pre_tokenizer": cfg.PreTokenizer, "post_processor": cfg.PostProcessor, "decoder": cfg.Decoder, "truncation": cfg.Truncation, "padding": cfg.Padding}
		for k, v := range got {
			want, _ := raw[k].(map[string]any)
			if len(v)+len(want) > 0 && !reflect.DeepEqual(v, want) {
				return nil, fmt.Errorf("ConfigFromFile gives %s %v, want %v", k, v, want)
			}
		}
		if toks, _ := raw["added_tokens"].([]any); len(toks) != len(cfg.AddedTokens) {
			return nil, fmt.Errorf("ConfigFromFile gives the added tokens %v, want %v", cfg.AddedTokens, toks)
		}
	} else if err != nil {
		return nil, fmt.Errorf("ConfigFromFile: %v", err)
	}
	if _, err := tokenizer.ConfigFromFile(f + "x"); err == nil {
		return nil, fmt.Errorf("ConfigFromFile gives no error for a file which is missing")
	}
	if raw != nil {
		cut := bytes.TrimRight(text, " \t\r\n")
		cut = cut[:1+int(uint(len(text)*2654435761)>>7)%(len(cut)-1)]
		if err := os.WriteFile(f+".cut", cut, 0o644); err != nil {
			panic(err)
		}
		if _, err := tokenizer.ConfigFromFile(f + ".cut"); err == nil {
			return nil, fmt.Errorf("ConfigFromFile gives no error for %s", cut)
		}
	}
	return pretrained.FromFile(f)
}

// sameTokenizer compares two tokenizers by what they do.
func sameTokenizer(x *Ctx, got, want *tokenizer.Tokenizer, ins []inputSpec, ids []int) error {
	for _, added := range []bool{true, false} {
		a, b := got.GetVocab(added), want.GetVocab(added)
		if !reflect.DeepEqual(a, b) {
			return fmt.Errorf("vocabulary (added: %v) %v, want %v", added, a, b)
		}
		if a, b := got.GetVocabSize(added), want.GetVocabSize(added); a != b {
			return fmt.Errorf("vocabulary size (added: %v) %d, want %d", added, a, b)
		}
	}
	if a, b := got.GetSpecialTokens(), want.GetSpecialTokens(); !sameStrings(a, b) {
		return fmt.Errorf("special tokens %q, want %q", a, b)
	}
	if (got.GetTruncation() == nil) != (want.GetTruncation() == nil) || got.GetTruncation() != nil && !reflect.DeepEqual(*got.GetTruncation(), *want.GetTruncation()) {
		return fmt.Errorf("truncation %+v, want %+v", got.GetTruncation(), want.GetTruncation())
	}
	var singles []tokenizer.EncodeInput
	for _, in := range ins {
		singles = append(singles, tokenizer.NewSingleEncodeInput(in.build()))
	}
	tasks := append([]tokenizer.EncodeInput{}, singles...)
	if len(ins) > 1 {
		tasks = append(tasks, tokenizer.NewDualEncodeInput(ins[0].build(), ins[1].build()))
	}
	for i, in := range tasks {
		for _, special := range []bool{true, false} {
			a, erra := got.Encode(in, special)
			b, errb := want.Encode(in, special)
			if (erra == nil) != (errb == nil) {
				return fmt.Errorf("input %d (special tokens: %v): %v, want %v", i, special, erra, errb)
			}
			if erra != nil {
				x.Label("cannot be encoded", true)
				continue
			}
			x.NonTrivial(b.Len() > 1)
			if err := sameEncoding(fmt.Sprintf("input %d (special tokens: %v)", i, special), a, b); err != nil {
				return err
			}
			if special {
				ids = append(ids, b.Ids...)
			}
		}
	}
	a, erra := got.EncodeBatch(singles, true)
	b, errb := want.EncodeBatch(singles, true)
	if (erra == nil) != (errb == nil) || len(a) != len(b) {
		return fmt.Errorf("batch: %d %v, want %d %v", len(a), erra, len(b), errb)
	}
	for i := range a {
		if err := sameEncoding(fmt.Sprintf("batch %d", i), &a[i], &b[i]); err != nil {
			return err
		}
	}
	for _, skip := range []bool{true, false} {
		if a, b := got.Decode(ids, skip), want.Decode(ids, skip); a != b {
			return fmt.Errorf("%v is decoded to %q, want %q", ids, a, b)
		}
	}
	return nil
}

func runConfig(x *Ctx, c cfgCase) error {
	want, _, err := c.P.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	if c.Dec != nil {
		want.WithDecoder(c.Dec.build())
	}
	text := c.text()
	got, err := load(text, c.Style.FromFile)
	if err != nil {
		return fmt.Errorf("the configuration is refused: %v", err)
	}
	x.Label("normalizer", c.P.Norm != nil)
	x.Label("pre-tokenizer", c.P.Pre != nil)
	x.Label("processor", c.P.Proc != nil)
	x.Label("decoder", c.Dec != nil)
	x.Label("added tokens", len(c.P.Calls) > 0)
	if err := sameTokenizer(x, got, want, c.In, c.Ids); err != nil {
		return fmt.Errorf("%v\n  configuration %s", err, head(string(text), 1500))
	}
	return nil
}

// expressible changes a normalizer to one a configuration can name.
func expressible(s *normSpec) {
	switch s.Kind {
	case "unicode", "wrapunicode":
		*s = normSpec{Kind: s.S}
	case "wrapbert":
		s.Kind = "bert"
	case "default":
		*s = normSpec{Kind: "lower"}
	case "nmtnfkc":
		*s = normSpec{Kind: "nfkc"}
	case "seq":
		for i := range s.Seq {
			expressible(&s.Seq[i])
		}
	}
}

func expressiblePre(s *pretokSpec) {
	if s.Pat != nil && s.Pat.Kind != "regex" {
		p := *s.Pat
		p.Kind = "string"
		s.Pat = &p
	}
	for i := range s.Seq {
		expressiblePre(&s.Seq[i])
	}
}

func decExplicit(d *decSpec) {
	d.Deft = false
	for i := range d.Seq {
		decExplicit(&d.Seq[i])
	}
}

func validStrs(m *modelSpec) bool {
	var ts []Str
	switch {
	case m.Bpe != nil:
		ts = m.Bpe.Tokens
	case m.Wp != nil:
		ts = m.Wp.Tokens
	case m.Wl != nil:
		ts = m.Wl.Tokens
	default:
		ts = m.Uni.Tokens
	}
	for _, s := range ts {
		if !utf8.ValidString(string(s)) {
			return false
		}
	}
	return true
}

// manySize is n, or at times one of the sizes which are common in practice.
func manySize(t *rapid.T, n int) int {
	if weighted(t, "common", 9, 1) == 1 {
		return rapid.SampledFrom([]int{100, 128, 255, 256, 300, 512, 513, 700}).Draw(t, "size")
	}
	return n
}

func genConfig(t *rapid.T) cfgCase {
	p, calls := genPipe(t, true)
	if p.Norm != nil {
		expressible(p.Norm)
	}
	if p.Pre != nil {
		expressiblePre(p.Pre)
	}
	c := cfgCase{}
	for k := rapid.IntRange(1, 2).Draw(t, "inputs"); k > 0; k-- {
		c.In = append(c.In, genInput(t, calls))
	}
	var raw []inputSpec
	for _, in := range c.In {
		raw = append(raw, in)
	}
	p.Model = genModel(t, p.wordsOf(raw...), allModels...)
	if weighted(t, "trained", 4, 1) == 1 { // prefixes, suffixes
		s := genBpeSpec(t)
		if s.Drop != 1 {
			s.Drop = 0
		}
		s.How, s.Cache = 0, -1
		p.Model = modelSpec{Bpe: &s}
		w := Str("")
		for k := rapid.IntRange(1, 4).Draw(t, "words"); k > 0; k-- {
			w += genBpeWord(t, s) + " "
		}
		c.In = append(c.In[:0], inputSpec{Pieces: []Str{w}})
	}
	if !validStrs(&p.Model) {
		p.Model = modelSpec{Wl: &wlSpec{Tokens: []Str{"a"}, Step: 1, Unk: "[UNK]"}}
	}
	if rapid.Bool().Draw(t, "proc?") {
		q := genProcSpec(t, 1)
		p.Proc = &q
	}
	if weighted(t, "trunc?", 2, 1) == 1 {
		p.Trunc = &truncSpec{manySize(t, rapid.IntRange(0, 12).Draw(t, "max")), weighted(t, "stride", 4, 2, 1), rapid.IntRange(0, 2).Draw(t, "strategy")}
	}
	if weighted(t, "pad?", 2, 1) == 1 {
		p.Pad = &padSpec{Fixed: weighted(t, "fixed?", 1, 1) * manySize(t, rapid.IntRange(1, 14).Draw(t, "fixed")), Left: rapid.Bool().Draw(t, "left"), Id: weighted(t, "padid?", 1, 2) * rapid.IntRange(0, 999).Draw(t, "padid"), TypeId: rapid.IntRange(0, 3).Draw(t, "padtype"), Tok: pick(t, "pad", []string{"[PAD]", "<pad>", ""})}
	}
	if rapid.Bool().Draw(t, "decoder?") {
		d := genDec(t, 1)
		decExplicit(&d)
		c.Dec = &d
	}
	c.P = p
	for k := rapid.IntRange(0, 6).Draw(t, "ids"); k > 0; k-- {
		c.Ids = append(c.Ids, rapid.IntRange(0, 60).Draw(t, "id"))
	}
	b := func(l string) bool { return rapid.Bool().Draw(t, l) }
	c.Style = cfgStyle{b("notype"), b("pairs"), b("nulls"), b("old"), b("indent"), weighted(t, "file", 3, 1) == 1, b("extra"), b("omit"), b("case")}
	return c
}

// ---------------------------------------------------------------- what describes nothing

type brokenCase struct {
	C    cfgCase
	What int // the break, of those which apply
	Pos  int // where, of the places
}

type cfgBreak struct {
	what string
	do   func()
}

// breaks lists what makes a configuration one which describes no tokenizer.
func breaks(o obj) (out []cfgBreak) {
	add := func(what string, do func()) { out = append(out, cfgBreak{what, do}) }
	model := o["model"].(obj)
	typ, _ := model["type"].(string)
	add("an unknown type of model", func() { model["type"] = "BPE2" })
	add("the type of model in lower case", func() { model["type"] = "bpe" })
	if typ == "BPE" {
		merges := model["merges"].([]any)
		for i := range merges {
			parts := func() (a []string) {
				switch m := merges[i].(type) {
				case string:
					a = strings.Split(m, " ")
				case []string:
					a = append(a, m...)
				}
				return
			}
			put := func(a ...string) {
				if _, ok := merges[i].(string); ok {
					merges[i] = strings.Join(a, " ")
				} else {
					merges[i] = a
				}
			}
			add("a merge of three tokens", func() { put(append(parts(), parts()[0])...) })
			add("a merge of one token", func() { put(parts()[0]) })
			add("a merge of no token", func() { put() })
			add("a merge which is a number", func() { merges[i] = 3 })
			if v, ok := model["vocab"].(map[string]int); ok {
				prefix := ""
				if q, ok := model["continuing_subword_prefix"].(*Str); ok && q != nil {
					prefix = string(*q)
				}
				into := parts()[0] + strings.TrimPrefix(parts()[1], prefix)
				if into != parts()[0] && into != parts()[1] {
					add("a merge into a token which is missing", func() { delete(v, into) })
				}
			}
		}
		add("no merges", func() { delete(model, "merges") })
		add("a dropout which is no probability", func() { model["dropout"] = 1.5 })
		add("a negative dropout", func() { model["dropout"] = -0.1 })
	}
	if typ == "Unigram" {
		vocab := model["vocab"].([]any)
		for i := range vocab {
			e := vocab[i].([]any)
			add("a piece with three values", func() { vocab[i] = append(e, 1.0) })
			add("a piece without score", func() { vocab[i] = e[:1] })
			add("a piece whose score is a text", func() { vocab[i] = []any{e[0], "1"} })
			add("a piece which is a number", func() { vocab[i] = []any{1.0, e[1]} })
		}
		add("an unknown token outside of the vocabulary", func() { model["unk_id"] = len(vocab) })
		add("a negative unknown token", func() { model["unk_id"] = -1 })
	}
	if v, ok := model["vocab"].(map[string]int); ok && typ != "" {
		add("a vocabulary with a text as id", func() {
			m := obj{}
			for k, id := range v {
				m[k] = id
			}
			m["zz"] = "1"
			model["vocab"] = m
		})
		add("a vocabulary which is a list", func() { model["vocab"] = []any{"a"} })
	}
	if typ != "" {
		add("no vocabulary", func() { delete(model, "vocab") })
		add("a vocabulary which is null", func() { model["vocab"] = nil })
	}
	var section func(v any, what string)
	section = func(v any, what string) {
		s, ok := v.(obj)
		if !ok || s == nil {
			return
		}
		kind, _ := s["type"].(string)
		add("an unknown type of "+what, func() { s["type"] = kind + "2" })
		add("no type of "+what, func() { delete(s, "type") })
		add("the type of a "+what+" which is a number", func() { s["type"] = 1 })
		for _, key := range []string{"normalizers", "pretokenizers", "processors", "decoders"} {
			if l, ok := s[key].([]any); ok {
				for i := range l {
					section(l[i], what)
				}
				if len(l) > 0 {
					add("a "+what+" in a sequence which is a text", func() { l[0] = "NFC" })
				}
				if key != "normalizers" {
					add("a sequence without "+key, func() { delete(s, key) })
				}
			}
		}
		if _, ok := s["behavior"]; ok {
			add("an unknown behavior", func() { s["behavior"] = "Merged" })
			add("no behavior", func() { delete(s, "behavior") })
		}
		if _, ok := s["pattern"]; ok {
			add("an unknown kind of pattern", func() {
				if what == "pre-tokenizer" {
					s["pattern"] = obj{"Glob": "a"}
				} else {
					s["pattern"] = nil
				}
			})
			add("a pattern which does not compile", func() { s["pattern"] = obj{"Regex": "a("} })
			if what == "pre-tokenizer" {
				add("a split without pattern", func() { delete(s, "pattern") })
			}
		}
		if _, ok := s["content"]; ok {
			add("no content", func() { delete(s, "content") })
		}
		if _, ok := s["prepend_scheme"]; ok && what == "pre-tokenizer" {
			add("an unknown prepend scheme", func() { s["prepend_scheme"] = "last" })
		}
		if _, ok := s["precompiled_charsmap"]; ok {
			add("a charsmap which is not base64", func() { s["precompiled_charsmap"] = "*" })
			add("no charsmap", func() { delete(s, "precompiled_charsmap") })
		}
		if _, ok := s["delimiter"]; ok {
			add("an empty delimiter", func() { s["delimiter"] = "" })
		}
		for _, key := range []string{"sep", "cls"} {
			if l, ok := s[key].([]any); ok {
				add("no "+key, func() { delete(s, key) })
				add(key+" without id", func() { s[key] = l[:1] })
				add("the id of "+key+" which is a text", func() { s[key] = []any{l[0], "1"} })
			}
		}
		for _, key := range []string{"single", "pair"} {
			l, ok := s[key].([]any)
			if !ok {
				continue
			}
			toks := s["special_tokens"].(obj)
			add("a special token which is not given in "+key, func() {
				s[key] = append(l, obj{"SpecialToken": obj{"id": "[NONE]", "type_id": 0}})
			})
			for i := range l {
				if q, ok := l[i].(obj)["SpecialToken"].(obj); ok {
					add("a special token of "+key+" which is missing", func() { delete(toks, q["id"].(string)) })
				}
			}
			if key == "single" {
				add("a second sequence in a single one", func() {
					s[key] = append([]any{obj{"Sequence": obj{"id": "B", "type_id": 0}}}, l...)
				})
			}
		}
		if toks, ok := s["special_tokens"].(obj); ok {
			var names []string
			for k := range toks {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				tok := toks[k].(obj)
				ids, texts := tok["ids"].([]int), tok["tokens"].([]string)
				add("a special token with an id too many", func() { tok["ids"] = append(append([]int{}, ids...), 1) })
				add("a special token with a token too many", func() { tok["tokens"] = append(append([]string{}, texts...), "x") })
			}
		}
	}
	section(o["normalizer"], "normalizer")
	section(o["pre_tokenizer"], "pre-tokenizer")
	section(o["post_processor"], "post-processor")
	section(o["decoder"], "decoder")
	for _, key := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder", "truncation", "padding", "model"} {
		add(key+" which is a text", func() { o[key] = "NFC" })
	}
	if tr, ok := o["truncation"].(obj); ok && tr != nil {
		add("a maximum length which is a text", func() { tr["max_length"] = "1" })
		add("no maximum length", func() { delete(tr, "max_length") })
		add("a stride which is a text", func() { tr["stride"] = "1" })
	}
	add("added tokens which are no list", func() { o["added_tokens"] = obj{"a": 1} })
	add("an added token whose content is a number", func() {
		o["added_tokens"] = append(o["added_tokens"].([]any), obj{"content": 1})
	})
	return out
}

func genBroken(t *rapid.T) brokenCase {
	return brokenCase{genConfig(t), rapid.IntRange(0, 1<<20).Draw(t, "what"), rapid.IntRange(0, 1<<20).Draw(t, "pos")}
}

func runBroken(x *Ctx, c brokenCase) error {
	o := c.C.config()
	all := breaks(o)
	var kinds []string
	at := map[string][]int{}
	for i, b := range all {
		if at[b.what] == nil {
			kinds = append(kinds, b.what)
		}
		at[b.what] = append(at[b.what], i)
	}
	what := kinds[c.What%len(kinds)]
	b := all[at[what][c.Pos%len(at[what])]]
	b.do()
	text, err := marshalNoEsc(o)
	if err != nil {
		return err
	}
	x.NonTrivial(true)
	x.Label(what, true)
	tk, err := pretrained.FromReader(strings.NewReader(string(text)))
	if err == nil {
		return fmt.Errorf("a configuration with %s is accepted: %s", b.what, head(string(text), 1500))
	}
	if tk != nil {
		return fmt.Errorf("a tokenizer and an error for %s", b.what)
	}
	return nil
}

func init() {
	Prop("C24", "a case counts when an input is encoded into two tokens or more",
		"the pipeline built through the API is the one the other properties check")
	Reg("C24", "config", 60000, 4000000, genConfig, runConfig)
	Reg("C24", "refused", 60000, 4000000, genBroken, runBroken)
}
