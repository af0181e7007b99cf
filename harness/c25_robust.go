package main

// C25: whatever the configuration, the text and the ids are, the library
// answers or returns an error: no panic, no end of the process, no hang.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"pgregory.net/rapid"
)

// exercise uses everything a tokenizer offers on an input.
func exercise(x *Ctx, tk *tokenizer.Tokenizer, ins []inputSpec, ids []int) error {
	var all []tokenizer.EncodeInput
	for _, in := range ins {
		all = append(all, tokenizer.NewSingleEncodeInput(in.build()))
	}
	if len(ins) > 1 {
		all = append(all, tokenizer.NewDualEncodeInput(ins[0].build(), ins[1].build()))
	}
	look := func(what string, e *tokenizer.Encoding, chars bool) error {
		if e == nil {
			return fmt.Errorf("%s: neither an encoding nor an error", what)
		}
		if _, err := mEncOf(e); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		limit := 0
		for _, in := range ins {
			n := 0
			for _, p := range in.Pieces {
				n = max(n, len(p))
			}
			limit = max(limit, n)
		}
		for i, o := range e.Offsets {
			if o[0] < 0 || o[1] < o[0] || o[1] > limit {
				return fmt.Errorf("%s: token %d has offsets %v, the texts are at most %d bytes", what, i, o, limit)
			}
		}
		x.NonTrivial(len(e.Ids) > 0)
		ids = append(ids, e.Ids...)
		return nil
	}
	for i, in := range all {
		for _, special := range []bool{true, false} {
			if e, err := tk.Encode(in, special); err == nil {
				if err := look(fmt.Sprintf("input %d", i), e, false); err != nil {
					return err
				}
			}
			if e, err := tk.EncodeCharOffsets(in, special); err == nil {
				if err := look(fmt.Sprintf("input %d (chars)", i), e, true); err != nil {
					return err
				}
			}
		}
	}
	if es, err := tk.EncodeBatch(all, true); err == nil {
		if len(es) != len(all) {
			return fmt.Errorf("%d encodings of %d inputs", len(es), len(all))
		}
		for i := range es {
			if err := look(fmt.Sprintf("batch %d", i), &es[i], false); err != nil {
				return err
			}
		}
	}
	if len(ids) > 400 {
		ids = ids[:400]
	}
	for _, skip := range []bool{true, false} {
		tk.Decode(ids, skip)
		tk.Decode([]int{}, skip)
		tk.Decode([]int{-1, 1 << 40}, skip)
		if n := len(tk.DecodeBatch([][]int{ids, {}, ids}, skip)); n != 3 {
			return fmt.Errorf("%d texts of 3 lists of ids", n)
		}
	}
	for tok, id := range tk.GetVocab(true) {
		if _, ok := tk.TokenToId(tok); !ok {
			return fmt.Errorf("the token %q of the vocabulary has no id", tok)
		}
		tk.IdToToken(id)
	}
	tk.GetVocabSize(true)
	tk.GetSpecialTokens()
	for _, in := range ins {
		for _, p := range in.Pieces {
			tk.Tokenize(string(p), true)
			break
		}
	}
	return nil
}

// ---------------------------------------------------------------- configurations

type robCase struct {
	Text Str
	Did  []string `json:",omitempty"` // what was done to a good configuration
	File bool
	In   []inputSpec
	Ids  []int
}

func runRobConfig(x *Ctx, c robCase) error {
	x.NonTrivial(len(c.Text) > 1)
	tk, err := load([]byte(c.Text), c.File)
	if err != nil {
		x.Label("refused", true)
		if tk != nil {
			return fmt.Errorf("a tokenizer and an error: %v", err)
		}
		return nil
	}
	if tk == nil {
		return fmt.Errorf("neither a tokenizer nor an error")
	}
	x.Label("accepted", true)
	if err := Guard(func() error { return exercise(x, tk, c.In, c.Ids) }); err != nil {
		return fmt.Errorf("%v\n  after %q, configuration %s", err, c.Did, head(string(c.Text), 1500))
	}
	return nil
}

// jsonPaths lists every place of a value, in a fixed order.
func jsonPaths(v any) (out [][]any) {
	switch v := v.(type) {
	case map[string]any:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			out = append(out, []any{k})
			for _, p := range jsonPaths(v[k]) {
				out = append(out, append([]any{k}, p...))
			}
		}
	case []any:
		for i := range v {
			out = append(out, []any{i})
			for _, p := range jsonPaths(v[i]) {
				out = append(out, append([]any{i}, p...))
			}
		}
	}
	return out
}

func jsonAt(v any, path []any) any {
	for _, k := range path {
		switch k := k.(type) {
		case string:
			v = v.(map[string]any)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

type jsonEdit struct {
	drop, double bool
	put          any
}

func jsonDo(v any, path []any, e jsonEdit) any {
	if len(path) == 0 {
		return e.put
	}
	last := len(path) == 1
	switch k := path[0].(type) {
	case string:
		m := v.(map[string]any)
		switch {
		case last && e.drop:
			delete(m, k)
		case last && e.double:
			m[k+"2"] = m[k]
		default:
			m[k] = jsonDo(m[k], path[1:], e)
		}
		return m
	case int:
		a := v.([]any)
		switch {
		case last && e.drop:
			return append(append([]any{}, a[:k]...), a[k+1:]...)
		case last && e.double:
			return append(append(append([]any{}, a[:k+1]...), a[k]), a[k+1:]...)
		}
		a[k] = jsonDo(a[k], path[1:], e)
		return a
	}
	panic("harness: path")
}

var typeNames = []string{"", "BPE", "WordPiece", "WordLevel", "Unigram", "BertNormalizer", "Sequence", "Lowercase", "NFC", "NFD", "NFKC", "NFKD", "Nmt", "Strip", "StripAccents", "Prepend", "Replace", "Precompiled", "ByteLevel", "Whitespace", "WhitespaceSplit", "Punctuation", "Digits", "Delimiter", "CharDelimiterSplit", "Split", "Metaspace", "UnicodeScripts", "BertPreTokenizer", "BertProcessing", "RobertaProcessing", "TemplateProcessing", "CTC", "Fuse", "ByteFallback", "WPE", "None"}

var keyNames = []string{"type", "vocab", "merges", "unk_token", "unk_id", "dropout", "continuing_subword_prefix", "end_of_word_suffix", "max_input_chars_per_word", "fuse_unk", "byte_fallback", "normalizers", "pretokenizers", "processors", "decoders", "pattern", "String", "Regex", "content", "behavior", "invert", "replacement", "add_prefix_space", "prepend_scheme", "str_rep", "sep", "cls", "single", "pair", "special_tokens", "Sequence", "SpecialToken", "id", "ids", "tokens", "type_id", "prefix", "suffix", "cleanup", "pad_token", "word_delimiter_token", "start", "stop", "precompiled_charsmap", "strategy", "max_length", "stride", "direction", "pad_id", "pad_type_id", "Fixed", "size", "trim_offsets", "individual_digits", "delimiter", "model", "normalizer", "pre_tokenizer", "post_processor", "decoder", "added_tokens", "truncation", "padding", "lowercase", "strip_accents", "clean_text"}

func genJSON(t *rapid.T, depth int) any {
	n := 7
	if depth > 0 {
		n = 9
	}
	switch rapid.IntRange(0, n-1).Draw(t, "json") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		return rapid.SampledFrom([]any{0, 1, 2, 3, 7, -1, -2, -100, 50, 300, 0.5, -0.5, 1.5, -1e300, 1e-300, -9223372036854775808}).Draw(t, "number")
	case 3:
		return pick(t, "type", typeNames)
	case 4:
		return pick(t, "string", []string{"", "a", " ", "##", "▁", "(", "[", "a**", "\\", "(?=x)", "\\p{Foo}", "é", "[UNK]", "[CLS]", "Removed", "Isolated", "Contiguous", "first", "always", "Left", "Fixed", "BatchLongest", "LongestFirst", "OnlySecond", "A", "B", "$A", "AAAA", "%%%", "</w>", "\u0000"})
	case 5:
		return pick(t, "key", keyNames)
	case 6:
		return rapid.SampledFrom([]string{genPieceString(t), "a b", "ab"}).Draw(t, "text")
	case 7:
		a := []any{}
		for k := rapid.IntRange(0, 3).Draw(t, "len"); k > 0; k-- {
			a = append(a, genJSON(t, depth-1))
		}
		return a
	}
	o := obj{}
	for k := rapid.IntRange(0, 3).Draw(t, "len"); k > 0; k-- {
		o[pick(t, "key", keyNames)] = genJSON(t, depth-1)
	}
	return o
}

func genPieceString(t *rapid.T) string { return strings.ToValidUTF8(genPiece(t), "?") }

func genRobConfig(t *rapid.T) robCase {
	g := genConfig(t)
	c := robCase{In: g.In, Ids: g.Ids, File: weighted(t, "file", 6, 1) == 1}
	text := g.text()
	switch weighted(t, "how", 12, 1, 1) {
	case 0:
		var v any
		if err := json.Unmarshal(text, &v); err != nil {
			panic(err)
		}
		for k := rapid.IntRange(1, 3).Draw(t, "edits"); k > 0; k-- {
			// prefer the parts: large vocabularies have most of the places
			paths := jsonPaths(v)
			if weighted(t, "small", 1, 4) == 1 {
				var few [][]any
				for _, p := range paths {
					if len(p) < 3 || p[1] != "vocab" && p[1] != "merges" {
						few = append(few, p)
					}
				}
				paths = few
			}
			if len(paths) == 0 {
				break
			}
			p := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "place")]
			e := jsonEdit{}
			what := "put"
			switch weighted(t, "edit", 5, 3, 1, 2, 1) {
			case 0:
				e.put = genJSON(t, 2)
			case 1:
				e.drop = true
				what = "drop"
			case 2:
				e.double = true
				what = "double"
			case 3: // another part of the configuration
				q := paths[rapid.IntRange(0, len(paths)-1).Draw(t, "other")]
				b, _ := json.Marshal(jsonAt(v, q))
				json.Unmarshal(b, &e.put)
				what = fmt.Sprint("copy of ", q)
			default:
				old := jsonAt(v, p)
				if s, ok := old.(string); ok {
					if strings.HasSuffix(fmt.Sprint(p...), "type") {
						e.put = pick(t, "newtype", typeNames)
					} else {
						e.put = s + genPieceString(t)
					}
				} else {
					e.put = []any{old}
				}
			}
			v = jsonDo(v, p, e)
			c.Did = append(c.Did, fmt.Sprint(what, " at ", p, " ", head(fmt.Sprint(e.put), 60)))
		}
		b, err := marshalNoEsc(v)
		if err != nil {
			panic(err)
		}
		text = b
	case 1: // broken text
		a := rapid.IntRange(0, len(text)).Draw(t, "cut")
		switch rapid.IntRange(0, 2).Draw(t, "break") {
		case 0:
			text = text[:a]
		case 1:
			text = append(append(append([]byte{}, text[:a]...), []byte(genBytes(t, "junk", 3))...), text[a:]...)
		default:
			b := min(len(text), a+rapid.IntRange(1, 20).Draw(t, "gap"))
			text = append(append([]byte{}, text[:a]...), text[b:]...)
		}
		c.Did = []string{"broken text"}
	default:
		o := obj{}
		for _, k := range []string{"model", "normalizer", "pre_tokenizer", "post_processor", "decoder", "added_tokens", "truncation", "padding", "version"} {
			if rapid.Bool().Draw(t, k) {
				o[k] = genJSON(t, 3)
			}
		}
		var v any = o
		if weighted(t, "whole", 5, 1) == 1 {
			v = genJSON(t, 2)
		}
		text, _ = marshalNoEsc(v)
		c.Did = []string{"anything"}
	}
	c.Text = Str(text)
	return c
}

// ---------------------------------------------------------------- texts

type robText struct {
	C   batchCase
	Rep int // the pieces are repeated
}

func runRobText(x *Ctx, c robText) error {
	tk, err := c.C.tokenizer()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	var ins []inputSpec
	for _, in := range c.C.In {
		a := in.A
		a.Pieces = append([]Str{}, a.Pieces...)
		for i, p := range a.Pieces {
			a.Pieces[i] = Str(strings.Repeat(string(p), c.Rep))
		}
		ins = append(ins, a)
	}
	var ids []int
	for _, l := range c.C.Ids {
		ids = append(ids, l...)
	}
	return exercise(x, tk, ins, ids)
}

func genRobText(t *rapid.T) robText {
	c := robText{C: genBatch(t), Rep: pickInt(t, "repeat", 1, 1, 1, 1, 2, 7, 60)}
	if c.Rep > 1 {
		c.C.P.Trunc = nil // a pair has an overflowing part per couple of parts
	}
	if len(c.C.In) > 3 {
		c.C.In = c.C.In[:3]
	}
	for i := range c.C.In {
		in := &c.C.In[i]
		in.B = nil
		for j := range in.A.Pieces {
			switch weighted(t, "bytes", 2, 3, 1) {
			case 1:
				in.A.Pieces[j] = Str(genBytes(t, "text", 8))
			case 2: // a text with some bytes lost
				s := string(in.A.Pieces[j])
				if len(s) > 0 {
					k := rapid.IntRange(0, len(s)-1).Draw(t, "lost")
					s = s[:k] + s[k+1:]
				}
				in.A.Pieces[j] = Str(s)
			}
		}
	}
	for k := rapid.IntRange(0, 3).Draw(t, "odd"); k > 0; k-- {
		c.C.Ids = append(c.C.Ids, rapid.SliceOfN(rapid.IntRange(-5, 300), 0, 5).Draw(t, "odd ids"))
	}
	return c
}

func pickInt(t *rapid.T, label string, xs ...int) int { return rapid.SampledFrom(xs).Draw(t, label) }

func init() {
	Prop("C25", "a case counts when the configuration is not empty, or an input has a token",
		"numbers of a configuration which ask for memory (sizes, lengths) are small")
	Reg("C25", "config", 80000, 6000000, genRobConfig, runRobConfig)
	Reg("C25", "text", 40000, 3000000, genRobText, runRobText)
}
