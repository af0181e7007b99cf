package main

// C27: the presets against the models they are presets of, with the real vocabularies.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
	"pgregory.net/rapid"
)

var presetNames = []string{"bert-base-uncased", "bert-large-cased", "gpt2", "roberta-base", "roberta-base-squad2"}

var presetFiles = [][]string{{"bert-base-uncased-vocab.txt"}, {"bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"},
	{"gpt2-merges.txt", "gpt2-vocab.json"}, {"roberta-base-merges.txt", "roberta-base-vocab.json"}, {"roberta-base-squad2-merges.txt", "roberta-base-squad2-vocab.json"}}

const modelDir = "/repo/pretrained/model"

// preset is a loaded preset and what it should do.
type preset struct {
	tk       *tokenizer.Tokenizer
	p        pipeSpec
	dec      decSpec
	av       *avModel
	tokenize func(string) ([]tokenizer.Token, error)
	words    []string
	tokOf    map[int]string
	cwd      error
}

type presetKey struct {
	Which        int
	Prefix, Trim bool
}

var presets = map[presetKey]*preset{}

// presetDir makes the directory the presets look for their files in. The code is
// built with -trimpath, so it is below the working directory; the vocabularies which
// are not in the repository are made from the merges.
var presetDir = sync.OnceValues(func() (string, error) {
	pc := reflect.ValueOf(pretrained.GPT2).Pointer()
	src, _ := runtime.FuncForPC(pc).FileLine(pc)
	if filepath.IsAbs(src) {
		return "", fmt.Errorf("harness: not built with -trimpath")
	}
	root, err := os.MkdirTemp("", "presets")
	if err != nil {
		return "", err
	}
	dir := filepath.Join(root, filepath.Dir(src), "model")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	for _, fs := range presetFiles {
		b, err := os.ReadFile(filepath.Join(modelDir, fs[0]))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, fs[0]), b, 0o644); err != nil {
			return "", err
		}
		if len(fs) < 2 {
			continue
		}
		v, _, err := byteVocab(fs[0])
		if err != nil {
			return "", err
		}
		if b, err = json.Marshal(v); err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, fs[1]), b, 0o644); err != nil {
			return "", err
		}
	}
	return root, nil
})

// byteVocab makes the vocabulary of GPT-2, or one in the style of RoBERTa, from its merges.
func byteVocab(merges string) (map[string]int, [][2]string, error) {
	f, err := os.Open(filepath.Join(modelDir, merges))
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	v := map[string]int{}
	add := func(t string) {
		if _, ok := v[t]; !ok {
			v[t] = len(v)
		}
	}
	if strings.HasPrefix(merges, "roberta") {
		for _, t := range []string{"<s>", "<pad>", "</s>", "<unk>"} {
			add(t)
		}
	}
	for pass := 0; pass < 2; pass++ {
		for b := 0; b < 256; b++ {
			if (gpt2Chars[b] == string(rune(b))) == (pass == 0) {
				add(gpt2Chars[b])
			}
		}
	}
	var rules [][2]string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		a, b, ok := strings.Cut(sc.Text(), " ")
		if !ok || strings.HasPrefix(sc.Text(), "#version") {
			continue
		}
		rules = append(rules, [2]string{a, b})
		add(a + b)
	}
	add(map[bool]string{true: "<mask>", false: "<|endoftext|>"}[strings.HasPrefix(merges, "roberta")])
	return v, rules, sc.Err()
}

func loadPreset(k presetKey) (*preset, error) {
	if k.Which < 2 {
		k.Prefix, k.Trim = false, false
	}
	if p := presets[k]; p != nil {
		return p, nil
	}
	root, err := presetDir()
	if err != nil {
		panic(err)
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	s := &preset{tokOf: map[int]string{}}
	err = Guard(func() error {
		switch k.Which {
		case 0:
			s.tk = pretrained.BertBaseUncased()
		case 1:
			s.tk = pretrained.BertLargeCasedWholeWordMaskingSquad()
		case 2:
			s.tk = pretrained.GPT2(k.Prefix, k.Trim)
		case 3:
			s.tk = pretrained.RobertaBase(k.Prefix, k.Trim)
		case 4:
			s.tk = pretrained.RobertaBaseSquad2(k.Prefix, k.Trim)
		}
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("cannot be loaded: %v", err)
	}
	if now, err := os.Getwd(); err != nil || now != root {
		s.cwd = fmt.Errorf("loading it changes the working directory to %s", now)
	}
	var vocab map[string]int
	if k.Which < 2 {
		b, err := os.ReadFile(filepath.Join(modelDir, presetFiles[k.Which][0]))
		if err != nil {
			panic(err)
		}
		vocab = map[string]int{}
		for i, t := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			t = strings.TrimSpace(t)
			vocab[t] = i
			if i%37 == 0 {
				s.words = append(s.words, strings.TrimPrefix(t, "##"))
			}
		}
		wp := wpSpec{Prefix: "##", Unk: "[UNK]", Max: 100}
		s.tokenize = func(w string) ([]tokenizer.Token, error) {
			toks, bad := wp.model(vocab, w)
			if bad {
				return nil, fmt.Errorf("no unknown token")
			}
			var out []tokenizer.Token
			for _, t := range toks {
				out = append(out, tokenizer.Token{Id: t.id, Value: t.val, Offsets: []int{t.a, t.b}})
			}
			return out, nil
		}
		uncased := k.Which == 0
		s.p.Norm = &normSpec{Kind: "bert", Flags: []bool{true, uncased, true, uncased}}
		s.p.Pre = &pretokSpec{Kind: "bert"}
		s.p.Proc = &procSpec{Kind: "bert", Sep: "[SEP]", SepId: vocab["[SEP]"], Cls: "[CLS]", ClsId: vocab["[CLS]"]}
		s.p.Calls = []avCall{{Special: true, Toks: []atSpec{{C: "[MASK]"}, {C: "[SEP]"}, {C: "[CLS]"}}}}
		s.dec = decSpec{Kind: "wordpiece", S: "##", Flag: true}
	} else {
		var rules [][2]string
		if vocab, rules, err = byteVocab(presetFiles[k.Which][0]); err != nil {
			panic(err)
		}
		rank := map[[2]string]int{}
		for i, r := range rules {
			rank[r] = i
			if i%61 == 0 {
				s.words = append(s.words, r[0]+r[1])
			}
		}
		for i, w := range s.words {
			for b, c := range gpt2Chars {
				if b <= ' ' {
					w = strings.ReplaceAll(w, c, string(rune(b)))
				}
			}
			s.words[i] = strings.ToValidUTF8(w, "")
		}
		s.tokenize = func(w string) (out []tokenizer.Token, err error) {
			at := 0
			for _, r := range w {
				n := len(string(r))
				out = append(out, tokenizer.Token{Value: string(r), Offsets: []int{at, at + n}})
				at += n
			}
			for {
				best, pos := len(rules), -1
				for i := 0; i+1 < len(out); i++ {
					if r, ok := rank[[2]string{out[i].Value, out[i+1].Value}]; ok && r < best {
						best, pos = r, i
					}
				}
				if pos < 0 {
					break
				}
				out[pos] = tokenizer.Token{Value: out[pos].Value + out[pos+1].Value, Offsets: []int{out[pos].Offsets[0], out[pos+1].Offsets[1]}}
				out = append(out[:pos+1], out[pos+2:]...)
			}
			for i, t := range out {
				out[i].Id = vocab[t.Value]
			}
			return out, nil
		}
		s.p.Pre = &pretokSpec{Kind: "bytelevel", Flag: k.Prefix}
		s.p.Proc = &procSpec{Kind: "bytelevel", Trim: k.Trim, Prefix: k.Prefix}
		if k.Which > 2 {
			s.p.Proc = &procSpec{Kind: "roberta", Trim: k.Trim, Prefix: k.Prefix, Sep: "</s>", SepId: 2, Cls: "<s>", ClsId: 0}
			s.p.Calls = []avCall{{Special: true, Toks: []atSpec{{C: "<s>"}, {C: "</s>"}}}}
		}
		s.dec = decSpec{Kind: "bytelevel"}
	}
	s.av = newAvModel(vocab)
	for _, c := range s.p.Calls {
		s.av.call(c, s.tk.TokenToId)
	}
	for t, id := range vocab {
		s.tokOf[id] = t
	}
	if got := s.tk.GetVocab(true); !reflect.DeepEqual(got, vocab) {
		return nil, fmt.Errorf("has a vocabulary of %d tokens which is not that of its files (%d)", len(got), len(vocab))
	}
	presets[k] = s
	return s, nil
}

type presetCase struct {
	K       presetKey
	Texts   []Str // one or two
	Special bool
	Char    bool
	Ids     []int
}

func runPreset(x *Ctx, c presetCase) error {
	s, err := loadPreset(c.K)
	name := presetNames[c.K.Which]
	if err == nil {
		err = s.cwd
	}
	if err != nil {
		return fmt.Errorf("%s: %v", name, err)
	}
	x.Label(name, true)
	off := tokenizer.OffsetType(tokenizer.Byte)
	if c.Char {
		off = tokenizer.Char
	}
	var seqs []mEnc
	for ty, text := range c.Texts {
		want, ok, err := s.p.sequenceBy(s.tokenize, s.av, string(text), -1)
		if err != nil || !ok {
			return fmt.Errorf("harness: %v", err)
		}
		e, err := s.tk.EncodeSingleSequence(tokenizer.NewInputSequence(string(text)), ty, off)
		if err != nil {
			return fmt.Errorf("%s: %q: %v", name, text, err)
		}
		rows, err := table(e)
		if err != nil {
			return err
		}
		if len(rows) != len(want) {
			return fmt.Errorf("%s: %q gives %q, want %v", name, text, e.Tokens, want)
		}
		for i, w := range want {
			w.Type = ty
			if r := w.fits(rows[i], string(text), c.Char); rows[i] != r {
				return fmt.Errorf("%s: token %d of %q is %v, want %v", name, i, text, rows[i], r)
			}
			rows[i].Seq = -1
		}
		x.NonTrivial(len(rows) > 2)
		seqs = append(seqs, mEnc{rows: rows})
	}
	in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(string(c.Texts[0])))
	var b *mEnc
	if len(seqs) > 1 {
		b = &seqs[1]
		in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(string(c.Texts[0])), tokenizer.NewInputSequence(string(c.Texts[1])))
	}
	enc := s.tk.Encode
	if c.Char {
		enc = s.tk.EncodeCharOffsets
	}
	e, err := enc(in, c.Special)
	if err != nil {
		return err
	}
	if err := s.p.Proc.apply(seqs[0], b, c.Special).check(name, e); err != nil {
		return err
	}
	// decoding, of this and of any other list of ids
	for _, ids := range [][]int{e.Ids, c.Ids} {
		for _, skip := range []bool{true, false} {
			var toks []string
			for _, id := range ids {
				if t, ok := s.tokOf[id]; ok && !(skip && s.av.isSpec[t]) {
					toks = append(toks, t)
				}
			}
			want := strings.Join(s.dec.model(toks), "")
			if got := s.tk.Decode(ids, skip); got != want {
				return fmt.Errorf("%s: %v is decoded to %q, want %q", name, ids, got, want)
			}
		}
	}
	// the byte-level ones give the text back
	if c.K.Which >= 2 && len(c.Texts) == 1 && !c.K.Prefix && !strings.Contains(string(c.Texts[0]), "s>") {
		if got := s.tk.Decode(e.Ids, true); got != string(c.Texts[0]) {
			return fmt.Errorf("%s: %q is decoded to %q", name, c.Texts[0], got)
		}
	}
	return nil
}

func genPreset(t *rapid.T) presetCase {
	c := presetCase{K: presetKey{weighted(t, "preset", 4, 4, 3, 2, 2), false, false}, Special: weighted(t, "special", 1, 3) == 1, Char: rapid.Bool().Draw(t, "char")}
	if c.K.Which >= 2 {
		c.K.Prefix, c.K.Trim = rapid.Bool().Draw(t, "prefix"), rapid.Bool().Draw(t, "trim")
	}
	var words []string
	if s, err := loadPreset(c.K); err == nil {
		words = s.words
	}
	text := func() Str {
		var sb strings.Builder
		for k := rapid.IntRange(0, 8).Draw(t, "pieces"); k > 0; k-- {
			switch w := weighted(t, "piece", 6, 3, 3, 1, 1); {
			case w == 0 && len(words) > 0:
				sb.WriteString(pick(t, "word", words))
			case w <= 1:
				sb.WriteString(genPiece(t))
			case w == 2:
				sb.WriteString(" ")
			case w == 3:
				sb.WriteString(pick(t, "special", []string{"[CLS]", "[SEP]", "[MASK]", "[UNK]", "[PAD]", "<s>", "</s>", "<mask>", "<|endoftext|>"}))
			case w == 4:
				sb.WriteString(strings.Repeat(pick(t, "rep", []string{"a", "é", "中", "-", " ", "1"}), rapid.IntRange(1, 110).Draw(t, "times")))
			}
		}
		return Str(sb.String())
	}
	c.Texts = []Str{text()}
	if weighted(t, "pair", 2, 1) == 1 {
		c.Texts = append(c.Texts, text())
	}
	for k := rapid.IntRange(0, 6).Draw(t, "ids"); k > 0; k-- {
		c.Ids = append(c.Ids, rapid.IntRange(0, 51000).Draw(t, "id"))
	}
	return c
}

func init() {
	Prop("C27", "a case counts when a text has three tokens or more",
		"texts are valid UTF-8", "the vocabularies of GPT-2 and RoBERTa, which the repository does not hold, are made from the merges it holds")
	f := Reg("C27", "presets", 10000, 600000, genPreset, runPreset)
	f.Shards = 4
}
