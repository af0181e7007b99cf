package main

// C23: a saved model, loaded again, is the same model.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
	"pgregory.net/rapid"
)

type saveCase struct {
	Model  modelSpec
	Words  []Str
	Name   *Str   `json:",omitempty"`
	Dir    string // below the scratch directory
	Exists bool   // the directory is there already
	Old    int    // size of what the files hold before
	Fault  int    // 0 none, 1 the directory is a file, 2.. writing to file Fault-2 fails, 4.. file Fault-4 is a directory
	Conc   bool   // save twice
	Many   int    // more tokens (and merges)
	Cut    int    // when not 0, no file can be longer than this part (of 1000) of the longest
}

// grown is the case with its tokens added.
func (c saveCase) grown() saveCase {
	seen := map[Str]bool{}
	note := func(ts []Str) []Str {
		for _, t := range ts {
			seen[t] = true
		}
		return append([]Str{}, ts...)
	}
	tok := func(i int) Str { return Str(fmt.Sprintf("%x", (i+1)*7919)) }
	switch m := &c.Model; {
	case m.Bpe != nil:
		s := *m.Bpe
		s.Tokens, s.Merges = note(s.Tokens), append([][2]Str{}, s.Merges...)
		add := func(t Str) {
			if !seen[t] {
				seen[t] = true
				s.Tokens = append(s.Tokens, t)
			}
		}
		for i := 0; i < c.Many; i++ {
			if p := [2]Str{tok(i), s.Tokens[i%len(s.Tokens)]}; !seen[p[0]] && !strings.Contains(string(p[1]), " ") {
				add(p[0])
				s.Merges = append(s.Merges, p)
				add(s.mergedTok(p))
			}
		}
		m.Bpe = &s
	case m.Wp != nil:
		s := *m.Wp
		s.Tokens = note(s.Tokens)
		for i := 0; i < c.Many; i++ {
			if !seen[tok(i)] && tok(i) != s.Unk {
				s.Tokens = append(s.Tokens, tok(i))
			}
		}
		m.Wp = &s
	case m.Wl != nil:
		s := *m.Wl
		s.Tokens = note(s.Tokens)
		for i := 0; i < c.Many; i++ {
			if !seen[tok(i)] && tok(i) != s.Unk {
				s.Tokens = append(s.Tokens, tok(i))
			}
		}
		m.Wl = &s
	default:
		s := *m.Uni
		s.Tokens, s.Scores = note(s.Tokens), append([]float64{}, s.Scores...)
		for i := 0; i < c.Many; i++ {
			if !seen[tok(i)] {
				s.Tokens, s.Scores = append(s.Tokens, tok(i)), append(s.Scores, -float64(i)/7)
			}
		}
		m.Uni = &s
	}
	for i := 0; i < c.Many && i < 3; i++ {
		c.Words = append(append([]Str{}, c.Words...), tok(i*c.Many/3))
	}
	return c
}

// files gives the names of the files of a model.
func (c saveCase) files() []string {
	name := ""
	if c.Name != nil {
		name = string(*c.Name) + "-"
	}
	switch {
	case c.Model.Bpe != nil:
		return []string{name + "vocab.json", name + "merges.txt"}
	case c.Model.Uni != nil:
		if c.Name == nil {
			name = "tokenizer-"
		}
		return []string{name + "vocab.json"}
	}
	return []string{name + "vocab.txt"}
}

func (c saveCase) save(m tokenizer.Model, dir string) error {
	if c.Name != nil {
		return m.Save(dir, string(*c.Name))
	}
	return m.Save(dir)
}

// checkFiles reads the files as their format says.
func (c saveCase) checkFiles(v map[string]int, dir string) error {
	var data []string
	for _, f := range c.files() {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return fmt.Errorf("saved file: %v", err)
		}
		data = append(data, string(b))
	}
	switch {
	case c.Model.Bpe != nil:
		got := map[string]int{}
		if err := json.Unmarshal([]byte(data[0]), &got); err != nil {
			return fmt.Errorf("saved vocabulary: %v", err)
		}
		if !reflect.DeepEqual(got, v) {
			return fmt.Errorf("saved vocabulary %v, want %v", got, v)
		}
		var lines []string
		for _, l := range strings.Split(data[1], "\n") {
			if l != "" && !strings.HasPrefix(l, "#version") {
				lines = append(lines, l)
			}
		}
		var want []string
		for _, m := range c.Model.Bpe.Merges {
			want = append(want, string(m[0])+" "+string(m[1]))
		}
		if !sameStrings(lines, want) {
			return fmt.Errorf("saved merges %q, want %q", lines, want)
		}
	case c.Model.Uni != nil:
		var got struct {
			Type          string
			Vocab         [][2]any
			Unk_id        *int
			Byte_fallback bool
		}
		if err := json.Unmarshal([]byte(data[0]), &got); err != nil {
			return fmt.Errorf("saved model: %v", err)
		}
		s := c.Model.Uni
		if got.Type != "Unigram" || len(got.Vocab) != len(s.Tokens) || got.Byte_fallback != s.Bytes {
			return fmt.Errorf("saved model %v", got)
		}
		for i := range s.Tokens {
			if got.Vocab[i] != [2]any{string(s.Tokens[i]), s.Scores[i]} {
				return fmt.Errorf("saved piece %d is %v, want %q %v", i, got.Vocab[i], s.Tokens[i], s.Scores[i])
			}
		}
		if (got.Unk_id != nil) != (s.Unk >= 0) || got.Unk_id != nil && *got.Unk_id != s.Unk {
			return fmt.Errorf("saved unknown id %v, want %d", got.Unk_id, s.Unk)
		}
	default:
		toks := make([]string, 0, len(v))
		for t := range v {
			toks = append(toks, t)
		}
		sort.Slice(toks, func(i, j int) bool { return v[toks[i]] < v[toks[j]] })
		want := ""
		for _, t := range toks {
			want += t + "\n"
		}
		if data[0] != want {
			return fmt.Errorf("saved vocabulary %q, want %q", data[0], want)
		}
	}
	return nil
}

func (c saveCase) load(dir string) (tokenizer.Model, error) {
	f := c.files()
	for i := range f {
		f[i] = filepath.Join(dir, f[i])
	}
	switch {
	case c.Model.Bpe != nil:
		s := c.Model.Bpe
		if s.Prefix == nil && s.Suffix == nil && s.Unk == nil {
			return bpe.NewBpeFromFiles(f[0], f[1])
		}
		b := bpe.NewBpeBuilder()
		if len(s.Tokens)%2 == 1 {
			b = new(bpe.BPE).FromFiles(f[0], f[1]) // (another way to say the same)
		} else {
			b.Files(f[0], f[1])
		}
		if s.Prefix != nil {
			b.ContinuingSubwordPrefix(string(*s.Prefix))
		}
		if s.Suffix != nil {
			b.EndOfWordSuffix(string(*s.Suffix))
		}
		if s.Unk != nil {
			b.UnkToken(string(*s.Unk))
		}
		return b.Build()
	case c.Model.Wp != nil:
		s := c.Model.Wp
		if s.Prefix == "##" {
			return wordpiece.NewWordPieceFromFile(f[0], string(s.Unk), s.Max)
		}
		if len(s.Tokens)%2 == 1 {
			return wordpiece.NewWordPieceBuilderFromFile(f[0]).UnkToken(string(s.Unk)).ContinuingSubwordPrefix(string(s.Prefix)).MaxInputCharsPerWord(s.Max).Build(), nil
		}
		return wordpiece.NewWordPieceBuilder().Files(f[0]).UnkToken(string(s.Unk)).ContinuingSubwordPrefix(string(s.Prefix)).MaxInputCharsPerWord(s.Max).Build(), nil
	case c.Model.Wl != nil:
		return wordlevel.NewWorldLevelFromFile(f[0], string(c.Model.Wl.Unk))
	}
	b, err := os.ReadFile(f[0])
	if err != nil {
		return nil, err
	}
	tk, err := pretrained.FromReader(strings.NewReader(`{"model": ` + string(b) + `}`))
	if err != nil {
		return nil, err
	}
	return tk.GetModel(), nil
}

// sameModel compares two models by what they do.
func sameModel(a, b tokenizer.Model, words []Str) error {
	va, vb := a.GetVocab(), b.GetVocab()
	if !reflect.DeepEqual(map[string]int(va), map[string]int(vb)) {
		return fmt.Errorf("the vocabulary was %v, is %v", va, vb)
	}
	if a.GetVocabSize() != b.GetVocabSize() {
		return fmt.Errorf("the size was %d, is %d", a.GetVocabSize(), b.GetVocabSize())
	}
	for tok, id := range va {
		ia, oka := a.TokenToId(tok)
		ib, okb := b.TokenToId(tok)
		ta, oka2 := a.IdToToken(id)
		tb, okb2 := b.IdToToken(id)
		if ia != ib || oka != okb || ta != tb || oka2 != okb2 {
			return fmt.Errorf("token %q was (%d %v, %q %v), is (%d %v, %q %v)", tok, ia, oka, ta, oka2, ib, okb, tb, okb2)
		}
	}
	for _, w := range words {
		x, erra := a.Tokenize(string(w))
		y, errb := b.Tokenize(string(w))
		if (erra == nil) != (errb == nil) {
			return fmt.Errorf("tokenizing %q: %v before, %v after", w, erra, errb)
		}
		if erra == nil && !(len(x) == 0 && len(y) == 0) && !reflect.DeepEqual(x, y) {
			return fmt.Errorf("%q was %v, is %v", w, x, y)
		}
	}
	return nil
}

func runSave(x *Ctx, c saveCase) error {
	if c.Many > 0 {
		c = c.grown()
	}
	m, err := buildModel(c.Model)
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	v := map[string]int{}
	for t, id := range m.GetVocab() {
		v[t] = id
	}
	top, err := os.MkdirTemp("", "save")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, c.Dir)
	if c.Exists || c.Old > 0 || c.Fault > 1 {
		os.MkdirAll(dir, 0o755)
	}
	files := c.files()
	for _, f := range files {
		if c.Old > 0 {
			os.WriteFile(filepath.Join(dir, f), []byte(strings.Repeat("x y\n", c.Old)), 0o644)
		}
	}
	x.Label(map[bool]string{true: "named", false: "default name"}[c.Name != nil], true)
	x.Label("over older files", c.Old > 0)
	if c.Fault > 0 {
		fails := true
		switch {
		case c.Fault == 1:
			os.RemoveAll(dir)
			os.MkdirAll(filepath.Dir(dir), 0o755)
			if dir == top {
				return nil
			}
			os.WriteFile(dir, []byte("a file"), 0o644)
		case c.Fault < 4:
			f := files[(c.Fault-2)%len(files)]
			os.Remove(filepath.Join(dir, f))
			if err := os.Symlink("/dev/full", filepath.Join(dir, f)); err != nil {
				panic(err)
			}
			switch {
			case strings.HasSuffix(f, "merges.txt"):
				fails = len(c.Model.Bpe.Merges) > 0
			case strings.HasSuffix(f, ".txt"):
				fails = len(v) > 0
			}
		default:
			f := files[(c.Fault-4)%len(files)]
			os.Remove(filepath.Join(dir, f))
			os.MkdirAll(filepath.Join(dir, f), 0o755)
		}
		err := c.save(m, dir)
		x.NonTrivial(fails)
		x.Label("fault", true)
		if fails && err == nil {
			return fmt.Errorf("saving to what cannot be written (%d) is no error", c.Fault)
		}
		if !fails && err != nil {
			return fmt.Errorf("saving: %v", err)
		}
		// as good as before
		dir = filepath.Join(top, "elsewhere")
	}
	if c.Cut > 0 {
		ref := filepath.Join(top, "whole")
		if err := c.save(m, ref); err != nil {
			return fmt.Errorf("saving: %v", err)
		}
		longest := 0
		for _, f := range files {
			st, err := os.Stat(filepath.Join(ref, f))
			if err != nil {
				return fmt.Errorf("saved file: %v", err)
			}
			longest = max(longest, int(st.Size()))
		}
		if limit := longest * c.Cut / 1000; limit > 0 && limit < longest {
			var err error
			withFileLimit(limit, func() { err = Guard(func() error { return c.save(m, dir) }) })
			if IsPanic(err) {
				return err
			}
			x.Label("cut", true)
			if err == nil {
				return fmt.Errorf("saving is no error when only %d bytes of a file of %d can be written", limit, longest)
			}
		}
	}
	n := 1
	if c.Conc {
		n = 2
	}
	for i := 0; i < n; i++ {
		if err := c.save(m, dir); err != nil {
			return fmt.Errorf("saving: %v", err)
		}
	}
	if err := c.checkFiles(v, dir); err != nil {
		return err
	}
	l, err := c.load(dir)
	if err != nil {
		return fmt.Errorf("loading: %v", err)
	}
	x.NonTrivial(len(v) > 1 && len(c.Words) > 0)
	if err := sameModel(m, l, c.Words); err != nil {
		return fmt.Errorf("once loaded: %v", err)
	}
	fresh, err := buildModel(c.Model)
	if err != nil {
		return err
	}
	if err := sameModel(fresh, m, c.Words); err != nil {
		return fmt.Errorf("once saved: %v", err)
	}
	// a second generation
	dir2 := filepath.Join(top, "again")
	if err := c.save(l, dir2); err != nil {
		return fmt.Errorf("saving again: %v", err)
	}
	for _, f := range c.files() {
		a, _ := os.ReadFile(filepath.Join(dir, f))
		b, err := os.ReadFile(filepath.Join(dir2, f))
		if err != nil || string(a) != string(b) {
			return fmt.Errorf("file %s saved again is %q, want %q (%v)", f, b, a, err)
		}
	}
	return nil
}

func genSave(t *rapid.T) saveCase {
	c := saveCase{Dir: pick(t, "dir", []string{"", "a", "a/b/c", "é è", "a/../b"}), Exists: rapid.Bool().Draw(t, "exists"), Conc: weighted(t, "twice", 3, 1) == 1}
	if rapid.Bool().Draw(t, "named") {
		n := Str(pick(t, "name", []string{"m", "a.b", "naïve", "", "x y"}))
		c.Name = &n
	}
	if weighted(t, "old", 2, 1) == 1 {
		c.Old = rapid.SampledFrom([]int{1, 10, 1000}).Draw(t, "oldsize")
	}
	switch weighted(t, "fault", 6, 1, 1, 1) {
	case 1:
		c.Fault = 1
	case 2:
		c.Fault = 2 + rapid.IntRange(0, 1).Draw(t, "file")
	case 3:
		c.Fault = 4 + rapid.IntRange(0, 1).Draw(t, "file")
	}
	c.Many = upTo(t, "many", 0, 3000)
	c.Cut = weighted(t, "cut?", 7, 1) * rapid.IntRange(1, 999).Draw(t, "cut")
	switch pick(t, "kind", allModels) {
	case "bpe":
		s := genBpeSpec(t)
		s.Drop = 0
		c.Model.Bpe = &s
		for k := rapid.IntRange(0, 5).Draw(t, "words"); k > 0; k-- {
			c.Words = append(c.Words, genBpeWord(t, s))
		}
	case "wp":
		w := genWpCase(t)
		w.S.Base, w.S.Step = 0, 1
		if w.S.NoUnk { // not to leave a gap
			w.S.Unk = "[none]"
		}
		if w.S.How == 2 { // its defaults
			w.S.How = 0
		}
		if w.S.How == 3 && w.S.Prefix != "##" {
			w.S.How = 0
		}
		c.Model.Wp, c.Words = &w.S, w.Words
	case "wl":
		w := genWlCase(t)
		w.S.Base, w.S.Step = 0, 1
		if w.S.Unk == "" { // the default one
			w.S.Unk = "<unk>"
		}
		c.Model.Wl, c.Words = &w.S, w.Words
	case "uni":
		u := genUniCase(t)
		for i := range u.S.Scores {
			if weighted(t, "odd score", 6, 1) == 1 {
				u.S.Scores[i] = rapid.Float64Range(-1000, 5).Draw(t, "score")
			}
		}
		c.Model.Uni, c.Words = &u.S, u.Words
	}
	// what a text file cannot hold
	fix := func(ts []Str, odd bool) {
		for i, s := range ts {
			s := strings.TrimRight(strings.ReplaceAll(string(s), "\n", "n"), "\r")
			if odd && weighted(t, "odd", 12, 1) == 1 {
				s += pick(t, "oddity", []string{" b", "\tx", "\r\v", "#version", "\xff", "<&>", " ", "\u2028"})
			}
			ts[i] = Str(s)
		}
	}
	if c.Model.Wp != nil {
		fix(c.Model.Wp.Tokens, true)
	}
	if c.Model.Wl != nil {
		fix(c.Model.Wl.Tokens, true)
	}
	return c
}

// brokenSave is a saved model one file of which is damaged.
type brokenSave struct {
	S    saveCase
	File int
	How  int
	At   int // where, in thousands
}

var brokenNames = []string{"missing", "directory", "cut", "other json", "merge of one", "merge of three", "merge without token"}

// damage damages a file; it says whether there is something to damage.
func (c brokenSave) damage(dir string) (string, bool) {
	files := c.S.files()
	f := filepath.Join(dir, files[c.File%len(files)])
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	isJson, isMerges := strings.HasSuffix(f, ".json"), strings.HasSuffix(f, "merges.txt")
	name := brokenNames[c.How]
	switch name {
	case "missing":
		os.Remove(f)
		return name, true
	case "directory":
		os.Remove(f)
		os.Mkdir(f, 0o755)
		return name, true
	case "cut":
		if !isJson { // a shorter list of tokens is one, too
			return name, false
		}
		b = []byte(strings.TrimSpace(string(b)))
		b = b[:len(b)*c.At/1000]
	case "other json":
		if !isJson {
			return name, false
		}
		b = []byte([]string{"[1]", "{\"a\": \"b\"}", "\"x\"", "{\"a\": 1.5}", "{\"a\": [1]}", "7", "{\"a\": {}}"}[c.At%7])
	default:
		if !isMerges {
			return name, false
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		k := len(lines) * c.At / 1000
		if len(lines) > 0 && strings.HasPrefix(lines[0], "#version") {
			k = max(k, 1)
		}
		var with string
		toks := c.S.Model.Bpe.Tokens
		tok := string(toks[c.At%len(toks)])
		if strings.ContainsAny(tok, " \n\r") || strings.HasPrefix(tok, "#version") || tok == "" {
			return name, false
		}
		switch name {
		case "merge of one":
			with = tok
		case "merge of three":
			with = tok + " " + tok + " " + tok
		default:
			with = tok + " " + tok
			if c.S.Model.Bpe.id(c.S.Model.Bpe.mergedTok([2]Str{Str(tok), Str(tok)})) >= 0 {
				return name, false
			}
		}
		rest := append([]string{}, lines[min(k, len(lines)):]...)
		lines = append(append(lines[:min(k, len(lines))], with), rest...)
		b = []byte(strings.Join(lines, "\n") + "\n")
	}
	if err := os.WriteFile(f, b, 0o644); err != nil {
		panic(err)
	}
	return name, true
}

func runBrokenSave(x *Ctx, c brokenSave) error {
	m, err := buildModel(c.S.Model)
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	dir, err := os.MkdirTemp("", "save")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := c.S.save(m, dir); err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	name, ok := c.damage(dir)
	if !ok {
		return nil
	}
	x.NonTrivial(true)
	x.Label(name, true)
	var l tokenizer.Model
	if err := Guard(func() (err error) {
		l, err = c.S.load(dir)
		return err
	}); err == nil {
		return fmt.Errorf("a file of the model is damaged (%s), but it is loaded as %v", name, l.GetVocab())
	} else if IsPanic(err) {
		return err
	}
	// saved again, all is well
	os.RemoveAll(dir)
	if err := c.S.save(m, dir); err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	if l, err = c.S.load(dir); err != nil {
		return fmt.Errorf("loading: %v", err)
	}
	return sameModel(m, l, c.S.Words)
}

func genBrokenSave(t *rapid.T) brokenSave {
	s := genSave(t)
	s.Fault, s.Cut, s.Old, s.Many = 0, 0, 0, 0
	if s.Model.Wp != nil {
		s.Model.Wp.Prefix = "##" // the other ways to load have no error to give
		s.Model.Wp.How = 0
	}
	return brokenSave{S: s, File: rapid.IntRange(0, 1).Draw(t, "file"), How: weighted(t, "how", 1, 1, 3, 2, 2, 2, 2), At: rapid.IntRange(0, 999).Draw(t, "at")}
}

func init() {
	Prop("C23", "a case counts when a vocabulary of two tokens or more is saved and loaded again and words are tokenized, or when writing fails",
		"ids of WordPiece and WordLevel vocabularies are contiguous from 0 and their tokens hold no end of line, tokens of BPE merges hold no space: the formats have no place for others")
	Reg("C23", "save", 40000, 2000000, genSave, runSave)
	Reg("C23", "damaged", 15000, 500000, genBrokenSave, runBrokenSave)
	Reg("C23", "long", 1500, 50000, Large(genSave), runSave)
}
