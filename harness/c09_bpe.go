package main

// C09 BPE against the textbook algorithm, C10 cache / dropout / concurrency,
// C22 BPE training.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"pgregory.net/rapid"
)

type bpeSpec struct {
	Tokens []Str // in id order, through IdBase and IdStep
	IdBase int
	Merges [][2]Str
	Unk    *Str // the unk token; it may be missing from Tokens
	Prefix *Str
	Suffix *Str
	Drop   float32
	Cache  int // -1: default
	How    int // 0 builder, 1 New, 2 files, 3 NewBPE
}

var bpeChars = []string{"a", "b", "c", "é", "漢", "😀", "Ġ", "-", "1"}

func (s bpeSpec) id(tok Str) int {
	for i, t := range s.Tokens {
		if t == tok {
			return s.IdBase + i
		}
	}
	return -1
}
func (s bpeSpec) vocab() map[string]int {
	v := map[string]int{}
	for i, t := range s.Tokens {
		v[string(t)] = s.IdBase + i
	}
	return v
}
func (s bpeSpec) mergedTok(m [2]Str) Str {
	b := string(m[1])
	if s.Prefix != nil {
		b = strings.TrimPrefix(b, string(*s.Prefix))
	}
	return Str(string(m[0]) + b)
}

func strp(s *Str) *string {
	if s == nil {
		return nil
	}
	v := string(*s)
	return &v
}

func (s bpeSpec) build() (*bpe.BPE, error) {
	how := s.How
	if how == 3 && (s.Unk != nil || s.Prefix != nil || s.Suffix != nil || s.Drop > 0 || s.Cache >= 0) {
		how = 0
	}
	if how == 1 && s.Cache >= 0 {
		how = 0
	}
	var lines []string
	merges := bpe.Merges{}
	ids := s.vocab()
	id := func(t Str) int {
		if i, ok := ids[string(t)]; ok {
			return i
		}
		return -1
	}
	for i, m := range s.Merges {
		lines = append(lines, string(m[0])+" "+string(m[1]))
		merges[bpe.Pair{C1: id(m[0]), C2: id(m[1])}] = bpe.PairVal{Rank: i, NewId: id(s.mergedTok(m))}
	}
	switch how {
	case 1:
		var d *float32
		if s.Drop > 0 {
			d = &s.Drop
		}
		return bpe.New(s.vocab(), lines, d, strp(s.Unk), strp(s.Prefix), strp(s.Suffix))
	case 3:
		return bpe.NewBPE(s.vocab(), merges), nil
	}
	b := bpe.NewBpeBuilder()
	if how == 2 {
		dir, err := os.MkdirTemp("", "bpe")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		vb, _ := json.Marshal(s.vocab())
		os.WriteFile(filepath.Join(dir, "vocab.json"), vb, 0o644)
		os.WriteFile(filepath.Join(dir, "merges.txt"), []byte("#version: 0.2\n"+strings.Join(append(lines, ""), "\n")), 0o644)
		b.Files(filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt"))
	} else {
		b.VocabAndMerges(s.vocab(), merges)
	}
	if s.Unk != nil {
		b.UnkToken(string(*s.Unk))
	}
	if s.Prefix != nil {
		b.ContinuingSubwordPrefix(string(*s.Prefix))
	}
	if s.Suffix != nil {
		b.EndOfWordSuffix(string(*s.Suffix))
	}
	if s.Drop > 0 {
		b.Dropout(s.Drop)
	}
	if s.Cache >= 0 {
		b.CacheCapacity(s.Cache)
	}
	return b.Build()
}

type bsym struct {
	tok  string
	a, b int
}

// chars splits a word in its initial symbols; ok is false when a char has no token.
func (s bpeSpec) chars(w string) (syms []bsym, ok bool) {
	for i := 0; i < len(w); {
		_, n := utf8.DecodeRuneInString(w[i:])
		r, _ := utf8.DecodeRuneInString(w[i:])
		t := string(r)
		if s.Prefix != nil && i > 0 {
			t = string(*s.Prefix) + t
		}
		if s.Suffix != nil && i+n == len(w) {
			t += string(*s.Suffix)
		}
		if s.id(Str(t)) < 0 {
			if s.Unk == nil || s.id(*s.Unk) < 0 {
				return nil, false
			}
			t = string(*s.Unk)
		}
		syms = append(syms, bsym{t, i, i + n})
		i += n
	}
	return syms, true
}

// mergeLoop is the textbook algorithm: the leftmost pair of lowest rank, again and again.
func (s bpeSpec) mergeLoop(syms []bsym) []bsym {
	rank := map[[2]string]int{}
	for i, m := range s.Merges {
		rank[[2]string{string(m[0]), string(m[1])}] = i
	}
	for {
		best, at := len(s.Merges), -1
		for i := 0; i+1 < len(syms); i++ {
			if r, ok := rank[[2]string{syms[i].tok, syms[i+1].tok}]; ok && r < best {
				best, at = r, i
			}
		}
		if at < 0 {
			return syms
		}
		out := append([]bsym{}, syms[:at]...)
		out = append(out, bsym{string(s.mergedTok(s.Merges[best])), syms[at].a, syms[at+1].b})
		syms = append(out, syms[at+2:]...)
	}
}

// derivable: some order of merges turns the symbols into one token.
func (s bpeSpec) derivable(syms []bsym, tok string) bool {
	n := len(syms)
	if n == 0 {
		return false
	}
	type key struct{ i, j int }
	memo := map[key]map[string]bool{}
	for l := 1; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			set := map[string]bool{}
			if l == 1 {
				set[syms[i].tok] = true
			}
			for k := 1; k < l; k++ {
				for _, m := range s.Merges {
					if memo[key{i, i + k}][string(m[0])] && memo[key{i + k, i + l}][string(m[1])] {
						set[string(s.mergedTok(m))] = true
					}
				}
			}
			memo[key{i, i + l}] = set
		}
	}
	return memo[key{0, n}][tok]
}

func checkBpeWord(s bpeSpec, m *bpe.BPE, w string, reps int) error {
	for k := 0; k < reps; k++ {
		toks, err := m.Tokenize(w)
		chars, ok := s.chars(w)
		if !ok {
			if err == nil {
				return fmt.Errorf("%q has a char without token and there is no unk, but gives %v", w, toks)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%q: %v", w, err)
		}
		if err := checkBpeTokens(s, w, chars, toks); err != nil {
			return err
		}
		if s.Drop == 0 && len(w) > 0 && k == 0 {
			if err := checkBpeTokens(s, w, chars, m.TokenizeWithCache(w)); err != nil {
				return fmt.Errorf("with the cache: %w", err)
			}
		}
		if len(w) > 0 && k == 1 {
			if err := checkBpeTokens(s, w, chars, m.WordToTokens(*m.MergeWord(w))); err != nil {
				return fmt.Errorf("merged: %w", err)
			}
		}
	}
	return nil
}

func checkBpeTokens(s bpeSpec, w string, chars []bsym, toks []tokenizer.Token) error {
	for i, t := range toks {
		if s.id(Str(t.Value)) != t.Id {
			return fmt.Errorf("%q: token %d is %q with id %d, want id %d", w, i, t.Value, t.Id, s.id(Str(t.Value)))
		}
		if len(t.Offsets) != 2 {
			return fmt.Errorf("%q: token %d has offsets %v", w, i, t.Offsets)
		}
	}
	if s.Drop > 0 && s.Drop < 1 {
		at, k := 0, 0
		for i, t := range toks {
			if t.Offsets[0] != at {
				return fmt.Errorf("%q: token %d %q starts at %d, want %d", w, i, t.Value, t.Offsets[0], at)
			}
			at = t.Offsets[1]
			from := k
			for k < len(chars) && chars[k].b <= at {
				k++
			}
			if !s.derivable(chars[from:k], t.Value) {
				return fmt.Errorf("%q: no merges give token %d %q from %v", w, i, t.Value, chars[from:k])
			}
		}
		if at != len(w) {
			return fmt.Errorf("%q: tokens %v end at %d", w, toks, at)
		}
		return nil
	}
	want := chars
	if s.Drop < 1 {
		want = s.mergeLoop(chars)
	}
	if len(want) != len(toks) {
		return fmt.Errorf("%q gives %v, want %v", w, toks, want)
	}
	for i, x := range want {
		if toks[i].Value != x.tok || toks[i].Offsets[0] != x.a || toks[i].Offsets[1] != x.b {
			return fmt.Errorf("%q gives %v, want %v", w, toks, want)
		}
	}
	return nil
}

type bpeCase struct {
	S     bpeSpec
	Words []Str
}

func genBpeSpec(t *rapid.T) bpeSpec {
	var s bpeSpec
	n := rapid.IntRange(1, 4).Draw(t, "alphabet")
	start := rapid.IntRange(0, len(bpeChars)-n).Draw(t, "from")
	alpha := bpeChars[start : start+n]
	if weighted(t, "prefix?", 3, 1) == 1 {
		p := Str(pick(t, "prefix", []string{"##", "@", "漢"}))
		s.Prefix = &p
	}
	if weighted(t, "suffix?", 3, 1) == 1 {
		p := Str(pick(t, "suffix", []string{"</w>", "$", "a"}))
		s.Suffix = &p
	}
	add := func(x Str) {
		if s.id(x) < 0 {
			s.Tokens = append(s.Tokens, x)
		}
	}
	if weighted(t, "unk", 1, 2) == 1 {
		u := Str("<unk>")
		s.Unk = &u
		if weighted(t, "unk missing", 9, 1) == 0 {
			add(u)
		}
	}
	s.IdBase = idBases[weighted(t, "idbase", 24, 6, 2, 2, 1, 1)]
	for _, c := range alpha {
		forms := []string{c}
		if s.Prefix != nil {
			forms = append(forms, string(*s.Prefix)+c)
		}
		if s.Suffix != nil {
			for _, f := range append([]string{}, forms...) {
				forms = append(forms, f+string(*s.Suffix))
			}
		}
		for _, f := range forms {
			if weighted(t, "form", 1, 12) == 1 {
				add(Str(f))
			}
		}
	}
	if len(s.Tokens) == 0 {
		add("z")
	}
	nm := rapid.IntRange(0, 12).Draw(t, "merges")
	seen := map[[2]Str]bool{}
	for i := 0; i < nm; i++ {
		x := s.Tokens[rapid.IntRange(0, len(s.Tokens)-1).Draw(t, "x")]
		y := s.Tokens[rapid.IntRange(0, len(s.Tokens)-1).Draw(t, "y")]
		m := [2]Str{x, y}
		if seen[m] || len(x)+len(y) > 40 || s.Unk != nil && (x == *s.Unk || y == *s.Unk) && weighted(t, "unkmerge", 5, 1) == 0 {
			continue
		}
		seen[m] = true
		s.Merges = append(s.Merges, m)
		add(s.mergedTok(m))
	}
	switch weighted(t, "dropout", 8, 1, 2) {
	case 1:
		s.Drop = 1
	case 2:
		s.Drop = float32(rapid.SampledFrom([]float64{0.1, 0.3, 0.5, 0.8, 0.95}).Draw(t, "p"))
	}
	s.Cache = rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 5}).Draw(t, "cache")
	s.How = weighted(t, "how", 6, 3, 1, 2)
	return s
}

func genBpeWord(t *rapid.T, s bpeSpec) Str {
	var sb strings.Builder
	n := weighted(t, "wlen", 1, 3, 3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1)
	if n == 12 {
		n = rapid.IntRange(12, 40).Draw(t, "long")
	}
	limit := 200
	if big {
		n, limit = 12+upTo(t, "pieces", 20, 150), 900
	}
	for sb.Len() < limit && n > 0 {
		n--
		switch weighted(t, "piece", 10, 5, 1) {
		case 0:
			// runs of one char are where the order of equal merges shows
			c := rapid.SampledFrom(s.Tokens).Draw(t, "tok")
			r, _ := utf8.DecodeRuneInString(strings.TrimPrefix(string(c), "##"))
			sb.WriteString(strings.Repeat(string(r), rapid.IntRange(1, 3).Draw(t, "rep")))
		case 1:
			c := string(rapid.SampledFrom(s.Tokens).Draw(t, "tok"))
			if c == "<unk>" {
				c = "x"
			}
			sb.WriteString(strings.TrimPrefix(strings.TrimSuffix(c, "</w>"), "##"))
		default:
			sb.WriteString(pick(t, "odd", []string{"x", "é", "\xff", "a", " ", "�"}))
		}
	}
	return Str(sb.String())
}

func runBpe(x *Ctx, c bpeCase) error {
	m, err := c.S.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	for i, w := range c.Words {
		if i%4 == 3 && len(c.Words)%3 == 0 {
			m.ClearCache()
			if m.Cache != nil && m.Cache.GetSize() != 0 {
				return fmt.Errorf("%d words in a cache which is cleared", m.Cache.GetSize())
			}
		}
		chars, ok := c.S.chars(string(w))
		if ok {
			x.NonTrivial(len(c.S.mergeLoop(chars)) < len(chars))
		}
		x.Label("no token for a char", !ok)
		if err := checkBpeWord(c.S, m, string(w), 2); err != nil {
			return err
		}
	}
	if m.Cache != nil && c.S.Cache >= 0 && m.Cache.GetSize() > c.S.Cache {
		return fmt.Errorf("%d words in a cache of %d", m.Cache.GetSize(), c.S.Cache)
	}
	x.Label("dropout", c.S.Drop > 0)
	x.Label("affixes", c.S.Prefix != nil || c.S.Suffix != nil)
	return checkVocab(c.S.vocab(), m)
}

// checkVocab: token<->id lookups of a model agree with the vocabulary it was given.
func checkVocab(v map[string]int, m tokenizer.Model) error {
	if m.GetVocabSize() != len(v) {
		return fmt.Errorf("vocabulary size %d, want %d", m.GetVocabSize(), len(v))
	}
	got := m.GetVocab()
	if len(got) != len(v) {
		return fmt.Errorf("vocabulary of %d tokens, want %d", len(got), len(v))
	}
	for t, id := range v {
		if g, ok := got[t]; !ok || g != id {
			return fmt.Errorf("vocabulary has %q as %d, %v, want %d", t, g, ok, id)
		}
		if g, ok := m.TokenToId(t); !ok || g != id {
			return fmt.Errorf("TokenToId(%q) = %d, %v, want %d", t, g, ok, id)
		}
		if g, ok := m.IdToToken(id); !ok || v[g] != id {
			return fmt.Errorf("IdToToken(%d) = %q, %v, want %q", id, g, ok, t)
		}
	}
	for _, t := range []string{"", "no such token", "\xff"} {
		if _, ok := v[t]; !ok {
			if id, ok := m.TokenToId(t); ok {
				return fmt.Errorf("TokenToId(%q) = %d, but it is not in the vocabulary", t, id)
			}
		}
	}
	ids := map[int]bool{}
	for _, id := range v {
		ids[id] = true
	}
	for _, id := range []int{-1, len(v), 1 << 40} {
		if !ids[id] {
			if t, ok := m.IdToToken(id); ok {
				return fmt.Errorf("IdToToken(%d) = %q, but there is no such id", id, t)
			}
		}
	}
	return nil
}

func runBpeConcurrent(x *Ctx, c bpeCase) error {
	m, err := c.S.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	x.NonTrivial(len(c.Words) > 3)
	var wg sync.WaitGroup
	errs := make([]error, 6)
	for g := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[g] = Guard(func() error {
				for k := range c.Words {
					if g == 5 && k%3 == 2 {
						m.ClearCache()
						continue
					}
					if err := checkBpeWord(c.S, m, string(c.Words[(k*(g+1)+g)%len(c.Words)]), 1); err != nil {
						return err
					}
				}
				return nil
			})
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

type cacheOp struct {
	Op   int
	Keys []string
}
type cacheCase struct {
	Cap int
	Ops []cacheOp
}

func wordFor(key string, ver int) bpe.Word {
	w := bpe.NewWord()
	for i, r := range key {
		w.Add(int(r)+ver*1000, i+1)
	}
	w.Add(ver, 1)
	return *w
}

// runCacheOps: a cache may forget or refuse, but never gives a value which was not set
// for that key, and never holds more than its capacity.
func runCacheOps(x *Ctx, c cacheCase) error {
	cache := bpe.NewCache(c.Cap)
	set := map[string]map[int]bool{}
	valid := func(key string, w bpe.Word) bool {
		for ver := range set[key] {
			if fmt.Sprint(w) == fmt.Sprint(wordFor(key, ver)) {
				return true
			}
		}
		return false
	}
	for i, op := range c.Ops {
		switch op.Op {
		case 0:
			var items []bpe.CacheItem
			room := c.Cap - cache.GetSize()
			for _, k := range op.Keys {
				items = append(items, bpe.CacheItem{Key: k, Value: wordFor(k, i)})
				if set[k] == nil {
					set[k] = map[int]bool{}
				}
				set[k][i] = true
			}
			cache.SetValues(items)
			if len(op.Keys) > 0 && room > 0 {
				if _, ok := cache.Get(op.Keys[0]); !ok {
					return fmt.Errorf("op %d: there was room for %q but it is not in the cache", i, op.Keys[0])
				}
				x.NonTrivial(true)
			}
		case 1:
			for _, k := range op.Keys {
				if w, ok := cache.Get(k); ok && !valid(k, w) {
					return fmt.Errorf("op %d: %q gives %v, which was never set for it", i, k, w)
				}
			}
		case 2:
			ws := cache.GetValues(op.Keys)
			if len(ws) != len(op.Keys) {
				return fmt.Errorf("op %d: %d values for %d keys", i, len(ws), len(op.Keys))
			}
			for j, k := range op.Keys {
				w, ok := cache.Get(k)
				if ok && fmt.Sprint(w) != fmt.Sprint(ws[j]) {
					return fmt.Errorf("op %d: value %d for %q is %v, want %v", i, j, k, ws[j], w)
				}
				if !ok && len(ws[j].Symbols) > 0 {
					return fmt.Errorf("op %d: value %v for the missing %q", i, ws[j], k)
				}
			}
		default:
			cache.Clear()
			set = map[string]map[int]bool{}
			if cache.GetSize() != 0 {
				return fmt.Errorf("op %d: cleared cache has %d words", i, cache.GetSize())
			}
		}
		if n := cache.GetSize(); n > c.Cap {
			return fmt.Errorf("op %d: %d words in a cache of %d", i, n, c.Cap)
		}
		if cache.IsFull() != (cache.GetSize() >= c.Cap) {
			return fmt.Errorf("op %d: IsFull %v with %d words of %d", i, cache.IsFull(), cache.GetSize(), c.Cap)
		}
	}
	return nil
}

// ------------------------------------------------------------- C22 training

type trainCase struct {
	Words          map[string]int
	Many           int // more words, made from a counter
	VocabSize      int
	MinFreq        int
	Specials       []string
	Limit          int // -1: none
	Initial        []string
	Prefix, Suffix *Str
}

func (c trainCase) counts() map[string]int {
	out := map[string]int{}
	for w, n := range c.Words {
		out[w] = n
	}
	for i := 0; i < c.Many; i++ {
		w := ""
		for k := i; ; k /= 5 {
			w += string("abcde"[k%5])
			if k < 5 {
				break
			}
		}
		w += strings.Repeat("f", i%3)
		out[w] += 1 + i%4
	}
	return out
}

func (c trainCase) trainer() *bpe.BpeTrainer {
	if c.Limit < 0 && len(c.Initial)+len(c.Specials) == 0 && c.Prefix == nil && c.Suffix == nil { // (another way to say the same)
		return bpe.NewBpeTrainer(c.MinFreq, c.VocabSize)
	}
	b := bpe.NewBPETrainerBuilder()
	b.VocabSize(c.VocabSize)
	b.MinFrequency(c.MinFreq)
	b.ShowProgress(false)
	var sp []tokenizer.AddedToken
	for _, s := range c.Specials {
		sp = append(sp, tokenizer.NewAddedToken(s, true))
	}
	b.SpecialTokens(sp)
	if c.Limit >= 0 {
		b.LimitAlphabet(c.Limit)
	}
	if len(c.Initial) > 0 {
		cs := bpe.CharSet{}
		for _, s := range c.Initial {
			cs[s] = struct{}{}
		}
		b.InitialAlphabet(cs)
	}
	if c.Prefix != nil {
		b.ContinuingSubwordPrefix(string(*c.Prefix))
	}
	if c.Suffix != nil {
		b.EndOfWordSuffix(string(*c.Suffix))
	}
	return b.Build()
}

type trainedMerge struct {
	a, b, tok string
	rank      int
}

func runTrain(x *Ctx, c trainCase) error {
	counts := c.counts()
	m0, specials := c.trainer().Train(counts)
	m := m0.(bpe.BPE)
	if len(specials) != len(c.Specials) {
		return fmt.Errorf("%d special tokens, want %d", len(specials), len(c.Specials))
	}
	vocab := map[string]int(*m.Vocab)
	byId := make([]string, len(vocab))
	for t, id := range vocab {
		if id < 0 || id >= len(vocab) || byId[id] != "" && byId[id] != t {
			return fmt.Errorf("ids of the vocabulary are not 0..%d: %q has %d", len(vocab)-1, t, id)
		}
		byId[id] = t
	}
	if err := checkVocab(vocab, m); err != nil {
		return err
	}
	var merges []trainedMerge
	for p, v := range *m.Merges {
		if p.C1 < 0 || p.C1 >= len(byId) || p.C2 < 0 || p.C2 >= len(byId) || v.NewId < 0 || v.NewId >= len(byId) {
			return fmt.Errorf("merge %v -> %v has an id outside the vocabulary", p, v)
		}
		merges = append(merges, trainedMerge{byId[p.C1], byId[p.C2], byId[v.NewId], v.Rank})
	}
	sort.Slice(merges, func(i, j int) bool { return merges[i].rank < merges[j].rank })
	gap := false
	for i := range merges {
		if i > 0 && merges[i].rank == merges[i-1].rank {
			return fmt.Errorf("merges %v and %v have the same rank", merges[i-1], merges[i])
		}
		gap = gap || merges[i].rank != i
	}
	x.NonTrivial(len(merges) > 1)
	// special tokens first, in order
	next := 0
	for _, s := range c.Specials {
		if id, ok := vocab[s]; !ok || id > next {
			return fmt.Errorf("special token %q has id %d, %v, want %d", s, id, ok, next)
		} else if id == next {
			next++
		}
	}
	// alphabet
	freq := map[string]int{}
	for w, n := range counts {
		for _, r := range w {
			freq[string(r)] += n
		}
	}
	for _, s := range c.Initial {
		freq[s] = 1 << 40
	}
	base := map[string]bool{}
	for _, s := range c.Specials {
		base[s] = true
	}
	special := map[string]bool{}
	for _, s := range c.Specials {
		special[s] = true
	}
	kept := 0
	for ch := range freq {
		if _, ok := vocab[ch]; ok && !isMerged(merges, ch) {
			if !special[ch] {
				kept++
			}
			base[ch] = true
		} else if special[ch] {
			base[ch] = true
		}
	}
	want := len(freq)
	if c.Limit >= 0 && c.Limit < want {
		want = c.Limit
		// the chars left out are not more frequent than those kept (specials are kept anyway)
		minKept, maxOut := 1<<60, 0
		for ch, n := range freq {
			if special[ch] {
				continue
			}
			if _, ok := vocab[ch]; ok {
				minKept = min(minKept, n)
			} else {
				maxOut = max(maxOut, n)
			}
		}
		if maxOut > minKept && c.Suffix == nil && c.Prefix == nil {
			return fmt.Errorf("limited alphabet: a char seen %d times is left out, one seen %d times is kept", maxOut, minKept)
		}
		x.Label("limited alphabet", true)
	} else {
		for ch := range freq {
			if _, ok := vocab[ch]; !ok {
				return fmt.Errorf("char %q of the words is not in the vocabulary", ch)
			}
		}
	}
	nspec := 0
	for ch := range freq {
		if special[ch] {
			nspec++
		}
	}
	if kept > want || kept < want-nspec {
		return fmt.Errorf("%d chars in the vocabulary, want %d", kept, want)
	}
	// the words as symbols
	type tw struct {
		syms []string
		n    int
		all  bool
		w    string
	}
	var words []tw
	keys := make([]string, 0, len(counts))
	for w := range counts {
		keys = append(keys, w)
	}
	sort.Strings(keys)
	for _, w := range keys {
		rs := []rune(w)
		k := tw{n: counts[w], all: true, w: w}
		for i, r := range rs {
			if !base[string(r)] {
				k.all = false
				continue
			}
			s := string(r)
			if c.Prefix != nil && i > 0 {
				s = string(*c.Prefix) + s
			}
			if c.Suffix != nil && i == len(rs)-1 {
				s += string(*c.Suffix)
			}
			if _, ok := vocab[s]; !ok {
				return fmt.Errorf("%q of the word %q is not in the vocabulary", s, w)
			}
			base[s] = true
			k.syms = append(k.syms, s)
		}
		words = append(words, k)
	}
	// every merge takes a most frequent pair
	pairCounts := func() (map[[2]string]int, int) {
		pc := map[[2]string]int{}
		for _, w := range words {
			for i := 0; i+1 < len(w.syms); i++ {
				pc[[2]string{w.syms[i], w.syms[i+1]}] += w.n
			}
		}
		best := 0
		for _, n := range pc {
			best = max(best, n)
		}
		return pc, best
	}
	apply := func(mg trainedMerge) {
		for k := range words {
			var out []string
			s := words[k].syms
			for i := 0; i < len(s); i++ {
				if i+1 < len(s) && s[i] == mg.a && s[i+1] == mg.b {
					out = append(out, mg.tok)
					i++
				} else {
					out = append(out, s[i])
				}
			}
			words[k].syms = out
		}
	}
	floor := max(1, c.MinFreq)
	size := len(base)
	known := map[string]bool{}
	for s := range base {
		known[s] = true
	}
	ambiguous := gap // a pair merged twice: the later one is not listed
	for i, mg := range merges {
		if ambiguous {
			break
		}
		b := mg.b
		if c.Prefix != nil {
			b = strings.TrimPrefix(b, string(*c.Prefix))
		}
		if mg.a+b != mg.tok {
			return fmt.Errorf("merge %d of %q and %q gives %q", i, mg.a, mg.b, mg.tok)
		}
		if size >= c.VocabSize {
			return fmt.Errorf("merge %d %v although the vocabulary has %d tokens of %d", i, mg, size, c.VocabSize)
		}
		pc, best := pairCounts()
		n := pc[[2]string{mg.a, mg.b}]
		if n != best {
			// a pair formed again by another way to write a token
			for j := 0; j < i; j++ {
				if merges[j].tok == mg.tok || pc[[2]string{merges[j].a, merges[j].b}] == best {
					ambiguous = true
				}
			}
			if ambiguous {
				break
			}
			return fmt.Errorf("merge %d is %q+%q, seen %d times; another pair is seen %d times", i, mg.a, mg.b, n, best)
		}
		if n < floor {
			return fmt.Errorf("merge %d is %q+%q, seen %d times, below %d", i, mg.a, mg.b, n, floor)
		}
		if !known[mg.tok] {
			known[mg.tok] = true
			size++
		}
		apply(mg)
	}
	x.Label("pair formed again", ambiguous)
	if !ambiguous {
		if size != len(vocab) {
			return fmt.Errorf("%d tokens in the vocabulary, want %d", len(vocab), size)
		}
		if pc, best := pairCounts(); size < c.VocabSize && best >= floor {
			return fmt.Errorf("training stops with %d tokens of %d although a pair is seen %d times: %v", size, c.VocabSize, best, pc)
		}
		// the model cuts the words it was trained on the way training left them
		for k, w := range words {
			if !w.all || w.w == "" || k > 300 {
				continue
			}
			toks, err := m.Tokenize(w.w)
			if err != nil {
				return fmt.Errorf("trained on %q: %v", w.w, err)
			}
			var got []string
			for _, t := range toks {
				got = append(got, t.Value)
			}
			if strings.Join(got, "\x00") != strings.Join(w.syms, "\x00") {
				return fmt.Errorf("trained on %q as %q, but it is tokenized as %q", w.w, w.syms, got)
			}
		}
	}
	// deterministic
	m1, _ := c.trainer().Train(counts)
	if fmt.Sprint(*m1.(bpe.BPE).Vocab) != fmt.Sprint(*m.Vocab) || fmt.Sprint(*m1.(bpe.BPE).Merges) != fmt.Sprint(*m.Merges) {
		return fmt.Errorf("training twice gives two models: %v and %v", *m.Merges, *m1.(bpe.BPE).Merges)
	}
	return nil
}

func isMerged(ms []trainedMerge, tok string) bool {
	for _, m := range ms {
		if m.tok == tok {
			return true
		}
	}
	return false
}

func genTrain(t *rapid.T, many bool) trainCase {
	c := trainCase{Words: map[string]int{}, Limit: -1}
	n := rapid.IntRange(1, 4).Draw(t, "alphabet")
	start := rapid.IntRange(0, len(bpeChars)-n).Draw(t, "from")
	for i := rapid.IntRange(0, 8).Draw(t, "words"); i >= 0; i-- {
		c.Words[genOver(t, "w", bpeChars[start:start+n], 1, 8)] = rapid.IntRange(1, 5).Draw(t, "count")
	}
	if many {
		c.Many = rapid.IntRange(9500, 16000).Draw(t, "many")
	}
	c.VocabSize = rapid.IntRange(1, 30).Draw(t, "size")
	c.MinFreq = rapid.IntRange(0, 4).Draw(t, "minfreq")
	for i := weighted(t, "specials", 3, 1, 1, 1); i > 0; i-- {
		c.Specials = append(c.Specials, pick(t, "special", []string{"<s>", "[PAD]", "<unk>", "a", "漢"}))
	}
	if weighted(t, "limit?", 3, 1) == 1 {
		c.Limit = rapid.IntRange(0, 5).Draw(t, "limit")
	}
	for i := weighted(t, "initial", 3, 1, 1); i > 0; i-- {
		c.Initial = append(c.Initial, pick(t, "init", []string{"z", "q", "a", "b"}))
	}
	if weighted(t, "prefix?", 3, 1) == 1 {
		p := Str(pick(t, "prefix", []string{"##", "@"}))
		c.Prefix = &p
	}
	if weighted(t, "suffix?", 3, 1) == 1 {
		p := Str(pick(t, "suffix", []string{"</w>", "$"}))
		c.Suffix = &p
	}
	return c
}

var _ model.Vocab

func init() {
	Prop("C09", "a case counts when at least one word needs a merge",
		"merge rules have distinct pairs", "dropout between 0 and 1 is judged by what any choice of merges can give")
	Prop("C10", "a case counts when a word is cached, or when several goroutines tokenize four words or more")
	Prop("C22", "a case counts when training gives two merges or more",
		"ties between equally frequent pairs may be broken in any fixed order", "words are valid UTF-8")
	genCase = func(t *rapid.T) bpeCase {
		c := bpeCase{S: genBpeSpec(t)}
		for i := rapid.IntRange(0, 5).Draw(t, "nwords"); i >= 0; i-- {
			c.Words = append(c.Words, genBpeWord(t, c.S))
		}
		return c
	}
	Reg("C09", "reference", 100000, 5000000, genCase, runBpe)
	Reg("C09", "long", 1500, 100000, Large(genCase), runBpe)
	Reg("C10", "history", 60000, 3000000, func(t *rapid.T) bpeCase {
		c := bpeCase{S: genBpeSpec(t)}
		c.S.Cache = rapid.IntRange(0, 4).Draw(t, "cap")
		if c.S.Drop == 1 {
			c.S.Drop = 0
		}
		pool := []Str{}
		for i := rapid.IntRange(0, 5).Draw(t, "nwords"); i >= 0; i-- {
			pool = append(pool, genBpeWord(t, c.S))
		}
		for i := rapid.IntRange(3, 20).Draw(t, "calls"); i > 0; i-- {
			c.Words = append(c.Words, rapid.SampledFrom(pool).Draw(t, "w"))
		}
		return c
	}, runBpe)
	Reg("C10", "cache", 60000, 3000000, func(t *rapid.T) cacheCase {
		c := cacheCase{Cap: rapid.IntRange(0, 5).Draw(t, "cap")}
		for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
			op := cacheOp{Op: weighted(t, "op", 5, 3, 2, 1)}
			for j := rapid.IntRange(0, 4).Draw(t, "keys"); j > 0; j-- {
				op.Keys = append(op.Keys, pick(t, "key", []string{"a", "b", "c", "dd", "", "é", "g", "h"}))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runCacheOps)
	Reg("C10", "concurrent", 3000, 100000, func(t *rapid.T) bpeCase {
		c := bpeCase{S: genBpeSpec(t)}
		c.S.Cache = rapid.IntRange(0, 4).Draw(t, "cap")
		for i := rapid.IntRange(0, 8).Draw(t, "nwords"); i >= 0; i-- {
			c.Words = append(c.Words, genBpeWord(t, c.S))
		}
		return c
	}, runBpeConcurrent).Race = true
	Reg("C22", "train", 20000, 1000000, func(t *rapid.T) trainCase { return genTrain(t, false) }, runTrain)
	Reg("C22", "many-words", 40, 1500, func(t *rapid.T) trainCase { return genTrain(t, true) }, runTrain)
}

// ------------------------------------------------------------- C10 strength of dropout

// dropCase: a word of N pairs, each of which can be merged once.
type dropCase struct {
	P   float32
	N   int
	How int
}

func runDrop(x *Ctx, c dropCase) error {
	vocab := map[string]int{"a": 0, "b": 1, "ab": 2, "c": 3}
	valid := c.P > 0 && c.P <= 1
	var m *bpe.BPE
	var err error
	if c.How == 0 {
		m, err = bpe.New(vocab, []string{"a b"}, &c.P, nil, nil, nil)
	} else {
		b := bpe.NewBpeBuilder()
		b.VocabAndMerges(vocab, bpe.Merges{bpe.Pair{C1: 0, C2: 1}: bpe.PairVal{Rank: 0, NewId: 2}})
		b.Dropout(c.P)
		m, err = b.Build()
	}
	x.Label("refused", !valid)
	if !valid {
		if err == nil {
			return fmt.Errorf("a dropout of %v is accepted", c.P)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("dropout %v: %v", c.P, err)
	}
	toks, err := m.Tokenize(strings.Repeat("abc", c.N))
	if err != nil {
		return err
	}
	merged := 0
	for _, t := range toks {
		if t.Value == "ab" {
			merged++
		}
	}
	x.NonTrivial(true)
	// A skipped merge is tried again after the next one which is done: k of them are left
	// with a probability below P^k.
	switch {
	case c.P <= 0.02 && merged < c.N-8:
		return fmt.Errorf("dropout %v: only %d of %d merges are done", c.P, merged, c.N)
	case c.P <= 0.5 && merged < c.N-20:
		return fmt.Errorf("dropout %v: only %d of %d merges are done", c.P, merged, c.N)
	case c.P >= 0.999 && merged == c.N:
		return fmt.Errorf("dropout %v: all of %d merges are done", c.P, merged)
	case c.P == 1 && merged > 0:
		return fmt.Errorf("dropout 1: %d merges are done", merged)
	}
	return nil
}

func init() {
	Reg("C10", "dropout", 3000, 60000, func(t *rapid.T) dropCase {
		return dropCase{P: rapid.SampledFrom([]float32{-1, -0.001, 1.001, 1.5, 30, 0.001, 0.01, 0.02, 0.3, 0.5, 0.999, 0.9995, 1}).Draw(t, "p"), N: rapid.IntRange(20, 60).Draw(t, "n"), How: rapid.IntRange(0, 1).Draw(t, "how")}
	}, runDrop)
}
