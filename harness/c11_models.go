package main

// C11 WordPiece, C12 WordLevel, C13 Unigram: models against references which
// enumerate the vocabulary at every position.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/util"
	"pgregory.net/rapid"
)

type mTok struct {
	val  string
	id   int
	a, b int
}

func sameTokens(w string, got []tokenizer.Token, want []mTok) error {
	str := func() string {
		var sb strings.Builder
		for _, t := range got {
			fmt.Fprintf(&sb, " %q/%d%v", t.Value, t.Id, t.Offsets)
		}
		sb.WriteString(", want")
		for _, t := range want {
			fmt.Fprintf(&sb, " %q/%d[%d %d]", t.val, t.id, t.a, t.b)
		}
		return sb.String()
	}
	if len(got) != len(want) {
		return fmt.Errorf("%q gives%s", w, str())
	}
	for i, t := range got {
		v := want[i]
		if t.Value != v.val || t.Id != v.id || len(t.Offsets) != 2 || t.Offsets[0] != v.a || t.Offsets[1] != v.b {
			return fmt.Errorf("%q gives%s", w, str())
		}
	}
	return nil
}

// charEnds lists the ends of the chars of s; an invalid byte is a char.
func charEnds(s string) map[int]int {
	ends := map[int]int{0: 0}
	n := 0
	for i := 0; i < len(s); {
		_, k := utf8.DecodeRuneInString(s[i:])
		i += k
		n++
		ends[i] = n
	}
	return ends
}

// ---------------------------------------------------------------- WordPiece

type wpSpec struct {
	Tokens []Str
	Base   int // id of the first token
	Step   int // ids grow by that
	Prefix Str
	Unk    Str // always added to the tokens, unless NoUnk
	NoUnk  bool
	Max    int
	How    int // 0 builder, 1 New, 2 New without options, 3 file
}

func (s wpSpec) vocab() map[string]int {
	v := map[string]int{}
	id := s.Base
	add := func(t Str) {
		if _, ok := v[string(t)]; !ok {
			v[string(t)] = id
			id += s.Step
		}
	}
	for _, t := range s.Tokens {
		add(t)
	}
	if !s.NoUnk {
		add(s.Unk)
	} else {
		delete(v, string(s.Unk))
	}
	return v
}

func writeVocabFile(v map[string]int) (string, func(), error) {
	lines := make([]string, len(v))
	for t, id := range v {
		lines[id] = t
	}
	dir, err := os.MkdirTemp("", "vocab")
	if err != nil {
		return "", nil, err
	}
	f := filepath.Join(dir, "vocab.txt")
	var sb strings.Builder
	for _, l := range lines {
		sb.WriteString(l + "\n")
	}
	return f, func() { os.RemoveAll(dir) }, os.WriteFile(f, []byte(sb.String()), 0o600)
}

func (s wpSpec) build() (tokenizer.Model, error) {
	v := model.Vocab(s.vocab())
	switch s.How {
	case 1:
		return wordpiece.New(v, util.NewParams(map[string]interface{}{"unk_token": string(s.Unk), "continuing_subword_prefix": string(s.Prefix), "max_input_chars_per_word": s.Max}))
	case 2:
		return wordpiece.New(v, util.NewParams(nil))
	case 3:
		f, done, err := writeVocabFile(v)
		if err != nil {
			return nil, err
		}
		defer done()
		return wordpiece.NewWordPieceFromFile(f, string(s.Unk), s.Max)
	}
	b := wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken(string(s.Unk)).ContinuingSubwordPrefix(string(s.Prefix)).MaxInputCharsPerWord(s.Max)
	return b.Build(), nil
}

func (s wpSpec) model(v map[string]int, w string) (out []mTok, err bool) {
	ends := charEnds(w)
	nchars := ends[len(w)]
	unk := func() ([]mTok, bool) {
		id, ok := v[string(s.Unk)]
		if !ok {
			return nil, true
		}
		return []mTok{{string(s.Unk), id, 0, len(w)}}, false
	}
	if nchars > s.Max {
		return unk()
	}
	for at := 0; at < len(w); {
		best, bestEnd := "", -1
		for t := range v {
			body := t
			if at > 0 {
				if !strings.HasPrefix(t, string(s.Prefix)) {
					continue
				}
				body = t[len(s.Prefix):]
			}
			if body == "" || !strings.HasPrefix(w[at:], body) || at+len(body) <= bestEnd {
				continue
			}
			if _, ok := ends[at+len(body)]; !ok {
				continue
			}
			best, bestEnd = t, at+len(body)
		}
		if bestEnd < 0 {
			return unk()
		}
		out = append(out, mTok{best, v[best], at, bestEnd})
		at = bestEnd
	}
	return out, false
}

type wpCase struct {
	S     wpSpec
	Words []Str
}

var wpChars = []string{"a", "b", "c", "é", "漢", "😀", "\xff", "-"}

func genWpCase(t *rapid.T) wpCase {
	s := wpSpec{Prefix: Str(pick(t, "prefix", []string{"##", "##", "##", "", "é", "a", "▁"})), Unk: Str(pick(t, "unk", []string{"[UNK]", "[UNK]", "<unk>", "a", ""})),
		NoUnk: weighted(t, "nounk", 5, 1) == 1, Base: []int{0, 1, 2, 254, 65530, 1<<33 + 5}[weighted(t, "base", 18, 6, 6, 2, 2, 1)], Step: 1 + weighted(t, "step", 3, 1, 1), How: rapid.IntRange(0, 3).Draw(t, "how")}
	s.Max = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 8, 100, 100, 100}).Draw(t, "max") + upTo(t, "more max", 0, 900)
	if s.How == 2 {
		s.Unk, s.Prefix, s.Max = "[UNK]", "##", 100
	}
	if s.How == 3 {
		s.Prefix, s.Base, s.Step, s.NoUnk = "##", 0, 1, false
		if s.Unk == "" {
			s.Unk = "[UNK]"
		}
	}
	n := rapid.IntRange(1, 5).Draw(t, "alphabet")
	from := rapid.IntRange(0, len(wpChars)-n).Draw(t, "from")
	al := wpChars[from : from+n]
	for i := 1 + upTo(t, "ntok", 13, 150); i > 0; i-- {
		tok := genOver(t, "tok", al, 1, 1+weighted(t, "len", 4, 4, 2, 1))
		if rapid.Bool().Draw(t, "cont") {
			tok = string(s.Prefix) + tok
		}
		s.Tokens = append(s.Tokens, Str(tok))
	}
	c := wpCase{S: s}
	for i := rapid.IntRange(0, 4).Draw(t, "nwords"); i >= 0; i-- {
		if rapid.Bool().Draw(t, "glue") {
			var sb strings.Builder
			for j := upTo(t, "n", 4, 200); j >= 0; j-- {
				sb.WriteString(strings.TrimPrefix(string(rapid.SampledFrom(s.Tokens).Draw(t, "t")), string(s.Prefix)))
			}
			c.Words = append(c.Words, Str(sb.String()))
		} else {
			c.Words = append(c.Words, Str(stretch(t, genOver(t, "w", al, 0, 8), 600)))
		}
	}
	return c
}

func runWp(x *Ctx, c wpCase) error {
	m, err := c.S.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	v := c.S.vocab()
	for _, w := range c.Words {
		want, wantErr := c.S.model(v, string(w))
		x.NonTrivial(len(want) > 1)
		x.Label("unknown", !wantErr && len(want) == 1 && want[0].val == string(c.S.Unk))
		x.Label("no unknown token", wantErr)
		got, err := m.Tokenize(string(w))
		if (err != nil) != wantErr {
			return fmt.Errorf("%q gives %v, %v, want %v (error: %v)", w, got, err, want, wantErr)
		}
		if err == nil {
			if err := sameTokens(string(w), got, want); err != nil {
				return err
			}
		}
	}
	return checkVocab(v, m)
}

// The WordPiece trainer: the vocabulary of BPE training, with its prefix.
func runWpTrain(x *Ctx, c trainCase) error {
	counts := c.counts()
	prefix, deft := "##", c.Prefix == nil
	if !deft {
		prefix = string(*c.Prefix)
	}
	p := Str(prefix)
	c.Prefix = &p
	m0, _ := c.trainer().Train(counts)
	ref := m0.(bpe.BPE)
	b := wordpiece.NewWordPieceTrainerBuilder().VocabSize(c.VocabSize).MinFrequency(c.MinFreq).ShowProgress(false)
	var sp []tokenizer.AddedToken
	for _, s := range c.Specials {
		sp = append(sp, tokenizer.NewAddedToken(s, true))
	}
	b = b.SpecialTokens(sp)
	if !deft {
		b = b.ContinuingSubwordPrefix(prefix)
	}
	if c.Suffix != nil {
		b = b.EndOfWordSuffix(string(*c.Suffix))
	}
	if c.Limit >= 0 {
		b = b.LimitAlphabet(c.Limit)
	}
	if len(c.Initial) > 0 {
		cs := bpe.CharSet{}
		for _, s := range c.Initial {
			cs[s] = struct{}{}
		}
		b = b.InitialAlphabet(cs)
	}
	tr := b.Build()
	seen := map[string]int{}
	for w := range counts {
		tr.ProcessTokens(seen, []string{w, "\n", w, "\n"})
		if seen[w] != 2 {
			return fmt.Errorf("ProcessTokens counts %q %d times of 2", w, seen[w])
		}
	}
	m := tr.Train(counts)
	x.NonTrivial(len(*ref.Merges) >= 2)
	if err := checkVocab(map[string]int(*ref.Vocab), m); err != nil {
		return fmt.Errorf("trained WordPiece: %v", err)
	}
	if c.Limit >= 0 || c.Suffix != nil {
		return nil
	}
	s := wpSpec{Prefix: p, Unk: "[UNK]", Max: 100}
	for w := range counts {
		got, err := m.Tokenize(w)
		if err != nil {
			return fmt.Errorf("trained WordPiece cannot tokenize %q of its corpus: %v", w, err)
		}
		want, _ := s.model(m.GetVocab(), w)
		if err := sameTokens(w, got, want); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- WordLevel

type wlSpec struct {
	Tokens     []Str
	Base, Step int
	Unk        Str
	How        int // 0 builder, 1 New, 2 file
	UnkFirst   bool
}

type wlCase struct {
	S     wlSpec
	Words []Str
}

func (s wlSpec) vocab() map[string]int {
	v := map[string]int{}
	id := s.Base
	for _, t := range s.Tokens {
		if _, ok := v[string(t)]; !ok {
			v[string(t)] = id
			id += s.Step
		}
	}
	return v
}

func runWl(x *Ctx, c wlCase) error {
	s := c.S
	v := s.vocab()
	given := s.vocab()
	var m tokenizer.Model
	var err error
	switch s.How {
	case 0:
		b := wordlevel.NewWordLevelBuilder()
		if s.UnkFirst {
			b.UnkToken(string(s.Unk))
			b.Vocab(given)
		} else {
			b.Vocab(given)
			b.UnkToken(string(s.Unk))
		}
		m = b.Build()
		// the unknown token of a builder gets an id of its own
		if _, ok := v[string(s.Unk)]; !ok {
			id, ok := m.TokenToId(string(s.Unk))
			if !ok {
				return fmt.Errorf("the unknown token %q is not in the vocabulary", s.Unk)
			}
			for t, i := range v {
				if i == id {
					return fmt.Errorf("the unknown token %q has the id of %q", s.Unk, t)
				}
			}
			v[string(s.Unk)] = id
		}
		if len(given) != len(s.vocab()) {
			return fmt.Errorf("building changed the vocabulary of the caller: %v", given)
		}
	case 1:
		m, err = wordlevel.New(given, string(s.Unk))
		if s.Unk == "" {
			s.Unk = "<unk>"
		}
	case 2:
		f, done, e := writeVocabFile(v)
		if e != nil {
			return e
		}
		defer done()
		m, err = wordlevel.NewWorldLevelFromFile(f, string(s.Unk))
	}
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	for _, w := range c.Words {
		got, err := m.Tokenize(string(w))
		id, known := v[string(w)]
		unkId, hasUnk := v[string(s.Unk)]
		want := []mTok{{string(w), id, 0, len(w)}}
		if !known {
			want = []mTok{{string(s.Unk), unkId, 0, len(w)}}
		}
		if !known && !hasUnk {
			if err == nil {
				return fmt.Errorf("%q gives %v, want an error: no unknown token", w, got)
			}
			x.Label("no unknown token", true)
			continue
		}
		if err != nil {
			return fmt.Errorf("%q: %v", w, err)
		}
		x.NonTrivial(known && len(v) > 1)
		x.Label("unknown", !known)
		if err := sameTokens(string(w), got, want); err != nil {
			return err
		}
	}
	return checkVocab(v, m)
}

func genWlCase(t *rapid.T) wlCase {
	toks := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Str {
		if weighted(t, "k", 3, 1) == 0 {
			return Str(pick(t, "w", []string{"a", "A", "ab", "é", "e\u0301", "漢", " ", "", "hello", "<unk>", "[UNK]", "\xff"}))
		}
		return Str(genText(t, "w", 2))
	}), 1, 8).Draw(t, "tokens")
	c := wlCase{S: wlSpec{Base: []int{0, 1, 2, 254, 65530, 1<<33 + 5}[weighted(t, "base", 18, 6, 6, 2, 2, 1)], Step: 1 + weighted(t, "step", 3, 1, 1), How: rapid.IntRange(0, 2).Draw(t, "how"), Unk: Str(pick(t, "unk", []string{"<unk>", "[UNK]", "a", ""})), UnkFirst: rapid.Bool().Draw(t, "unkfirst")}}
	for _, w := range toks {
		if c.S.How == 2 && strings.ContainsAny(string(w), "\r\n") {
			w = "nl"
		}
		c.S.Tokens = append(c.S.Tokens, w)
	}
	if c.S.How == 2 {
		c.S.Base, c.S.Step = 0, 1
	}
	for i := rapid.IntRange(0, 5).Draw(t, "nwords"); i >= 0; i-- {
		if rapid.Bool().Draw(t, "known") {
			c.Words = append(c.Words, rapid.SampledFrom(c.S.Tokens).Draw(t, "w"))
		} else {
			c.Words = append(c.Words, Str(genBytes(t, "w", 2)))
		}
	}
	return c
}

// ---------------------------------------------------------------- Unigram

type uniSpec struct {
	Tokens []Str
	Scores []float64
	Unk    int // index of the unknown token, -1: none
	Bytes  bool
	Fuse   bool
	How    int // 0 builder, 1 New
}

func (s uniSpec) vocab() map[string]int {
	v := map[string]int{}
	for i, t := range s.Tokens {
		v[string(t)] = i
	}
	return v
}

func (s uniSpec) build() (*unigram.Unigram, error) {
	var v []unigram.TokenScore
	for i, t := range s.Tokens {
		v = append(v, unigram.TokenScore{Token: string(t), Score: s.Scores[i]})
	}
	if s.How == 1 {
		p := map[string]interface{}{"byte_fallback": s.Bytes, "fuse_unk": s.Fuse}
		if s.Unk >= 0 {
			p["unk_id"] = s.Unk
		}
		return unigram.New(v, util.NewParams(p))
	}
	b := unigram.NewUnigramBuilder().Vocab(v).BytesFallback(s.Bytes).FuseUnk(s.Fuse)
	if s.Unk >= 0 {
		b.UnkID(s.Unk)
	}
	return b.Build()
}

func (s uniSpec) unkScore() float64 {
	min := math.Inf(1)
	for _, x := range s.Scores {
		min = math.Min(min, x)
	}
	if len(s.Scores) == 0 {
		min = 0
	}
	return min - 10
}

// best gives the best score of w[a:b] over all segmentations into pieces
// allowed by ok; -Inf if there is none.
func (s uniSpec) best(w string, ok func(tok string, known bool) bool) float64 {
	ends := charEnds(w)
	score := make([]float64, len(w)+1)
	for i := range score {
		score[i] = math.Inf(-1)
	}
	score[0] = 0
	v := s.vocab()
	for i := 0; i < len(w); i++ {
		if _, at := ends[i]; !at || math.IsInf(score[i], -1) {
			continue
		}
		for t, id := range v {
			if t != "" && strings.HasPrefix(w[i:], t) && ok(t, true) {
				if _, at := ends[i+len(t)]; at {
					score[i+len(t)] = math.Max(score[i+len(t)], score[i]+s.Scores[id])
				}
			}
		}
		_, k := utf8.DecodeRuneInString(w[i:])
		if _, known := v[w[i:i+k]]; !known && (s.Unk >= 0 || s.Bytes) && ok(w[i:i+k], false) {
			score[i+k] = math.Max(score[i+k], score[i]+s.unkScore())
		}
	}
	return score[len(w)]
}

type uniCase struct {
	S     uniSpec
	Words []Str
}

func (s uniSpec) check(x *Ctx, m *unigram.Unigram, w string) error {
	v := s.vocab()
	got, err := m.Tokenize(w)
	best := s.best(w, func(string, bool) bool { return true })
	// chars which no token can spell
	hopeless := false
	for i := 0; i < len(w); {
		_, k := utf8.DecodeRuneInString(w[i:])
		if _, ok := v[w[i:i+k]]; !ok && s.Unk < 0 {
			for _, b := range []byte(w[i : i+k]) {
				if _, ok := v[fmt.Sprintf("<0x%02X>", b)]; !ok {
					hopeless = true
				}
			}
		}
		i += k
	}
	if math.IsInf(best, -1) {
		x.Label("cannot be tokenized", true)
		if err == nil {
			return fmt.Errorf("%q gives %v, want an error", w, got)
		}
		return nil
	}
	if err != nil {
		if s.Bytes && hopeless {
			x.Label("missing byte token", true)
			return nil
		}
		return fmt.Errorf("%q: %v", w, err)
	}
	if w == "" {
		if len(got) != 0 {
			return fmt.Errorf("empty text gives %v", got)
		}
		return nil
	}
	desc := func() string {
		var sb strings.Builder
		for _, t := range got {
			fmt.Fprintf(&sb, " %q/%d%v", t.Value, t.Id, t.Offsets)
		}
		return sb.String()
	}
	// pieces
	fusable := func(tok string, known bool) bool { return !known || s.Unk >= 0 && v[tok] == s.Unk }
	ends := charEnds(w)
	total, pos, n := 0.0, 0, 0
	prevUnk := false
	for i := 0; i < len(got); {
		t := got[i]
		if len(t.Offsets) != 2 || t.Offsets[0] != pos || t.Offsets[1] <= pos || t.Offsets[1] > len(w) {
			return fmt.Errorf("%q gives%s: offsets do not cover the text in order", w, desc())
		}
		if _, at := ends[t.Offsets[1]]; !at {
			return fmt.Errorf("%q gives%s: a token ends inside a char", w, desc())
		}
		piece := w[pos:t.Offsets[1]]
		pos = t.Offsets[1]
		n++
		id, known := v[piece]
		unk := !known || s.Unk >= 0 && id == s.Unk
		if s.Fuse && unk && prevUnk {
			return fmt.Errorf("%q gives%s: unknown pieces are not fused", w, desc())
		}
		prevUnk = unk
		if known {
			if t.Value != piece || t.Id != id {
				return fmt.Errorf("%q gives%s: %q has id %d", w, desc(), piece, id)
			}
			// fused unknown chars may spell a token too
			sc := s.Scores[id]
			if s.Fuse {
				sc = math.Max(sc, s.best(piece, fusable))
			}
			total += sc
			i++
			continue
		}
		// an unknown piece: one char, or several when they are fused
		one := ends[t.Offsets[1]]-ends[t.Offsets[0]] == 1
		if !one && !s.Fuse {
			return fmt.Errorf("%q gives%s: unknown piece of several chars", w, desc())
		}
		sc := s.best(piece, fusable)
		if math.IsInf(sc, -1) {
			return fmt.Errorf("%q gives%s: %q is not made of unknown chars", w, desc(), piece)
		}
		total += sc
		if !s.Bytes {
			if s.Unk < 0 || t.Id != s.Unk || t.Value != piece {
				return fmt.Errorf("%q gives%s: want the unknown token for %q", w, desc(), piece)
			}
			i++
			continue
		}
		for _, b := range []byte(piece) {
			name := fmt.Sprintf("<0x%02X>", b)
			id, ok := v[name]
			if !ok {
				if s.Unk < 0 {
					return fmt.Errorf("%q gives%s: no token for byte %s", w, desc(), name)
				}
				id, name = s.Unk, string(s.Tokens[s.Unk])
			}
			if i >= len(got) || got[i].Id != id || got[i].Value != name || fmt.Sprint(got[i].Offsets) != fmt.Sprint(t.Offsets) {
				return fmt.Errorf("%q gives%s: want %q/%d at %d for a byte of %q", w, desc(), name, id, i, piece)
			}
			i++
		}
		x.Label("byte fallback", true)
	}
	if pos != len(w) {
		return fmt.Errorf("%q gives%s: the end of the text is lost", w, desc())
	}
	if math.Abs(total-best) > 1e-8+float64(len(w))*math.Abs(best)*1e-16 {
		return fmt.Errorf("%q gives%s with score %v, best is %v", w, desc(), total, best)
	}
	x.NonTrivial(n > 1)
	return nil
}

func runUni(x *Ctx, c uniCase) error {
	m, err := c.S.build()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	for _, w := range c.Words {
		if err := c.S.check(x, m, string(w)); err != nil {
			return err
		}
	}
	return checkVocab(c.S.vocab(), m)
}

func genUniCase(t *rapid.T) uniCase {
	s := uniSpec{Unk: -1, Bytes: weighted(t, "bytes", 2, 1) == 1, Fuse: rapid.Bool().Draw(t, "fuse"), How: rapid.IntRange(0, 1).Draw(t, "how")}
	seen := map[Str]bool{}
	add := func(tok Str, score float64) {
		if !seen[tok] {
			seen[tok] = true
			s.Tokens = append(s.Tokens, tok)
			s.Scores = append(s.Scores, score)
		}
	}
	// most scores are about 0, but all of them may be far above or below
	shift := []float64{0, 20, -40, 1000}[weighted(t, "shift", 8, 2, 2, 1)]
	// and some differ by less than a float32 can tell
	fine := weighted(t, "fine", 3, 1) == 1
	score := func() float64 {
		if fine && rapid.Bool().Draw(t, "finer") {
			return shift + float64(rapid.IntRange(-6, 2).Draw(t, "score")) + float64(rapid.IntRange(-4, 4).Draw(t, "finely"))/(1<<24)
		}
		if weighted(t, "sc", 3, 1) == 0 {
			return shift + float64(rapid.IntRange(-12, 2).Draw(t, "score"))
		}
		return shift + float64(rapid.IntRange(-300, 100).Draw(t, "score"))/16
	}
	if weighted(t, "unk", 1, 3) == 1 {
		if rapid.Bool().Draw(t, "front") {
			add("<0x00>", score())
		}
		s.Unk = len(s.Tokens)
		add(Str(pick(t, "unktok", []string{"<unk>", "<u>"})), score())
	}
	n := rapid.IntRange(1, 4).Draw(t, "alphabet")
	chars := []string{"a", "b", "c", "é", "漢", "▁", "😀"}
	from := rapid.IntRange(0, len(chars)-n).Draw(t, "from")
	al := chars[from : from+n]
	for i := upTo(t, "ntok", 12, 150); i > 0; i-- {
		max := 1 + weighted(t, "len", 4, 4, 3, 2, 1)
		if max == 5 {
			max = rapid.IntRange(5, 40).Draw(t, "long")
			add(Str(strings.Repeat(pick(t, "rep", al), max)), score())
			continue
		}
		add(Str(genOver(t, "tok", al, 1, max)), score())
	}
	if s.Bytes {
		for i := rapid.IntRange(0, 6).Draw(t, "nbytes"); i > 0; i-- {
			src := pick(t, "bytesof", append([]string{"x", "é", "漢", "\xff"}, al...))
			for _, b := range []byte(src) {
				add(Str(fmt.Sprintf("<0x%02X>", b)), score())
			}
		}
	}
	c := uniCase{S: s}
	for i := rapid.IntRange(0, 4).Draw(t, "nwords"); i >= 0; i-- {
		var sb strings.Builder
		for j := upTo(t, "n", 6, 120); j > 0; j-- {
			switch k := weighted(t, "piece", 4, 6, 1, 1); {
			case k == 0 && len(s.Tokens) > 0:
				sb.WriteString(string(rapid.SampledFrom(s.Tokens).Draw(t, "t")))
			case k <= 1:
				sb.WriteString(strings.Repeat(pick(t, "c", al), 1+weighted(t, "rep", 4, 1, 1)))
			case k == 2:
				sb.WriteString(pick(t, "odd", []string{"x", "z", "É", "\xff", "\xe6\xbc", "�"}))
			case k == 3:
				sb.WriteString(strings.Repeat(pick(t, "c", al), rapid.IntRange(4, 45).Draw(t, "run")))
			}
		}
		c.Words = append(c.Words, Str(sb.String()))
	}
	if len(c.Words) > 1 && rapid.Bool().Draw(t, "again") {
		c.Words = append(c.Words, c.Words[0])
	}
	return c
}

func init() {
	Prop("C11", "a case counts when a word is cut into two tokens or more", "an invalid byte counts as one char")
	Prop("C12", "a case counts when a known word is tokenized with a vocabulary of two tokens or more")
	Prop("C13", "a case counts when a text is cut into two pieces or more",
		"tokens of the vocabulary are distinct, the unknown token is not made of other tokens", "equally good segmentations may be chosen freely")
	Reg("C11", "greedy", 400000, 20000000, genWpCase, runWp)
	Reg("C11", "long", 1500, 100000, Large(genWpCase), runWp)
	Reg("C11", "train", 12000, 500000, func(t *rapid.T) trainCase { return genTrain(t, false) }, runWpTrain)
	Reg("C12", "lookup", 150000, 10000000, genWlCase, runWl)
	Reg("C13", "viterbi", 700000, 10000000, genUniCase, runUni)
	Reg("C13", "long", 1500, 100000, Large(genUniCase), runUni)
	Reg("C13", "unknown-id", 2000, 20000, func(t *rapid.T) int { return rapid.IntRange(-3, 6).Draw(t, "unk") }, func(x *Ctx, id int) error {
		x.NonTrivial(id < 0 || id > 2)
		_, err := unigram.New([]unigram.TokenScore{{Token: "a"}, {Token: "b"}, {Token: "c"}}, util.NewParams(map[string]interface{}{"unk_id": id}))
		if ok := id >= 0 && id < 3; (err == nil) != ok {
			return fmt.Errorf("unknown id %d in a vocabulary of 3 tokens: %v", id, err)
		}
		return nil
	})
}

func (s wlSpec) build() (tokenizer.Model, error) {
	return wordlevel.New(s.vocab(), string(s.Unk))
}
