package main

// C22: training a tokenizer on files.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"pgregory.net/rapid"
)

// tap sees the words a trainer is given.
type tap struct {
	*bpe.BpeTrainer
	words map[string]int
	times int
}

func (t *tap) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	t.words = map[string]int{}
	for w, n := range words {
		t.words[w] = n
	}
	t.times++
	return t.BpeTrainer.Train(words)
}

type filesCase struct {
	P        pipeSpec
	Lines    [][]Str // per file
	Ends     []Str   // of the lines
	NoLast   bool    // no end after the last line
	Again    int     `json:",omitempty"` // the first file is given again, or a link to it, or a copy
	Missing  int     // which file cannot be read, if any
	How      int     // 0: it is missing, 1: it is a directory, 2: it leads nowhere
	Prefix   *Str
	Size     int
	MinFreq  int
	Specials []string
	Probe    Str
}

func (c filesCase) trainer() *tap {
	t := trainCase{VocabSize: c.Size, MinFreq: c.MinFreq, Specials: c.Specials, Limit: -1, Prefix: c.Prefix}
	return &tap{BpeTrainer: t.trainer()}
}

func runFiles(x *Ctx, c filesCase) error {
	dir, err := os.MkdirTemp("", "train")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// the buffers of the readers are huge
	defer debug.FreeOSMemory()
	runtime.GC()
	want := map[string]int{}
	var files []string
	k := 0
	for i, lines := range c.Lines {
		text := ""
		for j, l := range lines {
			text += string(l)
			if !(c.NoLast && j == len(lines)-1) {
				text += string(c.Ends[k%len(c.Ends)])
			} else if l == "" {
				text += "\n" // there is a line
			}
			k++
			for _, w := range c.P.wordsOf(inputSpec{Pieces: []Str{l}}) {
				if w != "" {
					want[w]++
				}
			}
		}
		f := filepath.Join(dir, fmt.Sprintf("corpus%d.txt", i))
		files = append(files, f)
		if i+1 == c.Missing {
			switch c.How {
			case 1:
				os.MkdirAll(filepath.Join(f, "x"), 0o755)
			case 2:
				os.Symlink(filepath.Join(dir, "nowhere"), f)
			}
			continue
		}
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	if c.Again > 0 && len(files) > 0 && c.Missing != 1 {
		f := files[0]
		switch c.Again {
		case 2:
			f = filepath.Join(dir, "again.txt")
			if err := os.Symlink(files[0], f); err != nil {
				panic(err)
			}
		case 3:
			f = filepath.Join(dir, "again.txt")
			b, err := os.ReadFile(files[0])
			if err != nil {
				panic(err)
			}
			if err := os.WriteFile(f, b, 0o644); err != nil {
				panic(err)
			}
		}
		files = append(files, f)
		for _, l := range c.Lines[0] {
			for _, w := range c.P.wordsOf(inputSpec{Pieces: []Str{l}}) {
				if w != "" {
					want[w]++
				}
			}
		}
		x.Label("the same file again", c.Again == 1)
	}
	p := c.P
	p.Model = modelSpec{Wl: &wlSpec{Tokens: []Str{"a"}, Step: 1, Unk: "[UNK]"}}
	tk, _, err := p.build()
	if err != nil {
		return err
	}
	before := fmt.Sprint(tk.GetVocab(true))
	tr := c.trainer()
	err = tk.Train(tr, files)
	if c.Missing > 0 && c.Missing <= len(c.Lines) {
		x.Label("missing file", true)
		x.Label("a directory", c.How == 1)
		if err == nil {
			return fmt.Errorf("training on a file which cannot be read (%d) is not an error", c.How)
		}
		if after := fmt.Sprint(tk.GetVocab(true)); before != after {
			return fmt.Errorf("training which fails changes the tokenizer from %v to %v", before, after)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("training: %v", err)
	}
	if tr.times != 1 {
		return fmt.Errorf("the trainer is used %d times", tr.times)
	}
	delete(tr.words, "")
	x.NonTrivial(len(want) > 2)
	x.Label("several files", len(files) > 1)
	if !reflect.DeepEqual(tr.words, want) {
		return fmt.Errorf("the trainer is given the words %v, want %v", tr.words, want)
	}
	// the tokenizer has the model trained on these words
	m, specials := c.trainer().BpeTrainer.Train(want)
	ref, _, err := p.build()
	if err != nil {
		return err
	}
	ref2 := tokenizer.NewTokenizer(m)
	if n := p.Norm; n != nil {
		ref2.WithNormalizer(ref.GetNormalizer())
	}
	if p.Pre != nil {
		ref2.WithPreTokenizer(ref.GetPreTokenizer())
	}
	ref2.AddSpecialTokens(specials)
	ins := []inputSpec{{Pieces: []Str{c.Probe}}}
	for _, l := range c.Lines {
		if len(l) > 0 {
			ins = append(ins, inputSpec{Pieces: []Str{l[0]}})
			break
		}
	}
	return sameTokenizer(x, tk, ref2, ins, []int{0, 1, 2, 3, 5, 8})
}

func genFiles(t *rapid.T) filesCase {
	p, _ := genPipe(t, true)
	p.Calls = nil
	c := filesCase{P: p, Size: pickInt(t, "size", 0, 5, 20, 60, 1000), MinFreq: rapid.IntRange(0, 3).Draw(t, "minfreq"), NoLast: rapid.Bool().Draw(t, "nolast")}
	for k := pickInt(t, "files", 1, 1, 2, 2, 0); k > 0; k-- {
		var lines []Str
		for n := rapid.IntRange(0, 5).Draw(t, "lines"); n > 0; n-- {
			l := strings.Map(func(r rune) rune {
				if r == '\n' || r == '\r' {
					return ' '
				}
				return r
			}, pipeText(t, nil, 6))
			lines = append(lines, Str(l))
		}
		c.Lines = append(c.Lines, lines)
	}
	c.Ends = []Str{"\n"}
	if weighted(t, "crlf", 3, 1) == 1 {
		c.Ends = append(c.Ends, "\r\n")
	}
	if weighted(t, "missing?", 5, 1) == 1 {
		c.Missing = rapid.IntRange(1, 2).Draw(t, "missing")
		c.How = rapid.IntRange(0, 2).Draw(t, "how")
	}
	c.Again = weighted(t, "again", 6, 2, 1, 1)
	if weighted(t, "prefix?", 3, 1) == 1 {
		s := Str("##")
		c.Prefix = &s
	}
	c.Specials = []string{"[UNK]", "<s>"}[:rapid.IntRange(0, 2).Draw(t, "specials")]
	c.Probe = Str(pipeText(t, nil, 5))
	return c
}

// ---------------------------------------------------------------- large files

// chunkCase is a file around the size which is read in several parts.
type chunkCase struct {
	Shift int // where the first of the odd lines starts, from the limit
	Lens  []int
	After int // more filling lines after
	End   bool
	Parts int `json:",omitempty"` // how many parts there are before the limit, when there is more than one
}

const chunkSize = 100 << 20

func runChunks(x *Ctx, c chunkCase) error {
	dir, err := os.MkdirTemp("", "train")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old := debug.SetGCPercent(10)
	defer debug.SetGCPercent(old)
	defer debug.FreeOSMemory()
	const fill = "aaaa bbbb\n"
	line := strings.Repeat("aaaa bbbb ", 199) + fill
	want := map[string]int{}
	var sb strings.Builder
	sb.Grow(chunkSize*max(1, c.Parts) + 1<<20)
	put := func(s string, n int) {
		for i := 0; i < n; i++ {
			sb.WriteString(s)
		}
		for _, w := range strings.Fields(s) {
			want[w] += n
		}
	}
	start := chunkSize*max(1, c.Parts) + c.Shift
	put(line, start/len(line))
	if rest := start % len(line); rest > 0 {
		put(strings.Repeat("c", rest-1)+"\n", 1)
	}
	for i, n := range c.Lens {
		put(strings.Repeat(string(rune('A'+i)), n)+"\n", 1)
	}
	put(line, c.After)
	if c.End {
		put("end", 1)
	}
	f := filepath.Join(dir, "corpus.txt")
	if err := os.WriteFile(f, []byte(sb.String()), 0o644); err != nil {
		panic(err)
	}
	sb.Reset()
	p := pipeSpec{Pre: &pretokSpec{Kind: "wssplit"}, Model: modelSpec{Wl: &wlSpec{Tokens: []Str{"a"}, Step: 1, Unk: "[UNK]"}}}
	tk, _, err := p.build()
	if err != nil {
		return err
	}
	tr := filesCase{Size: 5}.trainer()
	if err := tk.Train(tr, []string{f}); err != nil {
		return err
	}
	x.NonTrivial(true)
	delete(tr.words, "")
	if !reflect.DeepEqual(tr.words, want) {
		short := func(m map[string]int) string {
			var out []string
			for w, n := range m {
				out = append(out, fmt.Sprintf("%s(%d): %d", head(w, 5), len(w), n))
			}
			sort.Strings(out)
			return strings.Join(out, ", ")
		}
		return fmt.Errorf("the trainer is given the words %s, want %s", short(tr.words), short(want))
	}
	return nil
}

func genChunks(t *rapid.T) chunkCase {
	c := chunkCase{Shift: -pickInt(t, "shift", 0, 0, 1, 1, 2, 5, 8), After: rapid.IntRange(0, 2).Draw(t, "after"), End: rapid.Bool().Draw(t, "end")}
	for k := rapid.IntRange(1, 5).Draw(t, "lines"); k > 0; k-- {
		c.Lens = append(c.Lens, rapid.IntRange(0, 4).Draw(t, "len"))
	}
	if weighted(t, "parts", 4, 1) == 1 {
		c.Parts = 2
	}
	return c
}

// ---------------------------------------------------------------- wide lines

// wideCase is lines of many words each, which take time to count: line i of file f holds
// the words From to From+N-1, written Every times.
type wideCase struct {
	Files [][]wideLine
	Procs int // the number of cores
}

type wideLine struct{ From, N, Every int }

func runWide(x *Ctx, c wideCase) error {
	dir, err := os.MkdirTemp("", "train")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	defer debug.FreeOSMemory()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	runtime.GC()
	want := map[string]int{}
	var files []string
	for i, lines := range c.Files {
		var sb strings.Builder
		for _, l := range lines {
			for e := 0; e < l.Every; e++ {
				for w := l.From; w < l.From+l.N; w++ {
					word := fmt.Sprintf("w%d", w)
					sb.WriteString(word)
					sb.WriteByte(' ')
					want[word]++
				}
			}
			sb.WriteByte('\n')
		}
		f := filepath.Join(dir, fmt.Sprintf("corpus%d.txt", i))
		if err := os.WriteFile(f, []byte(sb.String()), 0o644); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	p := pipeSpec{Pre: &pretokSpec{Kind: "wssplit"}, Model: modelSpec{Wl: &wlSpec{Tokens: []Str{"a"}, Step: 1, Unk: "[UNK]"}}}
	tk, _, err := p.build()
	if err != nil {
		return err
	}
	tr := filesCase{Size: 5}.trainer()
	if err := tk.Train(tr, files); err != nil {
		return err
	}
	x.NonTrivial(len(want) > 1000 && len(files) > 1)
	delete(tr.words, "")
	if len(tr.words) != len(want) {
		return fmt.Errorf("the trainer is given %d words, want %d", len(tr.words), len(want))
	}
	for w, n := range want {
		if tr.words[w] != n {
			return fmt.Errorf("the word %s is counted %d times, want %d", w, tr.words[w], n)
		}
	}
	return nil
}

func genWide(t *rapid.T) wideCase {
	c := wideCase{Procs: pickInt(t, "procs", 1, 2, 4, 8)}
	for k := pickInt(t, "files", 1, 2, 3, 3); k > 0; k-- {
		var lines []wideLine
		for n := rapid.IntRange(1, 3).Draw(t, "lines"); n > 0; n-- {
			lines = append(lines, wideLine{pickInt(t, "from", 0, 0, 1000, 5000), pickInt(t, "n", 1, 100, 3000, 8000), rapid.IntRange(1, 2).Draw(t, "every")})
		}
		c.Files = append(c.Files, lines)
	}
	return c
}

func init() {
	f := Reg("C22", "files", 120, 3000, genFiles, runFiles)
	f.Shards, f.Memory = 2, 6<<30
	f = Reg("C22", "wide-lines", 16, 600, genWide, runWide)
	f.Shards, f.Memory, f.CPU = 2, 12<<30, 120
	f = Reg("C22", "large-files", 2, 60, genChunks, runChunks)
	f.Shards, f.Memory, f.CPU = 2, 8<<30, 600
}
