package main

// C21: batches, concurrent use and history of a tokenizer.

import (
	"fmt"
	"sync"

	"github.com/sugarme/tokenizer"
	"pgregory.net/rapid"
)

// encIn is one input: a sequence or a pair.
type encIn struct {
	A inputSpec
	B *inputSpec `json:",omitempty"`
}

func (i encIn) build() tokenizer.EncodeInput {
	if i.B != nil {
		return tokenizer.NewDualEncodeInput(i.A.build(), i.B.build())
	}
	return tokenizer.NewSingleEncodeInput(i.A.build())
}

type batchCase struct {
	P       pipeSpec
	Dec     *decSpec `json:",omitempty"`
	In      []encIn
	Special bool
	Ids     [][]int `json:",omitempty"`
}

func (c batchCase) tokenizer() (*tokenizer.Tokenizer, error) {
	tk, _, err := c.P.build()
	if err == nil && c.Dec != nil {
		tk.WithDecoder(c.Dec.build())
	}
	return tk, err
}

func mEncOf(e *tokenizer.Encoding) (mEnc, error) {
	rows, err := table(e)
	if err != nil {
		return mEnc{}, err
	}
	m := mEnc{rows: rows, seqs: len(e.SequenceRanges) > 0}
	for i := range e.Overflowing {
		o, err := mEncOf(&e.Overflowing[i])
		if err != nil {
			return mEnc{}, err
		}
		m.over = append(m.over, o)
	}
	return m, nil
}

func runBatch(x *Ctx, c batchCase) error {
	q := c
	q.P.Pad = nil
	var want []mEnc
	longest, failed := 0, false
	for i, in := range c.In {
		tk, err := q.tokenizer()
		if err != nil {
			return fmt.Errorf("cannot build: %v", err)
		}
		e, err := tk.Encode(in.build(), c.Special)
		if err != nil {
			failed = true
			continue
		}
		m, err := mEncOf(e)
		if err != nil {
			return fmt.Errorf("input %d: %v", i, err)
		}
		want = append(want, m)
		longest = max(longest, len(m.rows))
	}
	tk, err := c.tokenizer()
	if err != nil {
		return err
	}
	var inputs []tokenizer.EncodeInput
	for _, in := range c.In {
		inputs = append(inputs, in.build())
	}
	for time := 0; time < 2; time++ {
		got, err := tk.EncodeBatch(inputs, c.Special)
		if failed {
			x.Label("refused", true)
			if err == nil {
				return fmt.Errorf("an input cannot be encoded, but the batch can")
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("each input can be encoded, but the batch cannot: %v", err)
		}
		if len(got) != len(want) {
			return fmt.Errorf("%d encodings of %d inputs", len(got), len(want))
		}
		x.NonTrivial(len(want) > 1 && longest > 0)
		var ids [][]int
		for i, m := range want {
			if p := c.P.Pad; p != nil {
				target := p.Fixed
				if target == 0 {
					target = longest
				}
				x.Label("padded", target > len(m.rows))
				m = m.pad(padCase{Left: p.Left, PadId: p.Id, PadTypeId: p.TypeId, PadToken: p.Tok}, target)
			}
			if err := m.check(fmt.Sprintf("batch %d, encoding %d", time, i), &got[i]); err != nil {
				return err
			}
			ids = append(ids, got[i].Ids)
		}
		ids = append(ids, c.Ids...)
		texts := tk.DecodeBatch(ids, c.Special)
		if len(texts) != len(ids) {
			return fmt.Errorf("%d texts of %d lists of ids", len(texts), len(ids))
		}
		for i := range ids {
			if t := tk.Decode(ids[i], c.Special); t != texts[i] {
				return fmt.Errorf("batch %d: %v is decoded to %q, alone to %q", time, ids[i], texts[i], t)
			}
		}
	}
	return nil
}

func genBatch(t *rapid.T) batchCase {
	p, calls := genPipe(t, true)
	c := batchCase{Special: rapid.Bool().Draw(t, "special")}
	var raw []inputSpec
	for k := upTo(t, "inputs", 6, 40); k > 0; k-- {
		in := encIn{A: genInput(t, calls)}
		raw = append(raw, in.A)
		if weighted(t, "pair", 3, 1) == 1 {
			b := genInput(t, calls)
			in.B = &b
			raw = append(raw, b)
		}
		c.In = append(c.In, in)
	}
	p.Model = genModel(t, p.wordsOf(raw...), allModels...)
	if rapid.Bool().Draw(t, "proc?") {
		q := genProcSpec(t, 1)
		p.Proc = &q
	}
	if weighted(t, "trunc?", 2, 1) == 1 {
		p.Trunc = genTruncSpec(t)
	}
	if weighted(t, "pad?", 1, 1) == 1 {
		p.Pad = genPadSpec(t)
	}
	if rapid.Bool().Draw(t, "decoder?") {
		d := genDec(t, 1)
		c.Dec = &d
	}
	for k := rapid.IntRange(0, 3).Draw(t, "lists"); k > 0; k-- {
		c.Ids = append(c.Ids, rapid.SliceOfN(rapid.IntRange(0, 40), 0, 6).Draw(t, "ids"))
	}
	c.P = p
	return c
}

func genTruncSpec(t *rapid.T) *truncSpec {
	return &truncSpec{manyOr(t, "max", 0, 12), weighted(t, "stride", 4, 2, 1), weighted(t, "strategy", 4, 1, 1)}
}

func genPadSpec(t *rapid.T) *padSpec {
	return &padSpec{Fixed: weighted(t, "fixed?", 2, 1) * rapid.IntRange(1, 14).Draw(t, "fixed"), Left: rapid.Bool().Draw(t, "left"), Id: rapid.IntRange(0, 99).Draw(t, "padid"), TypeId: rapid.IntRange(0, 3).Draw(t, "padtype"), Tok: "[PAD]"}
}

// ---------------------------------------------------------------- concurrent use

type concCase struct {
	C  batchCase
	G  int
	Do [][2]int // what (kind, input), per goroutine from its own start
}

// answer does one thing with a tokenizer and says what came out.
func (c batchCase) answer(tk *tokenizer.Tokenizer, kind, k int) string {
	in := c.In[k%len(c.In)]
	show := func(es ...*tokenizer.Encoding) string {
		out := ""
		for _, e := range es {
			m, err := mEncOf(e)
			out += fmt.Sprint(m, err)
		}
		return out
	}
	switch kind {
	case 0, 1:
		e, err := tk.Encode(in.build(), kind == 0)
		if err != nil {
			return "error"
		}
		return show(e)
	case 2:
		e, err := tk.EncodeCharOffsets(in.build(), c.Special)
		if err != nil {
			return "error"
		}
		return show(e)
	case 3:
		es, err := tk.EncodeBatch([]tokenizer.EncodeInput{in.build(), c.In[(k+1)%len(c.In)].build()}, c.Special)
		if err != nil {
			return "error"
		}
		return show(&es[0], &es[1])
	case 4:
		e, err := tk.Encode(in.build(), true)
		if err != nil {
			return "error"
		}
		return tk.Decode(e.Ids, c.Special)
	case 5:
		return fmt.Sprintf("%q", tk.DecodeBatch(append([][]int{{1, 2, 3}, {}}, c.Ids...), c.Special))
	case 6:
		s := fmt.Sprint(tk.GetVocab(true), tk.GetVocabSize(false), tk.GetSpecialTokens())
		for id := 0; id < 20; id++ {
			tok, ok := tk.IdToToken(id)
			back, ok2 := tk.TokenToId(tok)
			s += fmt.Sprint(tok, ok, back, ok2)
		}
		return s
	}
	var text Str
	if len(in.A.Pieces) > 0 {
		text = in.A.Pieces[0]
	}
	toks, err := tk.Tokenize(string(text), c.Special)
	return fmt.Sprintf("%q %v", toks, err == nil)
}

func runConcurrent(x *Ctx, c concCase) error {
	tk, err := c.C.tokenizer()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	// The goroutines come first, as nothing has been used yet: neither this tokenizer, nor
	// (in the first case of a process) what its parts have in common with others.
	errs := make([]error, c.G)
	got := make([][]string, c.G)
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := range errs {
		got[g] = make([]string, len(c.Do))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[g] = Guard(func() error {
				for j := range c.Do {
					k := (j + g) % len(c.Do)
					got[g][k] = c.C.answer(tk, c.Do[k][0], c.Do[k][1])
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	for i, d := range c.Do {
		alone, err := c.C.tokenizer()
		if err != nil {
			return fmt.Errorf("cannot build: %v", err)
		}
		want := c.C.answer(alone, d[0], d[1])
		x.NonTrivial(len(c.Do) > 2 && len(want) > 20)
		for g := range got {
			if got[g][i] != want {
				return fmt.Errorf("task %v gives %s among %d goroutines, alone %s", d, head(got[g][i], 600), c.G, head(want, 600))
			}
		}
	}
	return nil
}

func genConcurrent(t *rapid.T) concCase {
	b := genBatch(t)
	for len(b.In) == 0 {
		b.In = append(b.In, encIn{A: inputSpec{Pieces: []Str{"a b"}}})
	}
	if b.P.Model.Bpe != nil && b.P.Model.Bpe.Drop > 0 {
		b.P.Model.Bpe.Drop = 0
	}
	c := concCase{C: b, G: rapid.IntRange(2, 6).Draw(t, "goroutines")}
	for k := rapid.IntRange(2, 8).Draw(t, "tasks"); k > 0; k-- {
		c.Do = append(c.Do, [2]int{rapid.IntRange(0, 7).Draw(t, "do"), rapid.IntRange(0, 5).Draw(t, "input")})
	}
	return c
}

// ---------------------------------------------------------------- history

type useStep struct {
	Op    string // do trunc pad proc dec add
	Do    [2]int
	Trunc *truncSpec `json:",omitempty"`
	Pad   *padSpec   `json:",omitempty"`
	Proc  *procSpec  `json:",omitempty"`
	Dec   *decSpec   `json:",omitempty"`
	Add   *avCall    `json:",omitempty"`
}

type useCase struct {
	C     batchCase
	Steps []useStep
}

func runUse(x *Ctx, c useCase) error {
	tk, err := c.C.tokenizer()
	if err != nil {
		return fmt.Errorf("cannot build: %v", err)
	}
	cur := c.C
	cur.P.Calls = append([]avCall{}, cur.P.Calls...)
	done, changes := 0, 0
	for i, s := range c.Steps {
		switch s.Op {
		case "trunc":
			cur.P.Trunc = s.Trunc
			if s.Trunc == nil {
				tk.WithTruncation(nil)
			} else {
				tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: s.Trunc.Max, Stride: s.Trunc.Stride, Strategy: tokenizer.TruncationStrategy(s.Trunc.Strategy)})
			}
		case "pad":
			cur.P.Pad = s.Pad
			if s.Pad == nil {
				tk.WithPadding(nil)
			} else {
				tk.WithPadding(s.Pad.params())
			}
		case "proc":
			cur.P.Proc = s.Proc
			if s.Proc == nil {
				tk.WithPostProcessor(nil)
			} else {
				p, err := s.Proc.build()
				if err != nil {
					return err
				}
				tk.WithPostProcessor(p)
			}
		case "dec":
			cur.Dec = s.Dec
			if s.Dec == nil {
				tk.WithDecoder(nil)
			} else {
				tk.WithDecoder(s.Dec.build())
			}
		case "add":
			cur.P.Calls = append(cur.P.Calls, *s.Add)
			if s.Add.Special {
				tk.AddSpecialTokens(s.Add.build())
			} else {
				tk.AddTokens(s.Add.build())
			}
		default:
			fresh, err := cur.tokenizer()
			if err != nil {
				return fmt.Errorf("cannot build: %v", err)
			}
			got, want := cur.answer(tk, s.Do[0], s.Do[1]), cur.answer(fresh, s.Do[0], s.Do[1])
			if got != want {
				return fmt.Errorf("step %d, task %v gives %s after the history, fresh %s", i, s.Do, head(got, 800), head(want, 800))
			}
			if len(want) > 20 {
				done++
			}
			continue
		}
		changes++
	}
	x.NonTrivial(done > 1)
	x.Label("reconfigured", changes > 0 && done > 0)
	return nil
}

func genUse(t *rapid.T) useCase {
	b := genConcurrent(t).C
	c := useCase{C: b}
	for k := rapid.IntRange(2, 10).Draw(t, "steps"); k > 0; k-- {
		s := useStep{Op: pick(t, "op", []string{"do", "do", "do", "do", "trunc", "pad", "proc", "dec", "add"})}
		on := weighted(t, "on", 1, 3) == 1
		switch s.Op {
		case "do":
			s.Do = [2]int{rapid.IntRange(0, 7).Draw(t, "do"), rapid.IntRange(0, 5).Draw(t, "input")}
		case "trunc":
			if on {
				s.Trunc = genTruncSpec(t)
			}
		case "pad":
			if on {
				s.Pad = genPadSpec(t)
			}
		case "proc":
			if on {
				p := genProcSpec(t, 1)
				s.Proc = &p
			}
		case "dec":
			if on {
				d := genDec(t, 1)
				s.Dec = &d
			}
		case "add":
			calls := genAvCalls(t, 1)
			if len(calls) == 0 {
				s.Op = "do"
				break
			}
			s.Add = &calls[0]
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func init() {
	Prop("C21", "a case counts when several inputs or uses give tokens",
		"each single encoding is the one C01 checks; nobody reconfigures a tokenizer while others use it", "BPE dropout is off", "the normalizer is set before tokens are added")
	Reg("C21", "batch", 40000, 3000000, genBatch, runBatch)
	Reg("C21", "long", 600, 50000, Large(genBatch), runBatch)
	Reg("C21", "history", 40000, 3000000, genUse, runUse)
	f := Reg("C21", "concurrent", 2500, 100000, genConcurrent, runConcurrent)
	f.Race = true
}
