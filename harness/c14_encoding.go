package main

// C14 truncation, C15 padding, C16 merging, C17 lookups: operations on encodings
// against a table model (one row per token).

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/sugarme/tokenizer"
	"pgregory.net/rapid"
)

type row struct {
	Id, Type, Spec, Att, Word int
	Tok                       string
	A, B                      int
	Seq                       int // -1: in no sequence
}

func (r row) String() string {
	return fmt.Sprintf("{id %d type %d tok %q off %d-%d special %d att %d word %d seq %d}", r.Id, r.Type, r.Tok, r.A, r.B, r.Spec, r.Att, r.Word, r.Seq)
}

// table checks that the parallel fields of an encoding have one item per token and
// returns the rows. Words may be missing altogether.
func table(e *tokenizer.Encoding) ([]row, error) {
	n := len(e.Ids)
	for _, l := range []struct {
		name string
		n    int
	}{{"TypeIds", len(e.TypeIds)}, {"Tokens", len(e.Tokens)}, {"Offsets", len(e.Offsets)}, {"SpecialTokenMask", len(e.SpecialTokenMask)}, {"AttentionMask", len(e.AttentionMask)}} {
		if l.n != n {
			return nil, fmt.Errorf("%d ids but %d %s", n, l.n, l.name)
		}
	}
	if len(e.Words) != 0 && len(e.Words) != n {
		return nil, fmt.Errorf("%d ids but %d words", n, len(e.Words))
	}
	if e.Len() != n || e.IsEmpty() != (n == 0) {
		return nil, fmt.Errorf("Len %d IsEmpty %v for %d ids", e.Len(), e.IsEmpty(), n)
	}
	if !sameSlice(e.GetIds(), e.Ids) || !sameSlice(e.GetTypeIds(), e.TypeIds) || !sameSlice(e.GetSpecialTokenMask(), e.SpecialTokenMask) || !sameSlice(e.GetAttentionMask(), e.AttentionMask) || !sameSlice(e.GetWords(), e.Words) || !sameSlice(e.GetTokens(), e.Tokens) || !sameSlice(e.GetOffsets(), e.Offsets) || len(e.GetOverflowing()) != len(e.Overflowing) {
		return nil, fmt.Errorf("a getter gives other values than its column")
	}
	seq := make([]int, n)
	for i := range seq {
		seq[i] = -1
		if len(e.SequenceRanges) == 0 {
			seq[i] = 0
		}
	}
	for id, r := range e.SequenceRanges {
		for _, i := range r {
			if i < 0 || i >= n {
				return nil, fmt.Errorf("sequence %d has token %d of %d", id, i, n)
			}
			if seq[i] >= 0 {
				return nil, fmt.Errorf("token %d is in sequences %d and %d", i, seq[i], id)
			}
			seq[i] = id
		}
	}
	rows := make([]row, n)
	for i := range rows {
		if len(e.Offsets[i]) != 2 {
			return nil, fmt.Errorf("offsets %v of token %d", e.Offsets[i], i)
		}
		w := -1
		if len(e.Words) > 0 {
			w = e.Words[i]
		}
		rows[i] = row{e.Ids[i], e.TypeIds[i], e.SpecialTokenMask[i], e.AttentionMask[i], w, e.Tokens[i], e.Offsets[i][0], e.Offsets[i][1], seq[i]}
	}
	return rows, nil
}

func sameSlice[T any](a, b []T) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0] || reflect.DeepEqual(a, b))
}

func sameRows(what string, got, want []row) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d tokens %v, want %d %v", what, len(got), got, len(want), want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%s: token %d is %v, want %v", what, i, got[i], want[i])
		}
	}
	return nil
}

func expectRows(what string, e *tokenizer.Encoding, want []row) error {
	got, err := table(e)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return sameRows(what, got, want)
}

// encSpec describes an encoding; build gives one that shares nothing.
type encSpec struct {
	Rows     []row
	NoWords  bool
	Ranges   bool
	Overflow []encSpec
}

func (s encSpec) build() *tokenizer.Encoding {
	e := tokenizer.Encoding{Overflowing: []tokenizer.Encoding{}}
	if s.Ranges {
		e.SequenceRanges = map[int]tokenizer.Range{}
	}
	for i, r := range s.Rows {
		e.Ids = append(e.Ids, r.Id)
		e.TypeIds = append(e.TypeIds, r.Type)
		e.Tokens = append(e.Tokens, r.Tok)
		e.Offsets = append(e.Offsets, []int{r.A, r.B})
		e.SpecialTokenMask = append(e.SpecialTokenMask, r.Spec)
		e.AttentionMask = append(e.AttentionMask, r.Att)
		if !s.NoWords {
			e.Words = append(e.Words, r.Word)
		}
		if s.Ranges && r.Seq >= 0 {
			e.SequenceRanges[r.Seq] = append(e.SequenceRanges[r.Seq], i)
		}
	}
	for _, o := range s.Overflow {
		e.Overflowing = append(e.Overflowing, *o.build())
	}
	return &e
}

// rows as the built encoding shows them
func (s encSpec) rows() []row {
	has := false
	for _, r := range s.Rows {
		has = has || (s.Ranges && r.Seq >= 0)
	}
	out := append([]row{}, s.Rows...)
	for i := range out {
		if s.NoWords {
			out[i].Word = -1
		}
		if !has {
			out[i].Seq = 0
		}
	}
	return out
}

var rowSerial int

func genEncSpec(t *rapid.T, depth, max int, base int) encSpec {
	var s encSpec
	n := upTo(t, "n", max, 50*max)
	s.NoWords = weighted(t, "nowords", 4, 1) == 1
	s.Ranges = weighted(t, "ranges", 1, 3) == 1
	nseq := rapid.IntRange(1, 2).Draw(t, "nseq")
	seqBase := rapid.IntRange(0, 2-nseq).Draw(t, "seqbase")
	pos, word, seq := rapid.IntRange(0, 2).Draw(t, "pos"), 0, seqBase
	started, closed := false, false
	for i := 0; i < n; i++ {
		r := row{Id: base + i, Type: rapid.IntRange(0, 1).Draw(t, "ty"), Att: 1, Word: -1, Seq: -1}
		r.Tok = fmt.Sprintf("t%d", base+i)
		kind := weighted(t, "kind", 5, 1, 1)
		if kind == 1 { // a special token: in no sequence; it ends the sequence
			r.Spec = 1
			if started {
				closed = true
			}
		} else {
			if closed {
				if seq+1 < seqBase+nseq {
					seq++
					word, pos = 0, 0
				}
				closed = false
				started = false
			}
			if started || seq == seqBase || true {
				r.Seq = seq
			}
			if started && rapid.Bool().Draw(t, "newword") {
				word++
				pos += rapid.IntRange(0, 2).Draw(t, "gap")
			}
			started = true
			l := rapid.IntRange(0, 3).Draw(t, "len")
			r.A, r.B = pos, pos+l
			pos += l
			r.Word = word
			if kind == 2 {
				r.Word = -1
				word++
			}
		}
		s.Rows = append(s.Rows, r)
	}
	// a sequence is one range: what follows a special token in the last sequence is outside
	last := map[int]int{}
	for i, r := range s.Rows {
		if r.Seq < 0 {
			continue
		}
		if p, ok := last[r.Seq]; ok && p != i-1 {
			s.Rows[i].Seq = -1
			s.Rows[i].Word = -1
			continue
		}
		last[r.Seq] = i
	}
	if depth > 0 {
		for k := weighted(t, "nover", 3, 1, 1); k > 0; k-- {
			s.Overflow = append(s.Overflow, genEncSpec(t, depth-1, max, base+100*k))
		}
	}
	return s
}

// ------------------------------------------------------------- C14 truncation

type truncCase struct {
	E              encSpec
	MaxLen, Stride int
	Dir            int
}

// windowRows are the rows of a part: which sequence a token is in does not change.
func windowRows(rows []row, a, b int) []row { return append([]row{}, rows[a:b]...) }

func checkWindows(e *tokenizer.Encoding, rows []row, maxLen, stride int) error {
	if err := expectRows("kept part", e, windowRows(rows, 0, maxLen)); err != nil {
		return err
	}
	step := maxLen - stride
	k := 0
	for start := step; start+stride < len(rows); start += step {
		end := start + maxLen
		if end > len(rows) {
			end = len(rows)
		}
		if k >= len(e.Overflowing) {
			return fmt.Errorf("%d overflowing parts: tokens from %d on are lost", k, start+stride)
		}
		if err := expectRows(fmt.Sprintf("overflowing part %d", k), &e.Overflowing[k], windowRows(rows, start, end)); err != nil {
			return err
		}
		if len(e.Overflowing[k].Overflowing) > 0 {
			return fmt.Errorf("overflowing part %d has overflowing parts", k)
		}
		k++
	}
	if k != len(e.Overflowing) {
		return fmt.Errorf("%d overflowing parts, want %d", len(e.Overflowing), k)
	}
	return nil
}

// scribble overwrites everything an encoding holds, overflowing parts excepted.
func scribble(e *tokenizer.Encoding) {
	for i := range e.Ids {
		e.Ids[i], e.TypeIds[i], e.Tokens[i], e.SpecialTokenMask[i], e.AttentionMask[i] = -7, -7, "scribble", -7, -7
	}
	for i := range e.Words {
		e.Words[i] = -7
	}
	for i := range e.Offsets {
		e.Offsets[i] = []int{-7, -7}
	}
	e.Ids = append(e.Ids, -8)
	e.TypeIds = append(e.TypeIds, -8)
	e.Tokens = append(e.Tokens, "scribble")
	e.SpecialTokenMask = append(e.SpecialTokenMask, -8)
	e.AttentionMask = append(e.AttentionMask, -8)
	e.Words = append(e.Words, -8)
	e.Offsets = append(e.Offsets, []int{-8, -8})
	for _, r := range e.SequenceRanges {
		for i := range r {
			r[i] = -7
		}
	}
}

func runTruncate(x *Ctx, c truncCase) error {
	e := c.E.build()
	copied := *e
	rows := c.E.rows()
	n := len(rows)
	got, err := e.Truncate(c.MaxLen, c.Stride)
	bad := c.MaxLen <= 0 || c.Stride >= c.MaxLen || c.Stride < 0
	x.Label("refused", bad)
	x.Label("nothing to do", !bad && c.MaxLen >= n)
	if bad {
		if err == nil {
			return fmt.Errorf("max length %d with stride %d is accepted", c.MaxLen, c.Stride)
		}
		return sameEncoding("refused truncation changes the encoding", e, c.E.build())
	}
	if err != nil {
		return fmt.Errorf("max length %d with stride %d: %v", c.MaxLen, c.Stride, err)
	}
	if c.MaxLen >= n {
		return sameEncoding("nothing to truncate", got, c.E.build())
	}
	x.NonTrivial(true)
	if !hasSeq(c.E) {
		for i := range rows {
			rows[i].Seq = 0
		}
	}
	if err := checkWindows(got, rows, c.MaxLen, c.Stride); err != nil {
		return err
	}
	if err := sameCopy("truncated", copied, c.E); err != nil {
		return err
	}
	x.Label("several parts", len(got.Overflowing) > 1)
	x.Label("stride", c.Stride > 0)
	// the parts are independent of each other
	parts := got.Overflowing
	for k := -1; k < len(parts); k++ {
		if k < 0 {
			cp := *got
			scribble(&cp)
		} else {
			scribble(&parts[k])
		}
		step := c.MaxLen - c.Stride
		for j := k + 1; j < len(parts); j++ {
			if len(parts) > 40 && j > k+2 && j != len(parts)-1 {
				continue
			}
			a := (j + 1) * step
			b := a + c.MaxLen
			if b > n {
				b = n
			}
			if err := expectRows(fmt.Sprintf("part %d after part %d is written to", j, k), &parts[j], windowRows(rows, a, b)); err != nil {
				return err
			}
		}
	}
	return nil
}

// sameCopy: a copy of an encoding (the API hands encodings around by value) keeps its
// own tokens when the encoding is changed. Overflowing parts are shared by copies.
func sameCopy(what string, e tokenizer.Encoding, s encSpec) error {
	e.Overflowing = nil
	s.Overflow = nil
	return sameEncoding("the copy of an encoding which is "+what, &e, s.build())
}

func hasSeq(s encSpec) bool {
	for _, r := range s.Rows {
		if s.Ranges && r.Seq >= 0 {
			return true
		}
	}
	return false
}

// sameEncoding compares two encodings deeply, overflowing parts included; a nil and
// an empty list are the same.
func sameEncoding(what string, got, want *tokenizer.Encoding) error {
	g, err := table(got)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	w, err := table(want)
	if err != nil {
		return fmt.Errorf("%s: reference: %v", what, err)
	}
	if err := sameRows(what, g, w); err != nil {
		return err
	}
	if len(got.Overflowing) != len(want.Overflowing) {
		return fmt.Errorf("%s: %d overflowing parts, want %d", what, len(got.Overflowing), len(want.Overflowing))
	}
	for i := range got.Overflowing {
		if err := sameEncoding(fmt.Sprintf("%s, overflowing part %d", what, i), &got.Overflowing[i], &want.Overflowing[i]); err != nil {
			return err
		}
	}
	return nil
}

type truncPairCase struct {
	A        encSpec
	B        *encSpec
	MaxLen   int
	Stride   int
	Strategy int
}

func runTruncPair(x *Ctx, c truncPairCase) error {
	a := c.A.build()
	var b *tokenizer.Encoding
	nb := 0
	ra := c.A.rows()
	var rb []row
	if c.B != nil {
		b = c.B.build()
		rb = c.B.rows()
		nb = len(rb)
	}
	na := len(ra)
	var ta, tb *tokenizer.Encoding
	err := Guard(func() error {
		ta, tb = tokenizer.TruncateEncodings(a, b, &tokenizer.TruncationParams{MaxLength: c.MaxLen, Stride: c.Stride, Strategy: tokenizer.TruncationStrategy(c.Strategy)})
		return nil
	})
	total := na + nb
	if c.MaxLen == 0 || total <= c.MaxLen {
		if err != nil {
			return fmt.Errorf("%d tokens within %d: %v", total, c.MaxLen, err)
		}
		if err := sameEncoding("first, within the limit", ta, c.A.build()); err != nil {
			return err
		}
		if c.B != nil {
			return sameEncoding("second, within the limit", tb, c.B.build())
		}
		return nil
	}
	x.NonTrivial(true)
	remove := total - c.MaxLen
	switch tokenizer.TruncationStrategy(c.Strategy) {
	case tokenizer.OnlyFirst:
		if na <= remove {
			if err == nil {
				return fmt.Errorf("only the first, too short (%d tokens, %d to remove), is accepted", na, remove)
			}
			x.Label("refused", true)
			return nil
		}
	case tokenizer.OnlySecond:
		if c.B == nil || nb <= remove {
			if err == nil {
				return fmt.Errorf("only the second, missing or too short (%d tokens, %d to remove), is accepted", nb, remove)
			}
			x.Label("refused", true)
			return nil
		}
	}
	if err != nil {
		if !strings.Contains(err.Error(), "log.Fatal") {
			return err
		}
		// only a stride that does not fit in what is kept is a reason
		if c.Stride*2+1 < c.MaxLen && c.Strategy == 0 {
			return fmt.Errorf("refused although stride %d fits: %v", c.Stride, err)
		}
		if c.Strategy == int(tokenizer.OnlyFirst) && c.Stride < na-remove || c.Strategy == int(tokenizer.OnlySecond) && c.Stride < nb-remove {
			return fmt.Errorf("refused although stride %d fits: %v", c.Stride, err)
		}
		x.Label("refused", true)
		return nil
	}
	ka, kb := ta.Len(), 0
	if tb != nil {
		kb = tb.Len()
	}
	if ka+kb != c.MaxLen {
		return fmt.Errorf("%d+%d tokens truncated to %d+%d, the limit is %d", na, nb, ka, kb, c.MaxLen)
	}
	switch tokenizer.TruncationStrategy(c.Strategy) {
	case tokenizer.LongestFirst:
		wa, wb := longestFirst(na, nb, remove)
		if ka != wa || kb != wb {
			return fmt.Errorf("longest first: %d+%d tokens truncated to %d+%d, want %d+%d", na, nb, ka, kb, wa, wb)
		}
	case tokenizer.OnlyFirst:
		if kb != nb {
			return fmt.Errorf("only the first: the second is truncated from %d to %d", nb, kb)
		}
	case tokenizer.OnlySecond:
		if ka != na {
			return fmt.Errorf("only the second: the first is truncated from %d to %d", na, ka)
		}
	}
	chk := func(what string, e *tokenizer.Encoding, s encSpec, rows []row) error {
		k := e.Len()
		if k == len(rows) {
			return sameEncoding(what+" (not truncated)", e, s.build())
		}
		if k == 0 {
			return lostNothing(what, e, rows)
		}
		x.Label("parts", true)
		if err := checkWindows(e, rows, k, c.Stride); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return nil
	}
	if err := chk("first", ta, c.A, ra); err != nil {
		return err
	}
	if c.B != nil {
		return chk("second", tb, *c.B, rb)
	}
	return nil
}

// longestFirst takes tokens off the longer side, the second one when both are equal.
func longestFirst(a, b, remove int) (int, int) {
	for ; remove > 0; remove-- {
		if a > b {
			a--
		} else {
			b--
		}
	}
	return a, b
}

// lostNothing: every row is in the encoding or in an overflowing part.
func lostNothing(what string, e *tokenizer.Encoding, rows []row) error {
	have := map[row]bool{}
	var add func(e *tokenizer.Encoding) error
	add = func(e *tokenizer.Encoding) error {
		rs, err := table(e)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for _, r := range rs {
			have[r] = true
		}
		for i := range e.Overflowing {
			if err := add(&e.Overflowing[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if err := add(e); err != nil {
		return err
	}
	for i, r := range rows {
		if !have[r] {
			return fmt.Errorf("%s: token %d %v is lost", what, i, r)
		}
	}
	return nil
}

// ------------------------------------------------------------- C15 padding

type padCase struct {
	E                []encSpec
	Target           int
	Left, Fixed      bool
	PadId, PadTypeId int
	PadToken         string
}

func padRows(rows []row, c padCase, target int) []row {
	var pad []row
	for i := len(rows); i < target; i++ {
		pad = append(pad, row{Id: c.PadId, Type: c.PadTypeId, Spec: 1, Att: 0, Word: -1, Tok: c.PadToken, Seq: -1})
	}
	if c.Left {
		return append(pad, rows...)
	}
	return append(append([]row{}, rows...), pad...)
}

func checkPadded(what string, got *tokenizer.Encoding, s encSpec, c padCase, target int) error {
	want := padRows(s.rows(), c, target)
	if !hasSeq(s) { // no ranges at all: one sequence, padding included
		for i := range want {
			want[i].Seq = 0
		}
	}
	if err := expectRows(what, got, want); err != nil {
		return err
	}
	if (!s.NoWords || len(s.Rows) == 0) && len(got.Ids) > 0 && len(got.Words) == 0 {
		return fmt.Errorf("%s: the words are lost", what)
	}
	if len(got.Overflowing) != len(s.Overflow) {
		return fmt.Errorf("%s: %d overflowing parts, want %d", what, len(got.Overflowing), len(s.Overflow))
	}
	for i := range s.Overflow {
		if err := checkPadded(fmt.Sprintf("%s, overflowing part %d", what, i), &got.Overflowing[i], s.Overflow[i], c, target); err != nil {
			return err
		}
	}
	return nil
}

func (c padCase) dir() tokenizer.PaddingDirection {
	if c.Left {
		return tokenizer.Left
	}
	return tokenizer.Right
}

func runPad(x *Ctx, c padCase) error {
	for i, s := range c.E {
		e := s.build()
		copied := *e
		got := e.Pad(c.Target, c.PadId, c.PadTypeId, c.PadToken, c.dir())
		x.NonTrivial(len(s.Rows) > 0 && len(s.Rows) < c.Target)
		x.Label("too long already", len(s.Rows) > c.Target)
		x.Label("overflowing", len(s.Overflow) > 0)
		if err := checkPadded(fmt.Sprintf("encoding %d", i), got, s, c, c.Target); err != nil {
			return err
		}
		if err := sameCopy("padded", copied, s); err != nil {
			return err
		}
	}
	return nil
}

func runPadBatch(x *Ctx, c padCase) error {
	var es []tokenizer.Encoding
	longest := 0
	for _, s := range c.E {
		es = append(es, *s.build())
		if len(s.Rows) > longest {
			longest = len(s.Rows)
		}
	}
	target := longest
	strat := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if c.Fixed {
		strat = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(c.Target))
		target = c.Target
	}
	got := tokenizer.PadEncodings(es, tokenizer.PaddingParams{Strategy: *strat, Direction: c.dir(), PadId: c.PadId, PadTypeId: c.PadTypeId, PadToken: c.PadToken})
	if len(got) != len(c.E) {
		return fmt.Errorf("%d encodings padded to %d", len(c.E), len(got))
	}
	x.Label("fixed", c.Fixed)
	for i, s := range c.E {
		x.NonTrivial(len(c.E) > 1 && len(s.Rows) < target)
		if err := checkPadded(fmt.Sprintf("encoding %d of the batch", i), &got[i], s, c, target); err != nil {
			return err
		}
	}
	return nil
}

func genPadCase(t *rapid.T) padCase {
	c := padCase{Target: upTo(t, "target", 12, 700), Left: rapid.Bool().Draw(t, "left"), Fixed: rapid.Bool().Draw(t, "fixed"),
		PadId: rapid.IntRange(0, 9).Draw(t, "padid"), PadTypeId: rapid.IntRange(0, 3).Draw(t, "padtype"), PadToken: "[PAD]"}
	for i := rapid.IntRange(0, 4).Draw(t, "count"); i >= 0; i-- {
		c.E = append(c.E, genEncSpec(t, 2, 8, 1000*(i+1)))
	}
	return c
}

// ------------------------------------------------------------- C16 merging

type mergeCase struct {
	E       []encSpec
	Growing bool
	How     int
}

// mEnc is the model of an encoding with its parts.
type mEnc struct {
	rows []row
	seqs bool
	over []mEnc
}

func mOf(s encSpec) mEnc {
	m := mEnc{rows: append([]row{}, s.Rows...), seqs: hasSeq(s)}
	for i := range m.rows {
		if s.NoWords {
			m.rows[i].Word = -1
		}
		if !s.Ranges {
			m.rows[i].Seq = -1
		}
	}
	for _, o := range s.Overflow {
		m.over = append(m.over, mOf(o))
	}
	return m
}

func (m mEnc) merge(p mEnc, growing bool) mEnc {
	var out mEnc
	for _, o := range m.over {
		out.over = append(out.over, o.merge(p, growing))
		for _, po := range p.over {
			out.over = append(out.over, o.merge(po, growing))
		}
	}
	for _, po := range p.over {
		out.over = append(out.over, m.merge(po, growing))
	}
	out.seqs = m.seqs || p.seqs
	out.rows = append(out.rows, m.rows...)
	shift := 0
	if growing && len(m.rows) > 0 {
		shift = m.rows[len(m.rows)-1].B
	}
	for _, r := range p.rows {
		r.A += shift
		r.B += shift
		out.rows = append(out.rows, r)
	}
	return out
}

func (m mEnc) check(what string, e *tokenizer.Encoding) error {
	want := append([]row{}, m.rows...)
	if !m.seqs {
		for i := range want {
			want[i].Seq = 0
		}
	}
	if err := expectRows(what, e, want); err != nil {
		return err
	}
	if len(e.Overflowing) != len(m.over) {
		return fmt.Errorf("%s: %d overflowing parts, want %d", what, len(e.Overflowing), len(m.over))
	}
	for i := range m.over {
		if err := m.over[i].check(fmt.Sprintf("%s, overflowing part %d", what, i), &e.Overflowing[i]); err != nil {
			return err
		}
	}
	return nil
}

func runMerge(x *Ctx, c mergeCase) error {
	var es []tokenizer.Encoding
	for _, s := range c.E {
		es = append(es, *s.build())
	}
	if len(es) == 0 {
		if e := tokenizer.MergeEncodings(nil, c.Growing); e != nil {
			return expectRows("no encodings merged", e, nil)
		}
		return nil
	}
	x.NonTrivial(len(es) > 1 && len(c.E[0].Rows) > 0 && len(c.E[1].Rows) > 0)
	want := mOf(c.E[0])
	for _, s := range c.E[1:] {
		want = want.merge(mOf(s), c.Growing)
	}
	x.Label("overflowing", len(want.over) > 0)
	copied := es[0]
	var got *tokenizer.Encoding
	switch c.How {
	case 0:
		got = tokenizer.MergeEncodings(es, c.Growing)
	case 1:
		got = (&es[0]).Merge(es[1:], c.Growing)
	default:
		got = &es[0]
		for i := 1; i < len(es); i++ {
			got = got.MergeWith(&es[i], c.Growing)
		}
	}
	if err := want.check("merged", got); err != nil {
		return err
	}
	if err := sameCopy("merged", copied, c.E[0]); err != nil {
		return err
	}
	// the others are left as they are, and are not part of the result
	for i := 1; i < len(es); i++ {
		if err := sameEncoding(fmt.Sprintf("encoding %d after it is merged", i), &es[i], c.E[i].build()); err != nil {
			return err
		}
		scribble(&es[i])
	}
	return want.check("merged, after the others are written to", got)
}

// ------------------------------------------------------------- C17 lookups

func runLookups(x *Ctx, s encSpec) error {
	e := s.build()
	rows := s.rows()
	n := len(rows)
	x.NonTrivial(n > 2 && !s.NoWords)
	maxPos, maxWord := 0, 0
	for _, r := range rows {
		if r.B > maxPos {
			maxPos = r.B
		}
		if r.Word > maxWord {
			maxWord = r.Word
		}
	}
	seqIds := e.GetSequenceIds()
	if len(seqIds) != n {
		return fmt.Errorf("%d sequence ids for %d tokens", len(seqIds), n)
	}
	nseq := map[int]bool{}
	for _, r := range rows {
		if r.Seq >= 0 {
			nseq[r.Seq] = true
		}
	}
	if hasSeq(s) && e.NSequences() != len(nseq) || !hasSeq(s) && e.NSequences() != 1 {
		return fmt.Errorf("%d sequences, want %d", e.NSequences(), len(nseq))
	}
	for i := -2; i < n+3; i++ {
		in := i >= 0 && i < n
		if sq, ok := e.Token2Sequence(i); ok != (in && rows[max(0, min(i, n-1))].Seq >= 0) || ok && sq != rows[i].Seq {
			return fmt.Errorf("Token2Sequence(%d) = %d, %v", i, sq, ok)
		}
		of, ok := e.Token2Chars(i)
		if ok != in || ok && (of[0] != rows[i].A || of[1] != rows[i].B) {
			return fmt.Errorf("Token2Chars(%d) = %v, %v", i, of, ok)
		}
		w, ok := e.Token2Word(i)
		wantW := in && rows[i].Word >= 0
		if ok && w < 0 {
			ok = false // "None value = -1"
		}
		if ok != wantW || ok && w != rows[i].Word {
			return fmt.Errorf("Token2Word(%d) = %d, %v", i, w, ok)
		}
		if in && rows[i].Seq >= 0 && seqIds[i] != rows[i].Seq {
			return fmt.Errorf("sequence id of token %d is %d, want %d", i, seqIds[i], rows[i].Seq)
		}
	}
	for pos := -1; pos < maxPos+2; pos++ {
		want := -1
		for i, r := range rows {
			if r.A <= pos && pos < r.B {
				want = i
				break
			}
		}
		got, ok := e.Char2Token(pos)
		if ok != (want >= 0) || ok && got != want {
			return fmt.Errorf("Char2Token(%d) = %d, %v, want %d", pos, got, ok, want)
		}
		w, ok := e.Char2Word(pos)
		if ok && w < 0 {
			ok = false
		}
		if ok != (want >= 0 && rows[max(want, 0)].Word >= 0) || ok && w != rows[want].Word {
			return fmt.Errorf("Char2Word(%d) = %d, %v", pos, w, ok)
		}
	}
	for w := -2; w < maxWord+3; w++ {
		first, last := -1, -1
		if w >= 0 {
			for i, r := range rows {
				if r.Word == w {
					if first < 0 {
						first, last = i, i
					} else if last == i-1 && rows[i].Seq == rows[first].Seq {
						last = i
					}
				}
			}
		}
		a, b, ok := e.Word2Tokens(w)
		if ok != (first >= 0) || ok && (a != first || b != last+1) {
			return fmt.Errorf("Word2Tokens(%d) = %d, %d, %v, want %d, %d", w, a, b, ok, first, last+1)
		}
		ch, ok := e.Word2Chars(w)
		if ok != (first >= 0) || ok && (ch[0] != rows[first].A || ch[1] != rows[last].B) {
			return fmt.Errorf("Word2Chars(%d) = %v, %v", w, ch, ok)
		}
		x.Label("word of several tokens", first >= 0 && last > first)
	}
	for sq := -1; sq < 4; sq++ {
		var want []int
		for i, r := range rows {
			if r.Seq == sq && sq >= 0 {
				want = append(want, i)
			}
		}
		r, err := e.SequenceRange(sq)
		known := nseq[sq] || !hasSeq(s) && sq == 0
		if (err == nil) != known {
			return fmt.Errorf("SequenceRange(%d): %v, %v", sq, r, err)
		}
		if err == nil && (len(r) != len(want) || len(r) > 0 && !reflect.DeepEqual([]int(r), want)) {
			return fmt.Errorf("SequenceRange(%d) = %v, want %v", sq, r, want)
		}
	}
	if err := sameEncoding("after the lookups", e, s.build()); err != nil || hasSeq(s) {
		return err
	}
	// naming the sequence
	copied := *e
	e.SetSequenceIds(1)
	for i := range rows {
		rows[i].Seq = 1
	}
	if err := expectRows("named sequence 1", e, rows); err != nil {
		return err
	}
	return sameCopy("named", copied, s)
}

type copyCase struct {
	E    encSpec
	Type int
	Set  []int // new values of words, by turns
}

// runCopies: an encoding made of its columns or of tokens, cloned, changed by its
// setters or taken apart.
func runCopies(x *Ctx, c copyCase) error {
	e := c.E.build()
	n := len(c.E.Rows)
	x.NonTrivial(n > 1)
	opts := []tokenizer.EncodingOpt{tokenizer.WithSequenceRangeEncodingOpt(e.SequenceRanges)}
	if !c.E.NoWords {
		opts = append(opts, tokenizer.WithWordsEncodingOpt(e.Words))
	}
	made := tokenizer.NewEncoding(e.Ids, e.TypeIds, e.Tokens, e.Offsets, e.SpecialTokenMask, e.AttentionMask, e.Overflowing, opts...)
	if err := sameEncoding("made of its columns", made, e); err != nil {
		return err
	}
	clone := e.Clone()
	if err := sameEncoding("the clone", clone, e); err != nil {
		return err
	}
	if err := sameEncoding("after cloning", e, c.E.build()); err != nil {
		return err
	}
	scribbleAll(clone)
	if err := sameEncoding("after the clone is written to", e, c.E.build()); err != nil {
		return err
	}
	clone = e.Clone()
	scribbleAll(e)
	if err := sameEncoding("the clone, after the encoding is written to", clone, c.E.build()); err != nil {
		return err
	}
	// taken apart and put together again
	e = c.E.build()
	parts := e.TakeOverflowing()
	whole := c.E
	whole.Overflow = nil
	if err := sameEncoding("without its overflowing parts", e, whole.build()); err != nil {
		return err
	}
	if len(parts) != len(c.E.Overflow) || len(e.TakeOverflowing()) != 0 {
		return fmt.Errorf("%d overflowing parts are taken, then %d, want %d", len(parts), len(e.TakeOverflowing()), len(c.E.Overflow))
	}
	x.Label("overflow", len(parts) > 0)
	e.SetOverflowing(parts)
	if err := sameEncoding("with its overflowing parts again", e, c.E.build()); err != nil {
		return err
	}
	// setters
	rows := c.E.rows()
	types := make([]int, n)
	for i := range rows {
		types[i] = c.Type + i
		rows[i].Type = types[i]
		if !c.E.NoWords && i%2 == 0 {
			rows[i].Word = c.Set[i%len(c.Set)]
			e.SetWord(i, rows[i].Word)
		}
	}
	e.SetTypeIds(types)
	if err := expectRows("with other words and types", e, rows); err != nil {
		return err
	}
	// made of tokens
	var toks []tokenizer.Token
	for i := range rows {
		r := &rows[i]
		toks = append(toks, tokenizer.NewToken(r.Id, r.Tok, []int{r.A, r.B}))
		r.Type, r.Spec, r.Att, r.Word, r.Seq = c.Type, 0, 1, -1, 0
	}
	if err := expectRows("made of tokens", tokenizer.NewEncodingFromTokens(toks, c.Type), rows); err != nil {
		return err
	}
	return expectRows("default", tokenizer.DefaultEncoding(), nil)
}

func scribbleAll(e *tokenizer.Encoding) {
	for i := range e.Overflowing {
		scribbleAll(&e.Overflowing[i])
	}
	scribble(e)
}

func init() {
	Prop("C14", "a case counts when the encoding has to be truncated",
		"maximum length and stride are not negative; truncation that cannot be done (stride not below the kept length, the only sequence to truncate too short or missing) must be refused, not ignored")
	Prop("C15", "a case counts when an encoding is shorter than the target length")
	Prop("C16", "a case counts when two encodings with tokens are merged",
		"which overflowing parts a merge gives follows the combination rule pinned by the repository's own tests")
	Prop("C17", "a case counts when the encoding has three tokens or more, and words",
		"words are contiguous within their sequence, as the pipeline makes them")
	trunc := func(t *rapid.T) truncCase {
		return truncCase{E: genEncSpec(t, weighted(t, "depth", 3, 1), 14, 10), MaxLen: upTo(t, "max", 17, 900) - 1, Stride: weighted(t, "stride", 6, 3, 3, 2, 1, 1, 1) + upTo(t, "more stride", 0, 300) - weighted(t, "negative", 20, 1)*3, Dir: 0}
	}
	genTrunc = trunc
	Reg("C14", "truncate", 600000, 20000000, trunc, runTruncate)
	Reg("C14", "long", 3000, 200000, Large(trunc), runTruncate)
	strategies := func(t *rapid.T) truncPairCase {
		c := truncPairCase{A: genEncSpec(t, 0, 12, 10), MaxLen: upTo(t, "max", 16, 900), Stride: weighted(t, "stride", 6, 3, 2, 1, 1) + upTo(t, "more stride", 0, 300), Strategy: rapid.IntRange(0, 2).Draw(t, "strategy")}
		if weighted(t, "pair", 1, 3) == 1 {
			b := genEncSpec(t, 0, 12, 500)
			c.B = &b
		}
		return c
	}
	genStrategies = strategies
	Reg("C14", "strategies", 1000000, 20000000, strategies, runTruncPair)
	Reg("C14", "long-strategies", 3000, 200000, Large(strategies), runTruncPair)
	Reg("C15", "pad", 300000, 10000000, genPadCase, runPad)
	Reg("C15", "batch", 300000, 10000000, genPadCase, runPadBatch)
	Reg("C15", "long", 4000, 100000, Large(genPadCase), runPad)
	Reg("C15", "long-batch", 4000, 100000, Large(genPadCase), runPadBatch)
	merge := func(t *rapid.T) mergeCase {
		c := mergeCase{Growing: rapid.Bool().Draw(t, "growing"), How: rapid.IntRange(0, 2).Draw(t, "how")}
		for i := weighted(t, "count", 1, 2, 8, 3, 1); i > 0; i-- {
			d := 0
			if len(c.E) < 3 {
				d = weighted(t, "depth", 3, 1)
			}
			c.E = append(c.E, genEncSpec(t, d, 5, 1000*i))
		}
		return c
	}
	genMerge = merge
	Reg("C16", "merge", 1000000, 10000000, merge, runMerge)
	Reg("C16", "long", 6000, 100000, Large(merge), runMerge)
	lookups := func(t *rapid.T) encSpec { return genEncSpec(t, 0, 14, 10) }
	genLookups = lookups
	Reg("C17", "lookups", 800000, 20000000, lookups, runLookups)
	copies := func(t *rapid.T) copyCase {
		return copyCase{genEncSpec(t, weighted(t, "depth", 2, 1, 1), 8, 10), rapid.IntRange(-1, 3).Draw(t, "type"), rapid.SliceOfN(rapid.IntRange(-1, 9), 1, 3).Draw(t, "words")}
	}
	Reg("C17", "copies", 300000, 3000000, copies, runCopies)
	Reg("C17", "long", 6000, 100000, Large(lookups), runLookups)
}
