package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The huge cases: texts, words, encodings and lists which go beyond the sizes a buffer,
// a 16 bits number or a table would be given. A small case is drawn, then repeated.

// the generators they are made from, set where these are registered
var (
	genHistory    func(*rapid.T) nsCase
	history       func(*Ctx, nsCase) error
	genCase       func(*rapid.T) bpeCase
	genNormCase   func(*rapid.T) normCase
	genSplit      func(*rapid.T) splitCase
	genPretokCase func(*rapid.T) pretokCase
	genTrunc      func(*rapid.T) truncCase
	genStrategies func(*rapid.T) truncPairCase
	genMerge      func(*rapid.T) mergeCase
	genProcCase   func(*rapid.T) procCase
	genLookups    func(*rapid.T) encSpec
)

// the ids of the first tokens of the models
var idBases = []int{0, 7, 250, 65530, 1<<24 + 1, 1<<33 + 5}

var hugeSizes = []int{1100, 2100, 4200, 8300, 17000, 34000, 66000}

// hugeTo draws how many bytes, tokens... there are at least.
func hugeTo(t *rapid.T, max int) int {
	n := len(hugeSizes)
	for n > 1 && hugeSizes[n-1] > max {
		n--
	}
	return hugeSizes[rapid.IntRange(0, n-1).Draw(t, "huge")]
}

// grow repeats s, with something else somewhere in the repetitions.
func grow(t *rapid.T, s string, max int) string {
	if s == "" {
		s = "ab "
	}
	size := hugeTo(t, max)
	k := (size + len(s) - 1) / len(s)
	at := rapid.IntRange(0, 4).Draw(t, "odd at") * k / 4
	odd := ""
	if at < k && rapid.Bool().Draw(t, "odd") {
		odd = genPiece(t)
	}
	s = strings.Repeat(s, at) + odd + strings.Repeat(s, k-at)
	if weighted(t, "exact", 2, 1) == 1 { // a power of 2, or next to it
		n := 1
		for n*2 <= len(s)+1 {
			n *= 2
		}
		n = min(len(s), n+rapid.IntRange(-1, 1).Draw(t, "exactly"))
		for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
			n--
		}
		s = s[:n]
	}
	return s
}

// growOver repeats the overflowing parts, with other ids.
func growOver(t *rapid.T, s encSpec, max int) encSpec {
	if len(s.Overflow) == 0 {
		return s
	}
	n := []int{20, 40, 70, 140, 300, 600, 1200}[rapid.IntRange(0, 6).Draw(t, "parts")]
	var out []encSpec
	for i := 0; len(out) < min(n, max); i++ {
		for _, o := range s.Overflow {
			o.Rows = append([]row{}, o.Rows...)
			for j := range o.Rows {
				o.Rows[j].Id += 1000 * i
			}
			out = append(out, o)
		}
	}
	s.Overflow = out
	return s
}

var replacing = regexp.MustCompile(`"(Kind|Op)":"(replace|replacere|metaspace|metaspace-old|llama)"`)

// the byte-level pre-tokenizer compiles its pattern for each of the pieces
var slowSeq = regexp.MustCompile(`"Kind":"seq".*"Kind":"bytelevel`)

// sizeFor bounds the text of a case: what replaces costs, by match, the length of the
// text (NormalizedString.Replace), which is slow and not wrong.
func sizeFor(c any) int {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if replacing.Match(b) {
		return 4200
	}
	if slowSeq.Match(b) {
		return 8300
	}
	return 66000
}

// sizeForModel bounds the text given to a model: a word costs the square of its length.
func sizeForModel(c any) int { return min(8300, sizeFor(c)) }

// growRows repeats each row, with an id of its own.
func growRows(t *rapid.T, s encSpec, max int) encSpec {
	if len(s.Rows) == 0 {
		return s
	}
	k := 1 + hugeTo(t, max)/len(s.Rows)
	var out []row
	shift := 0
	for _, r := range s.Rows {
		for i := 0; i < k; i++ {
			q := r
			q.Id += i * 1000
			if q.Seq >= 0 {
				q.A, q.B = r.A+shift, r.B+shift
				if i < k-1 {
					shift += r.B - r.A
				}
			}
			out = append(out, q)
		}
	}
	s.Rows = out
	return s
}

// Huge draws a case and makes it huge.
func Huge[C any](gen func(*rapid.T) C, enlarge func(*rapid.T, C) C) func(*rapid.T) C {
	return func(t *rapid.T) C { return enlarge(t, gen(t)) }
}

func init() {
	Reg("C01", "huge", 30, 2000, Huge(genEncode, func(t *rapid.T, c encCase) encCase {
		c.A = growInput(t, c.A, sizeForModel(c))
		if c.P.Trunc != nil {
			c.P.Trunc.Max = max(700, c.P.Trunc.Max*60)
			c.B = nil
		}
		return c
	}), runEncode)
	Reg("C02", "huge", 60, 4000, Huge(genSequence, func(t *rapid.T, c seqCase) seqCase {
		c.In = growInput(t, c.In, sizeForModel(c))
		return c
	}), runSequence)
	Reg("C03", "huge", 200, 5000, Huge(genHistory, func(t *rapid.T, c nsCase) nsCase {
		k := 1 + len(c.Text)
		c.Text = grow(t, c.Text, sizeFor(c))
		for i := range c.Ops {
			c.Ops[i].A *= len(c.Text) / k / 8
			c.Ops[i].B *= len(c.Text) / k / 8
		}
		return c
	}), history)
	Reg("C04", "huge", 200, 5000, Huge(genNormCase, func(t *rapid.T, c normCase) normCase {
		c.Text = grow(t, c.Text, sizeFor(c))
		return c
	}), runNormCase)
	Reg("C05", "huge", 200, 5000, Huge(genSplit, func(t *rapid.T, c splitCase) splitCase {
		c.Text = grow(t, c.Text, sizeFor(c))
		return c
	}), runSplitCase)
	Reg("C06", "huge", 200, 5000, Huge(genPretokCase, func(t *rapid.T, c pretokCase) pretokCase {
		c.Text = grow(t, c.Text, sizeFor(c))
		return c
	}), runPretok)
	// many parts
	Reg("C06", "huge-parts", 300, 6000, Huge(func(t *rapid.T) pretokCase {
		c := pretokCase{Pre: genPretok(t, 0)}
		units := []string{" a", "a-", "日a", "1-", "a b-1"}
		switch c.Pre.Kind {
		case "digits":
			units = []string{"1", "a1", "12 ", "٣"}
		case "delimiter":
			units = []string{"x" + c.Pre.S, c.Pre.S}
		case "metaspace", "metaspace-old":
			units = []string{"a ", "a" + c.Pre.S, " "}
		case "script":
			units = []string{"日a", "а1ab", "a あ"}
		case "punct", "bert":
			units = []string{"-", "a-", "日", "..a"}
		}
		c.Text = rapid.SampledFrom(units).Draw(t, "unit")
		return c
	}, func(t *rapid.T, c pretokCase) pretokCase {
		c.Text = grow(t, c.Text, sizeFor(c))
		return c
	}), runPretok)
	Reg("C07", "huge", 100, 5000, Huge(genExtract, func(t *rapid.T, c extractCase) extractCase {
		c.Texts[0] = Str(grow(t, string(c.Texts[0]), sizeFor(c)))
		return c
	}), runExtract)
	Reg("C09", "huge", 50, 3000, Huge(genCase, func(t *rapid.T, c bpeCase) bpeCase {
		c.Words[0] = Str(grow(t, string(c.Words[0]), 4200))
		return c
	}), runBpe)
	Reg("C11", "huge", 24, 500, Huge(genWpCase, func(t *rapid.T, c wpCase) wpCase {
		c.Words[0] = Str(grow(t, string(c.Words[0]), 2100))
		if c.S.How != 2 {
			c.S.Max *= 10000
		}
		return c
	}), runWp)
	Reg("C12", "huge", 100, 5000, Huge(genWlCase, func(t *rapid.T, c wlCase) wlCase {
		c.Words[0] = Str(grow(t, string(c.Words[0]), sizeForModel(c)))
		return c
	}), runWl)
	Reg("C13", "huge", 100, 5000, Huge(genUniCase, func(t *rapid.T, c uniCase) uniCase {
		c.Words[0] = Str(grow(t, string(c.Words[0]), sizeForModel(c)))
		return c
	}), runUni)
	Reg("C14", "huge", 100, 5000, Huge(genTrunc, func(t *rapid.T, c truncCase) truncCase {
		if rapid.Bool().Draw(t, "many parts") {
			c.E = growRows(t, c.E, 8300)
			c.MaxLen = 1 + rapid.IntRange(0, 99).Draw(t, "max")
		} else {
			c.E = growRows(t, c.E, 66000)
			c.MaxLen = hugeTo(t, len(c.E.Rows))
		}
		n := len(c.E.Rows)
		c.Stride = min(c.Stride*100, max(0, c.MaxLen-1-n/200))
		return c
	}), runTruncate)
	Reg("C14", "huge-strategies", 100, 5000, Huge(genStrategies, func(t *rapid.T, c truncPairCase) truncPairCase {
		c.A = growRows(t, c.A, 66000)
		n := len(c.A.Rows)
		if c.B != nil {
			b := growRows(t, *c.B, 66000)
			c.B = &b
			n += len(b.Rows)
		}
		c.MaxLen = hugeTo(t, n)
		c.Stride = min(c.Stride*100, max(0, c.MaxLen/2-1-n/100))
		return c
	}), runTruncPair)
	Reg("C15", "huge", 100, 5000, Huge(genPadCase, func(t *rapid.T, c padCase) padCase {
		c.E[0] = growRows(t, c.E[0], 34000)
		c.Target = hugeTo(t, 66000)
		return c
	}), runPad)
	Reg("C15", "huge-batch", 50, 2000, Huge(genPadCase, func(t *rapid.T, c padCase) padCase {
		c.E[0] = growRows(t, c.E[0], 34000)
		c.Target = hugeTo(t, 34000)
		return c
	}), runPadBatch)
	Reg("C15", "huge-overflow", 200, 4000, Huge(genPadCase, func(t *rapid.T, c padCase) padCase {
		for i := range c.E {
			c.E[i] = growOver(t, c.E[i], 1200)
		}
		return c
	}), runPad)
	Reg("C16", "huge-overflow", 150, 4000, Huge(genMerge, func(t *rapid.T, c mergeCase) mergeCase {
		room := 1500
		for i := range c.E {
			if len(c.E[i].Overflow) == 0 && rapid.Bool().Draw(t, "a part") {
				o := c.E[i]
				o.Rows = append([]row{}, o.Rows...)
				c.E[i].Overflow = []encSpec{o}
			}
		}
		if only := rapid.IntRange(0, len(c.E)).Draw(t, "one side"); only < len(c.E) {
			for i := range c.E {
				if i != only {
					room /= 1 + len(c.E[i].Overflow)
				}
			}
			c.E[only] = growOver(t, c.E[only], max(1, room))
			return c
		}
		for i := range c.E {
			if len(c.E[i].Overflow) > 0 && room > 2 {
				c.E[i] = growOver(t, c.E[i], min(room, 1+rapid.IntRange(room/30, room-1).Draw(t, "parts")))
			}
			room /= 1 + len(c.E[i].Overflow)
		}
		return c
	}), runMerge)
	Reg("C17", "huge-overflow", 100, 2000, Huge(genLookups, func(t *rapid.T, s encSpec) encSpec { return growOver(t, s, 1200) }), runLookups)
	Reg("C07", "huge-many", 60, 2000, Huge(genExtract, manyTokens), runExtract)
	Reg("C16", "huge", 50, 2000, Huge(genMerge, func(t *rapid.T, c mergeCase) mergeCase {
		for i := range c.E {
			c.E[i] = growRows(t, c.E[i], 34000)
		}
		return c
	}), runMerge)
	Reg("C17", "huge", 50, 2000, Huge(genLookups, func(t *rapid.T, s encSpec) encSpec { return growRows(t, s, 8300) }), runLookups)
	Reg("C09", "huge-vocab", 16, 500, genBigBpe, runBpe)
	Reg("C18", "huge", 60, 3000, Huge(genProcCase, func(t *rapid.T, c procCase) procCase {
		c.A = growRows(t, c.A, 34000)
		if c.B != nil {
			b := growRows(t, *c.B, 34000)
			c.B = &b
		}
		return c
	}), runProc)
	Reg("C18", "huge-overflow", 60, 3000, Huge(genProcCase, func(t *rapid.T, c procCase) procCase {
		c.A = growOver(t, c.A, 300)
		if c.B != nil {
			b := growOver(t, *c.B, 300/(1+len(c.A.Overflow)))
			c.B = &b
		}
		return c
	}), runProc)
	Reg("C21", "huge", 200, 10000, Huge(genBatch, func(t *rapid.T, c batchCase) batchCase {
		n := []int{40, 70, 140, 270, 530, 1100}[rapid.IntRange(0, 5).Draw(t, "many")]
		for in := c.In; len(in) > 0 && len(c.In) < n; {
			c.In = append(c.In, in[len(c.In)*7%len(in)])
		}
		for ids := c.Ids; len(ids) > 0 && len(c.Ids) < n; {
			c.Ids = append(c.Ids, ids[len(c.Ids)*7%len(ids)])
		}
		return c
	}), runBatch)
	Reg("C19", "huge", 200, 5000, Huge(genDecCase, func(t *rapid.T, c decCase) decCase {
		if len(c.Toks) > 0 {
			k := hugeTo(t, 66000)/len(c.Toks) + 1
			var out []Str
			for i := 0; i < k; i++ {
				out = append(out, c.Toks...)
			}
			c.Toks = out
		}
		return c
	}), runDec)
	Reg("C20", "huge", 50, 2000, Huge(genTrip, func(t *rapid.T, c tripCase) tripCase {
		if c.Text != "" && c.Model.Wl == nil && c.Model.Wp == nil && (c.Calls == nil || c.Kind == "bytelevel") { // (of chars the model has)
			c.Text = Str(strings.Repeat(string(c.Text), 1+hugeTo(t, sizeForModel(c))/len(c.Text)))
		}
		c.Max *= 300
		return c
	}), runTrip)
	Reg("C28", "huge", 50, 2000, Huge(genPt, func(t *rapid.T, c ptCase) ptCase {
		c.Text = Str(grow(t, string(c.Text), sizeFor(c)))
		return c
	}), runPt)
	for _, f := range facets {
		if strings.HasPrefix(f.Name, "huge") {
			f.CPU = 150
		}
	}
}

// genBigBpe draws a vocabulary and merges of the sizes of the published ones, and more.
func genBigBpe(t *rapid.T) bpeCase {
	const k = 263 // chars
	n := []int{1000, 17000, 32700, 41000, 50000, 65300, 66500}[rapid.IntRange(0, 6).Draw(t, "merges")]
	first := pickInt(t, "first", 'Ā', '一', '😀')
	char := func(i int) Str { return Str(string(rune(first + i))) }
	c := bpeCase{S: bpeSpec{Cache: -1, How: rapid.IntRange(0, 2).Draw(t, "how")}}
	for i := 0; i < k; i++ {
		c.S.Tokens = append(c.S.Tokens, char(i))
	}
	mult := pickInt(t, "mult", 1, 2, 1009, 30011)
	pair := func(i int) [2]Str {
		p := i * mult % (k * k)
		return [2]Str{char(p / k), char(p % k)}
	}
	for i := 0; i < n; i++ {
		m := pair(i)
		c.S.Merges = append(c.S.Merges, m)
		c.S.Tokens = append(c.S.Tokens, m[0]+m[1])
		if i%50 == 0 { // and with one more char
			m = [2]Str{m[0] + m[1], char(i % k)}
			c.S.Merges = append(c.S.Merges, m)
			c.S.Tokens = append(c.S.Tokens, m[0]+m[1])
		}
	}
	for w := rapid.IntRange(8, 30).Draw(t, "words"); w > 0; w-- {
		var s Str
		for j := rapid.IntRange(1, 4).Draw(t, "parts"); j > 0; j-- {
			i := rapid.IntRange(0, n-1).Draw(t, "i")
			switch rapid.IntRange(0, 2).Draw(t, "part") {
			case 0:
				s += char(i % k)
			case 1:
				m := pair(i)
				s += m[0] + m[1]
			case 2:
				i = i / 50 * 50
				m := pair(i)
				s += m[0] + m[1] + char(i%k)
			}
		}
		c.Words = append(c.Words, s)
	}
	return c
}

// manyTokens adds many tokens, in one call or in several, and some of them to the texts.
func manyTokens(t *rapid.T, c extractCase) extractCase {
	n := []int{40, 70, 140, 270, 530, 1100}[rapid.IntRange(0, 5).Draw(t, "many")]
	form := pick(t, "form", []string{"<t%d>", "t%d", "[%04d]", "é%d", "%d"})
	a := atSpec{Single: rapid.Bool().Draw(t, "single"), L: rapid.Bool().Draw(t, "l"), R: rapid.Bool().Draw(t, "r"), Norm: rapid.Bool().Draw(t, "norm")}
	call := avCall{Special: rapid.Bool().Draw(t, "special")}
	per := []int{n, n, 100, 7}[rapid.IntRange(0, 3).Draw(t, "per call")]
	var text strings.Builder
	for i := 0; i < n; i++ {
		a.C = Str(fmt.Sprintf(form, i))
		call.Toks = append(call.Toks, a)
		if len(call.Toks) == per || i == n-1 {
			c.Calls = append(c.Calls, call)
			call.Toks = nil
		}
		if i > n-5 || rapid.IntRange(0, 20).Draw(t, "in") == 0 {
			text.WriteString(string(a.C) + pick(t, "after", []string{"", " ", "a", "-"}))
		}
	}
	c.Texts = append(c.Texts, Str(text.String()))
	return c
}

// growInput makes one of the pieces huge, or gives many pieces.
func growInput(t *rapid.T, in inputSpec, max int) inputSpec {
	if len(in.Pieces) == 0 {
		return in
	}
	if in.Pre && rapid.Bool().Draw(t, "many") {
		k := hugeTo(t, 4200)/len(in.Pieces) + 1
		var out []Str
		for i := 0; i < k; i++ {
			out = append(out, in.Pieces...)
		}
		in.Pieces = out
		return in
	}
	i := rapid.IntRange(0, len(in.Pieces)-1).Draw(t, "which")
	in.Pieces = append([]Str{}, in.Pieces...)
	in.Pieces[i] = Str(grow(t, string(in.Pieces[i]), max))
	return in
}
