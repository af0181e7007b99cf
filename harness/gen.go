package main

import (
	"strings"

	"pgregory.net/rapid"
)

// Pieces the generated texts are made of, by class.  Everything is valid UTF-8.
var (
	asciiPieces = []string{"a", "b", "c", "d", "e", "x", "A", "B", "0", "1", "9", "_", "un", "want", "ed", "##", "hello", "world", "don't", "I'm", "we'll"}
	spacePieces = []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\u3000", "\u0085", "\u200b"}
	punctPieces = []string{".", ",", "!", "?", "-", "--", "'", "\"", "(", ")", "[", "]", "<", ">", "$", "^", "`", "…", "—", "«", "¿", "。", "「"}
	accPieces   = []string{"é", "e\u0301", "ü", "Å", "Å", "ç", "ñ", "o\u0308\u0323", "\u0301", "\u0323", "ộ", "ẛ\u0323", "İ", "ß", "ſ", "Σ", "ς", "ǅ", "Ω", "Ä", "ö"}
	cjkPieces   = []string{"中", "国", "人", "日本", "か\u3099", "が", "ｶ", "한", "ᄒ", "ᆫ", "\u1112\u1161\u11ab", "豈", "𠀀", "々"}
	compatPiece = []string{"ﬁ", "²", "½", "①", "Ａ", "ｅ", "㎏", "ﷺ", "…", "™", "\u00a8", "\u2126", "\ufb2c"}
	emojiPieces = []string{"😀", "👨\u200d👩\u200d👧", "🇫🇷", "👍🏽", "𝔘", "𝟘", "\U0010ffff", "\ue000"}
	ctrlPieces  = []string{"\x00", "\x01", "\x7f", "\u00ad", "\ufeff", "\ufffd", "\u202e", "\u2028"}
	otherPieces = []string{"ا", "ل", "\u064b", "ह", "ि", "न", "्", "ก", "ำ", "Привет", "й", "אב", "\u05b0"}
	// chars with a rule of their own: special and title cases, composition exclusions,
	// singletons, non-starters which expand, digits and numbers of other scripts, spaces
	// and formats, the edges of blocks
	rarePieces = []string{"ẞ", "ı", "\u212a", "ŉ", "ᾈ", "\u1fb3", "α\u0345", "Ǆ", "ǈ", "\u2adc", "\u0958", "\u0344", "\ufb1d", "\U0001d15e", "ﬃ", "㍿", "ᄀ", "ᅡ", "가", "각", "٣", "४", "Ⅷ", "㊿", "𝟙", "\u1680", "\u2028", "\u2029", "\u202f", "\u205f", "\u180e", "\u2060", "\u200d", "\u200e", "\ufe0f", "\u20e3", "\U000e0001", "\uffff", "\ufffe", "\u07ff", "\u0800", "\ud7ff", "\U00010000", "㐀", "䶿", "一", "鿿", "𪛟", "\U0002a6e0", "丽", "ゝ", "ー", "・", "Ⴀ", "ꭰ", "Ꭰ", "ԱՒ", "և", "ª", "ʰ", "٪", "؟", "։", "‿", "＿", "～", "＄", "⁄", "€", "°", "¬", "×", "\v", "\f", "\x1c", "\x1f", "\u0080", "\u009f"}
	invalidPcs = []string{"\xff", "\xc3", "\xe4\xb8", "\xf0\x9f", "\x80", "\xed\xa0\x80", "\xc0\xaf"}
)

func pick(t *rapid.T, label string, xs []string) string {
	return rapid.SampledFrom(xs).Draw(t, label)
}

// oneOfW draws a class by weight.
func weighted(t *rapid.T, label string, ws ...int) int {
	total := 0
	for _, w := range ws {
		total += w
	}
	n := rapid.IntRange(0, total-1).Draw(t, label)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}

var anyRune = rapid.Rune()

func genPiece(t *rapid.T) string {
	switch weighted(t, "class", 30, 14, 8, 10, 6, 3, 4, 2, 4, 2, 3) {
	case 0:
		return pick(t, "p", asciiPieces)
	case 1:
		return pick(t, "p", spacePieces)
	case 2:
		return pick(t, "p", punctPieces)
	case 3:
		return pick(t, "p", accPieces)
	case 4:
		return pick(t, "p", cjkPieces)
	case 5:
		return pick(t, "p", compatPiece)
	case 6:
		return pick(t, "p", emojiPieces)
	case 7:
		return pick(t, "p", ctrlPieces)
	case 8:
		return pick(t, "p", otherPieces)
	case 10:
		return pick(t, "p", rarePieces)
	}
	return string(anyRune.Draw(t, "r"))
}

// genText draws a valid UTF-8 text of up to max pieces.
func genText(t *rapid.T, label string, max int) string {
	n := rapid.IntRange(0, max).Draw(t, label+"#")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(genPiece(t))
	}
	return sb.String()
}

// genBytes draws a text which may hold invalid UTF-8.
func genBytes(t *rapid.T, label string, max int) string {
	n := rapid.IntRange(0, max).Draw(t, label+"#")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch weighted(t, "k", 6, 2, 1) {
		case 0:
			sb.WriteString(genPiece(t))
		case 1:
			sb.WriteString(pick(t, "inv", invalidPcs))
		case 2:
			sb.WriteByte(rapid.Byte().Draw(t, "b"))
		}
	}
	return sb.String()
}

// genOver draws a string over a small alphabet.
func genOver(t *rapid.T, label string, alphabet []string, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, label+"#")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(t, label, alphabet))
	}
	return sb.String()
}

// big is set while a large case is drawn: long texts, many tokens.
var big bool

// Large draws the large cases of a generator.
func Large[C any](gen func(*rapid.T) C) func(*rapid.T) C {
	return func(t *rapid.T) C {
		big = true
		defer func() { big = false }()
		return gen(t)
	}
}

// stretch repeats a text of a large case, up to max bytes.
func stretch(t *rapid.T, s string, max int) string {
	if !big || s == "" || len(s) > max/2 {
		return s
	}
	if weighted(t, "run", 3, 1) == 1 {
		// a run of one piece somewhere
		p := pick(t, "of", []string{" ", "\x01", "\u0301", "\u200d", "a", "é", "中", "\u3000", ""})
		if p == "" {
			p = genPiece(t) + "."
		}
		i := len([]rune(s)) * rapid.IntRange(0, 2).Draw(t, "place") / 2
		return string([]rune(s)[:i]) + strings.Repeat(p, rapid.IntRange(1, 1+max/len(p)).Draw(t, "times")) + string([]rune(s)[i:])
	}
	n := max / len(s)
	if rapid.Bool().Draw(t, "some") {
		n = min(n, 40)
	}
	s = strings.Repeat(s, rapid.IntRange(1, n).Draw(t, "times"))
	if rapid.Bool().Draw(t, "tail") {
		s += genPiece(t)
	}
	return s
}

// upTo draws a size, which is larger in large cases.
func upTo(t *rapid.T, label string, max, large int) int {
	if big && rapid.Bool().Draw(t, "large") {
		max = large
	}
	return rapid.IntRange(0, max).Draw(t, label)
}

// manyOr draws a maximum length: of a large case, not so small that the parts
// of a long text are too many.
func manyOr(t *rapid.T, label string, min, max int) int {
	if big {
		min, max = 40, 700
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

func isCharBoundary(s string, i int) bool {
	return i == 0 || i == len(s) || (i > 0 && i < len(s) && s[i]&0xC0 != 0x80)
}

// boundaries lists every char boundary of s, 0 and len(s) included.
func boundaries(s string) []int {
	var b []int
	for i := range s {
		b = append(b, i)
	}
	return append(b, len(s))
}
