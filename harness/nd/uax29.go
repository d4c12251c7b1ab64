package verifnd

// UAX #29 extended grapheme cluster boundaries, revision for Unicode 17.0,
// over class numbers.

func IsExtend(c uint8) bool  { return c == CExtend || c == CExtendExtend || c == CExtendLinker }
func IsControl(c uint8) bool { return c == CCR || c == CLF || c == CControl }
func IsInCBExt(c uint8) bool { return c == CExtendExtend || c == CZWJExtend } // InCB=Extend
func IsLinker(c uint8) bool  { return c == CExtendLinker }

// pairRules decides GB3-GB9b, the rules that only need two characters:
// 0 no break, 1 break, 2 undecided.
func pairRules(p, c uint8) int {
	if p == CCR && c == CLF { // GB3
		return 0
	}
	if IsControl(p) || IsControl(c) { // GB4, GB5
		return 1
	}
	if p == CL && (c == CL || c == CV || c == CLV || c == CLVT) { // GB6
		return 0
	}
	if (p == CLV || p == CV) && (c == CV || c == CT) { // GB7
		return 0
	}
	if (p == CLVT || p == CT) && c == CT { // GB8
		return 0
	}
	if IsExtend(c) || c == CZWJExtend { // GB9
		return 0
	}
	if c == CSpacingMark { // GB9a
		return 0
	}
	if p == CPrepend { // GB9b
		return 0
	}
	return 2
}

// LookBack decides whether there is a boundary before cls[i], 0 < i, by
// reading the rules literally over the whole preceding text.
func LookBack(cls []uint8, i int) bool {
	p, c := cls[i-1], cls[i]
	switch pairRules(p, c) {
	case 0:
		return false
	case 1:
		return true
	}
	if c == COtherConsonant { // GB9c: Consonant [Extend Linker]* Linker [Extend Linker]* x Consonant
		j := i - 1
		linker := false
		for j >= 0 && (IsInCBExt(cls[j]) || IsLinker(cls[j])) {
			if IsLinker(cls[j]) {
				linker = true
			}
			j--
		}
		if linker && j >= 0 && cls[j] == COtherConsonant {
			return false
		}
	}
	if c == CExtendedPictographic && p == CZWJExtend { // GB11: ExtPict Extend* ZWJ x ExtPict
		j := i - 2
		for j >= 0 && IsExtend(cls[j]) {
			j--
		}
		if j >= 0 && cls[j] == CExtendedPictographic {
			return false
		}
	}
	if c == CRegionalIndicator { // GB12, GB13: an odd number of RI before
		j := i - 1
		odd := false
		for j >= 0 && cls[j] == CRegionalIndicator {
			odd = !odd
			j--
		}
		if odd {
			return false
		}
	}
	return true // GB999
}

// Brk decides the same boundaries incrementally; VerifSpec shows that it
// agrees with LookBack.
type Brk struct {
	Any  bool
	Prev uint8
	Odd  bool  // odd number of RI up to and including Prev
	Emo  uint8 // 1: ExtPict Extend* up to Prev, 2: that followed by ZWJ
	Con  uint8 // 1: Consonant [InCB Extend]*, 2: with at least one Linker
}

// Next adds a character and reports whether a boundary precedes it.
func (b *Brk) Next(c uint8) bool {
	br := true
	if b.Any {
		r := pairRules(b.Prev, c)
		if r == 0 {
			br = false
		} else if r == 2 {
			if c == COtherConsonant && b.Con == 2 {
				br = false
			}
			if c == CExtendedPictographic && b.Emo == 2 {
				br = false
			}
			if c == CRegionalIndicator && b.Odd {
				br = false
			}
		}
	}
	b.Any = true
	b.Prev = c
	b.Odd = c == CRegionalIndicator && !b.Odd
	emo := uint8(0)
	if c == CExtendedPictographic {
		emo = 1
	} else if b.Emo == 1 && IsExtend(c) {
		emo = 1
	} else if b.Emo == 1 && c == CZWJExtend {
		emo = 2
	}
	b.Emo = emo
	con := uint8(0)
	if c == COtherConsonant {
		con = 1
	} else if b.Con != 0 && IsLinker(c) {
		con = 2
	} else if b.Con != 0 && IsInCBExt(c) {
		con = b.Con
	}
	b.Con = con
	return br
}

// ---- UTF-8 structure ----

// SeqLen is the length of a structurally well-formed sequence at the start of
// p: n > 0 complete, 0 a proper prefix of one (or empty), -1 neither.
func SeqLen(p []byte) int {
	if len(p) == 0 {
		return 0
	}
	n := 0
	switch b := p[0]; {
	case b < 0x80:
		n = 1
	case b < 0xC0:
		return -1
	case b < 0xE0:
		n = 2
	case b < 0xF0:
		n = 3
	case b < 0xF8:
		n = 4
	default:
		return -1
	}
	for i := 1; i < n; i++ {
		if i >= len(p) {
			return 0
		}
		if p[i]&0xC0 != 0x80 {
			return -1
		}
	}
	return n
}

// Raw is the number encoded by the complete sequence of length n at the start of p.
func Raw(p []byte, n int) uint32 {
	switch n {
	case 1:
		return uint32(p[0])
	case 2:
		return uint32(p[0]&0x1F)<<6 | uint32(p[1]&0x3F)
	case 3:
		return uint32(p[0]&0x0F)<<12 | uint32(p[1]&0x3F)<<6 | uint32(p[2]&0x3F)
	}
	return uint32(p[0]&0x07)<<18 | uint32(p[1]&0x3F)<<12 | uint32(p[2]&0x3F)<<6 | uint32(p[3]&0x3F)
}

// Scalar reports whether cp, encoded in n bytes, is a scalar value in its
// shortest form.
func Scalar(cp uint32, n int) bool {
	switch n {
	case 1:
		return true
	case 2:
		return cp >= 0x80
	case 3:
		return cp >= 0x800 && (cp < 0xD800 || cp > 0xDFFF)
	}
	return cp >= 0x10000 && cp < 0x110000
}
