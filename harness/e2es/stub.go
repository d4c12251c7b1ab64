package e2e

import (
	"MAINMOD/textseg/internal/charprops"
	nd "VERIFND"
)

var stubProps = [nd.NumClasses]charprops.CharProperties{
	nd.COther: 0, nd.CCR: mk(charprops.GCBCR, 0), nd.CControl: mk(charprops.GCBControl, 0),
	nd.CExtendExtend: mk(charprops.GCBExtend, charprops.InCBExtend), nd.CExtendLinker: mk(charprops.GCBExtend, charprops.InCBLinker),
	nd.CExtend: mk(charprops.GCBExtend, 0), nd.CExtendedPictographic: mk(charprops.GCBExtendedPictographic, 0),
	nd.CL: mk(charprops.GCBL, 0), nd.CLF: mk(charprops.GCBLF, 0), nd.CLV: mk(charprops.GCBLV, 0), nd.CLVT: mk(charprops.GCBLVT, 0),
	nd.COtherConsonant: mk(0, charprops.InCBConsonant), nd.CPrepend: mk(charprops.GCBPrepend, 0),
	nd.CRegionalIndicator: mk(charprops.GCBRegionalIndicator, 0), nd.CSpacingMark: mk(charprops.GCBSpacingMark, 0),
	nd.CT: mk(charprops.GCBT, 0), nd.CV: mk(charprops.GCBV, 0), nd.CZWJExtend: mk(charprops.GCBZWJ, charprops.InCBExtend),
}

func mk(g charprops.GCBProperty, i charprops.InCBProperty) charprops.CharProperties {
	return charprops.MakeCharProperties(g, 0, i)
}

// StubLookup stands for charprops.LookupFirstChar with its tables replaced by
// the reference classification.
func StubLookup(p []byte) (charprops.CharProperties, int) {
	n := nd.SeqLen(p)
	if n == 0 {
		return 0, 0
	}
	if n < 0 {
		return charprops.Error, 1
	}
	cp := nd.Raw(p, n)
	if nd.Scalar(cp, n) {
		return stubProps[nd.RefClass(cp)], n
	}
	return stubProps[nd.OddClass(cp|uint32(n)<<24)], n
}

// VerifStub: StubLookup describes charprops.LookupFirstChar.
func VerifStub() {
	max := nd.Param("max")
	p := window(max)[:nd.Int("n", 0, 0, max)]
	n := nd.SeqLen(p)
	props, l := charprops.LookupFirstChar(p)
	nd.Observe("l", l)
	nd.Reach("stub")
	if n == 0 {
		nd.Assert(l == 0 && props == 0, "incomplete")
	} else if n < 0 {
		nd.Assert(l == 1 && props == charprops.Error, "malformed")
	} else {
		nd.Assert(l == n, "length")
		nd.Assert(props != charprops.Error, "no error marker")
	}
}

// VerifStubLen: in longer buffers the first character is decoded as if alone.
func VerifStubLen() {
	p := window(nd.Param("len"))
	n := nd.SeqLen(p)
	props, l := charprops.LookupFirstChar(p)
	nd.Observe("l", l)
	nd.Reach("stub")
	if n < 0 {
		nd.Assert(l == 1 && props == charprops.Error, "malformed")
		return
	}
	p2, l2 := charprops.LookupFirstChar(p[:n:n])
	nd.Assert(l == n && props == p2 && l2 == n, "a character in a longer buffer")
}

// VerifStubClass: the classification, for characters of one length.
func VerifStubClass() {
	L := nd.Param("len")
	p := window(L)
	nd.Assume(nd.SeqLen(p) == L)
	cp := nd.Raw(p, L)
	props, l := charprops.LookupFirstChar(p)
	nd.Observe("l", l)
	nd.Reach("stub")
	if nd.Scalar(cp, L) {
		nd.Assert(props == stubProps[nd.RefClass(cp)], "class")
		return
	}
	ok := false
	for _, c := range stubProps {
		if props == c {
			ok = true
		}
	}
	nd.Assert(ok, "known class pair")
}

// VerifStubAfter: the classification after another character.
func VerifStubAfter() {
	L, m := nd.Param("len"), nd.Param("before")
	p := window(L)
	nd.Assume(nd.SeqLen(p) == L)
	q := make([]byte, m)
	for i := range q {
		q[i] = nd.U8("q", i)
	}
	nd.Assume(nd.SeqLen(q) == m)
	charprops.LookupFirstChar(q)
	cp := nd.Raw(p, L)
	props, l := charprops.LookupFirstChar(p)
	nd.Observe("l", l)
	nd.Reach("stub")
	nd.Assert(l == L, "length")
	if nd.Scalar(cp, L) {
		nd.Assert(props == stubProps[nd.RefClass(cp)], "class")
	}
}

// VerifStubTail: bytes after the first character have no influence.
func VerifStubTail() {
	max := nd.Param("max")
	p := window(max)[:nd.Int("n", 0, 0, max)]
	n := nd.SeqLen(p)
	nd.Assume(n > 0)
	props, l := charprops.LookupFirstChar(p)
	p2, l2 := charprops.LookupFirstChar(p[:n:n])
	nd.Observe("l", l)
	nd.Reach("stub")
	nd.Assert(props == p2 && l == l2, "tail")
}

func window(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8("b", i)
	}
	return b
}

// OddReal is the class that a structurally complete sequence of length
// key>>24 encoding key&0xFFFFFF really gets.
func OddReal(key uint32) uint8 {
	n, cp := key>>24, key&0xFFFFFF
	var b [4]byte
	switch n {
	case 1:
		b[0] = byte(cp & 0x7F)
	case 2:
		b[0], b[1] = 0xC0|byte(cp>>6&0x1F), 0x80|byte(cp&0x3F)
	case 3:
		b[0], b[1], b[2] = 0xE0|byte(cp>>12&0x0F), 0x80|byte(cp>>6&0x3F), 0x80|byte(cp&0x3F)
	default:
		n = 4
		b[0], b[1], b[2], b[3] = 0xF0|byte(cp>>18&0x07), 0x80|byte(cp>>12&0x3F), 0x80|byte(cp>>6&0x3F), 0x80|byte(cp&0x3F)
	}
	props, _ := charprops.LookupFirstChar(b[:n])
	c := uint8(0)
	for i, p := range stubProps {
		if props == p {
			c = uint8(i)
		}
	}
	return c
}
