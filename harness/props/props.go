// Package props checks character classification and decoding.
package props

import (
	"MAINMOD/textseg/internal/charprops"
	nd "VERIFND"
)

// The value the implementation must give to each reference class.
var expGCB = [nd.NumClasses]charprops.GCBProperty{
	nd.COther: charprops.GCBNone, nd.CCR: charprops.GCBCR, nd.CControl: charprops.GCBControl,
	nd.CExtendExtend: charprops.GCBExtend, nd.CExtendLinker: charprops.GCBExtend, nd.CExtend: charprops.GCBExtend,
	nd.CExtendedPictographic: charprops.GCBExtendedPictographic, nd.CL: charprops.GCBL, nd.CLF: charprops.GCBLF,
	nd.CLV: charprops.GCBLV, nd.CLVT: charprops.GCBLVT, nd.COtherConsonant: charprops.GCBNone, nd.CPrepend: charprops.GCBPrepend,
	nd.CRegionalIndicator: charprops.GCBRegionalIndicator, nd.CSpacingMark: charprops.GCBSpacingMark, nd.CT: charprops.GCBT,
	nd.CV: charprops.GCBV, nd.CZWJExtend: charprops.GCBZWJ,
}

var expInCB = [nd.NumClasses]charprops.InCBProperty{
	nd.CExtendExtend: charprops.InCBExtend, nd.CExtendLinker: charprops.InCBLinker,
	nd.COtherConsonant: charprops.InCBConsonant, nd.CZWJExtend: charprops.InCBExtend,
}

// seqLen is the length of a structurally well-formed sequence at the start of
// p: n > 0 complete, 0 a proper prefix of one (or empty), -1 neither.
func seqLen(p []byte) int {
	if len(p) == 0 {
		return 0
	}
	n := 0
	switch b := p[0]; {
	case b < 0x80:
		n = 1
	case b < 0xC0:
		return -1
	case b < 0xE0:
		n = 2
	case b < 0xF0:
		n = 3
	case b < 0xF8:
		n = 4
	default:
		return -1
	}
	for i := 1; i < n; i++ {
		if i >= len(p) {
			return 0
		}
		if p[i]&0xC0 != 0x80 {
			return -1
		}
	}
	return n
}

func window(max int) []byte {
	var buf [8]byte
	for i := 0; i < max; i++ {
		buf[i] = nd.U8("b", i)
	}
	n := nd.Int("n", 0, 0, max)
	return buf[:n]
}

// VerifDecode: LookupFirstChar tells complete, incomplete and malformed input apart.
func VerifDecode() {
	p := window(nd.Param("max"))
	props, n := charprops.LookupFirstChar(p)
	want := seqLen(p)
	nd.Observe("n", n)
	switch {
	case want > 0:
		nd.Reach("complete")
		nd.Assert(n == want, "a complete sequence is reported with its own length")
		nd.Assert(props != charprops.Error, "a complete sequence is not reported as malformed")
	case want == 0:
		nd.Reach("incomplete")
		nd.Assert(n == 0 && (len(p) == 0 || props != charprops.Error), "a proper prefix of a sequence asks for more bytes")
	default:
		nd.Reach("malformed")
		nd.Assert(n == 1 && props == charprops.Error, "bytes that cannot begin a sequence are reported as one malformed byte")
	}
}

// VerifDecodeLen: the same for buffers of exactly n bytes.
func VerifDecodeLen() {
	p := make([]byte, nd.Param("n"))
	for i := range p {
		p[i] = nd.U8("b", i)
	}
	props, n := charprops.LookupFirstChar(p)
	want := seqLen(p)
	nd.Observe("n", n)
	nd.Reach("decode")
	nd.Assert(!(want > 0) || n == want && props != charprops.Error, "a complete sequence is reported with its own length")
	nd.Assert(!(want == 0) || n == 0 && (len(p) == 0 || props != charprops.Error), "a proper prefix of a sequence asks for more bytes")
	nd.Assert(!(want < 0) || n == 1 && props == charprops.Error, "bytes that cannot begin a sequence are reported as one malformed byte")
	if want > 0 {
		p2, n2 := charprops.LookupFirstChar(p[:want:want])
		nd.Assert(p2 == props && n2 == n, "bytes after the first character change its classification")
	}
}

// VerifTail: bytes after the first character have no influence.
func VerifTail() {
	p := window(nd.Param("max"))
	n := seqLen(p)
	nd.Assume(n != 0)
	k := n
	if k < 0 {
		k = len(p)
	}
	// same leading bytes, other tail and length
	var buf [8]byte
	for i := 0; i < nd.Param("max"); i++ {
		buf[i] = nd.U8("t", i)
	}
	for i := 0; i < k; i++ {
		buf[i] = p[i]
	}
	m := nd.Int("m", 0, 0, nd.Param("max"))
	nd.Assume(m >= k)
	q := buf[:m]
	p1, n1 := charprops.LookupFirstChar(p)
	p2, n2 := charprops.LookupFirstChar(q)
	nd.Reach("tail")
	nd.Observe("n1", n1)
	nd.Assert(p1 == p2 && n1 == n2, "bytes after the first character change its classification")
}

// VerifClass: every scalar value has its Unicode class, whatever follows it.
func VerifClass() {
	L := nd.Param("len")
	var buf [8]byte
	for i := 0; i < L; i++ {
		buf[i] = nd.U8("b", i)
	}
	var cp uint32
	switch L {
	case 1:
		cp = uint32(buf[0])
		nd.Assume(buf[0] < 0x80)
	case 2:
		nd.Assume(buf[0] >= 0xC2 && buf[0] < 0xE0 && buf[1]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x1F)<<6 | uint32(buf[1]&0x3F)
	case 3:
		nd.Assume(buf[0]&0xF0 == 0xE0 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x0F)<<12 | uint32(buf[1]&0x3F)<<6 | uint32(buf[2]&0x3F)
		nd.Assume(cp >= 0x800 && (cp < 0xD800 || cp > 0xDFFF))
	case 4:
		nd.Assume(buf[0]&0xF8 == 0xF0 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80 && buf[3]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x07)<<18 | uint32(buf[1]&0x3F)<<12 | uint32(buf[2]&0x3F)<<6 | uint32(buf[3]&0x3F)
		nd.Assume(cp >= 0x10000 && cp < 0x110000)
	}
	more := nd.Param("more")
	for i := L; i < L+more; i++ {
		buf[i] = nd.U8("b", i)
	}
	props, n := charprops.LookupFirstChar(buf[:L+more])
	want := nd.RefClass(cp)
	nd.Observe("class", int(want))
	nd.Reach("class")
	nd.Assert(n == L, "length of a scalar value")
	nd.Assert(props.GCBProperty() == expGCB[want], "break class of a scalar value")
	nd.Assert(props.InCBProperty() == expInCB[want], "conjunct class of a scalar value")
}

// VerifOdd: a structurally complete sequence that encodes no scalar value gets
// one of the classes that occur in the Unicode data, never the error marker.
func VerifOdd() {
	L := nd.Param("len")
	var buf [8]byte
	for i := 0; i < L; i++ {
		buf[i] = nd.U8("b", i)
	}
	nd.Assume(seqLen(buf[:L]) == L)
	props, n := charprops.LookupFirstChar(buf[:L])
	nd.Assert(n == L, "length of a structurally complete sequence")
	ok := false
	for c := 0; c < nd.NumClasses; c++ {
		if props.GCBProperty() == expGCB[c] && props.InCBProperty() == expInCB[c] {
			ok = true
		}
	}
	nd.Reach("odd")
	nd.Assert(ok, "class pair occurs in Unicode")
}
