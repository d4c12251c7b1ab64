// Package regen checks the tables that the generator makes of the Unicode data
// in the repository; they are put in package regentab by the driver.
package regen

import (
	"MAINMOD/textseg/internal/charprops"
	regentab "MAINMOD/textseg/zverif/regentab"
	nd "VERIFND"
)

// The value the implementation must give to each reference class.
var expGCB = [nd.NumClasses]regentab.GCBProperty{
	nd.COther: regentab.GCBNone, nd.CCR: regentab.GCBCR, nd.CControl: regentab.GCBControl,
	nd.CExtendExtend: regentab.GCBExtend, nd.CExtendLinker: regentab.GCBExtend, nd.CExtend: regentab.GCBExtend,
	nd.CExtendedPictographic: regentab.GCBExtendedPictographic, nd.CL: regentab.GCBL, nd.CLF: regentab.GCBLF,
	nd.CLV: regentab.GCBLV, nd.CLVT: regentab.GCBLVT, nd.COtherConsonant: regentab.GCBNone, nd.CPrepend: regentab.GCBPrepend,
	nd.CRegionalIndicator: regentab.GCBRegionalIndicator, nd.CSpacingMark: regentab.GCBSpacingMark, nd.CT: regentab.GCBT,
	nd.CV: regentab.GCBV, nd.CZWJExtend: regentab.GCBZWJ,
}

var expInCB = [nd.NumClasses]regentab.InCBProperty{
	nd.CExtendExtend: regentab.InCBExtend, nd.CExtendLinker: regentab.InCBLinker,
	nd.COtherConsonant: regentab.InCBConsonant, nd.CZWJExtend: regentab.InCBExtend,
}

// VerifRegen: the regenerated tables give every scalar value its Unicode class.
func VerifRegen() {
	L := nd.Param("len")
	var buf [8]byte
	for i := 0; i < L; i++ {
		buf[i] = nd.U8("b", i)
	}
	var cp uint32
	switch L {
	case 1:
		cp = uint32(buf[0])
		nd.Assume(buf[0] < 0x80)
	case 2:
		nd.Assume(buf[0] >= 0xC2 && buf[0] < 0xE0 && buf[1]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x1F)<<6 | uint32(buf[1]&0x3F)
	case 3:
		nd.Assume(buf[0]&0xF0 == 0xE0 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x0F)<<12 | uint32(buf[1]&0x3F)<<6 | uint32(buf[2]&0x3F)
		nd.Assume(cp >= 0x800 && (cp < 0xD800 || cp > 0xDFFF))
	case 4:
		nd.Assume(buf[0]&0xF8 == 0xF0 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80 && buf[3]&0xC0 == 0x80)
		cp = uint32(buf[0]&0x07)<<18 | uint32(buf[1]&0x3F)<<12 | uint32(buf[2]&0x3F)<<6 | uint32(buf[3]&0x3F)
		nd.Assume(cp >= 0x10000 && cp < 0x110000)
	}
	props, n := regentab.LookupFirstChar(buf[:L])
	want := nd.RefClass(cp)
	nd.Observe("class", int(want))
	nd.Reach("regen")
	nd.Assert(n == L, "length of a scalar value")
	nd.Assert(props.GCBProperty() == expGCB[want], "break class of a scalar value")
	nd.Assert(props.InCBProperty() == expInCB[want], "conjunct class of a scalar value")
}

// VerifAgree: the regenerated tables and the checked-in ones agree on every
// structurally complete sequence that encodes a scalar value.
func VerifAgree() {
	L := nd.Param("len")
	var buf [4]byte
	for i := 0; i < L; i++ {
		buf[i] = nd.U8("b", i)
	}
	switch L {
	case 1:
		nd.Assume(buf[0] < 0x80)
	case 2:
		nd.Assume(buf[0] >= 0xC2 && buf[0] < 0xE0 && buf[1]&0xC0 == 0x80)
	case 3:
		nd.Assume(buf[0]&0xF0 == 0xE0 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80)
		nd.Assume(buf[0] != 0xE0 || buf[1] >= 0xA0)
		nd.Assume(buf[0] != 0xED || buf[1] < 0xA0)
	case 4:
		nd.Assume(buf[0] >= 0xF0 && buf[0] <= 0xF4 && buf[1]&0xC0 == 0x80 && buf[2]&0xC0 == 0x80 && buf[3]&0xC0 == 0x80)
		nd.Assume(buf[0] != 0xF0 || buf[1] >= 0x90)
		nd.Assume(buf[0] != 0xF4 || buf[1] < 0x90)
	}
	p1, n1 := regentab.LookupFirstChar(buf[:L])
	p2, n2 := charprops.LookupFirstChar(buf[:L])
	nd.Reach("agree")
	nd.Observe("n", n1)
	nd.Assert(n1 == n2, "regenerated and checked-in tables agree on the length")
	nd.Assert(int(p1.GCBProperty()) == int(p2.GCBProperty()), "regenerated and checked-in tables agree on the break class")
	nd.Assert(int(p1.InCBProperty()) == int(p2.InCBProperty()), "regenerated and checked-in tables agree on the conjunct class")
}
