// Package naming checks the packing and the naming of character properties.
package naming

import (
	"MAINMOD/textseg/internal/charprops"
	nd "VERIFND"
)

type gcb struct {
	p     charprops.GCBProperty
	name  string
	emoji bool
}

// Unicode's names of the classes (PropertyValueAliases.txt, emoji-data.txt).
var gcbs = [...]gcb{
	{charprops.GCBNone, "", false},
	{charprops.GCBCR, "CR", false}, {charprops.GCBLF, "LF", false}, {charprops.GCBControl, "Control", false},
	{charprops.GCBExtend, "Extend", false}, {charprops.GCBZWJ, "ZWJ", false}, {charprops.GCBRegionalIndicator, "Regional_Indicator", false},
	{charprops.GCBPrepend, "Prepend", false}, {charprops.GCBSpacingMark, "SpacingMark", false},
	{charprops.GCBL, "L", false}, {charprops.GCBV, "V", false}, {charprops.GCBT, "T", false}, {charprops.GCBLV, "LV", false}, {charprops.GCBLVT, "LVT", false},
	{charprops.GCBExtendedPictographic, "Extended_Pictographic", true},
}

type incb struct {
	p    charprops.InCBProperty
	name string
}

var incbs = [...]incb{
	{charprops.InCBNone, ""}, {charprops.InCBConsonant, "Consonant"}, {charprops.InCBExtend, "Extend"}, {charprops.InCBLinker, "Linker"},
}

// VerifPack: packing and unpacking gives the same two values, the marker of
// malformed input stands apart, and different combinations differ.
func VerifPack() {
	i, j := nd.Int("class", 0, 0, len(gcbs)-1), nd.Int("conjunct", 0, 0, len(incbs)-1)
	i2, j2 := nd.Int("class", 1, 0, len(gcbs)-1), nd.Int("conjunct", 1, 0, len(incbs)-1)
	g, c := gcbs[i].p, incbs[j].p
	g2, c2 := gcbs[i2].p, incbs[j2].p
	nd.Assert((g == g2) == (i == i2), "different classes have different values")
	nd.Assert((c == c2) == (j == j2), "different conjunct values have different values")
	var x, x2 charprops.CharProperties
	if gcbs[i].emoji {
		x = charprops.MakeCharProperties(charprops.GCBNone, g, c)
	} else {
		x = charprops.MakeCharProperties(g, charprops.GCBNone, c)
	}
	if gcbs[i2].emoji {
		x2 = charprops.MakeCharProperties(charprops.GCBNone, g2, c2)
	} else {
		x2 = charprops.MakeCharProperties(g2, charprops.GCBNone, c2)
	}
	nd.Observe("packed", int(x))
	nd.Assert(x.GCBProperty() == g, "the class is read back")
	nd.Assert(x.InCBProperty() == c, "the conjunct value is read back")
	nd.Assert(x != charprops.Error, "no combination equals the malformed-input marker")
	nd.Assert((x == x2) == (i == i2 && j == j2), "different combinations are different")
	var zero charprops.CharProperties
	nd.Assert((x == zero) == (i == 0 && j == 0), "no properties is the zero value")
	nd.Reach("pack")
}

// VerifMarker: the marker of malformed input reads back as its own two values,
// which no character has.
func VerifMarker() {
	i, j := nd.Int("class", 0, 0, len(gcbs)-1), nd.Int("conjunct", 0, 0, len(incbs)-1)
	nd.Assert(charprops.Error.GCBProperty() == charprops.GCBError, "class of the marker")
	nd.Assert(charprops.Error.InCBProperty() == charprops.InCBError, "conjunct value of the marker")
	nd.Assert(gcbs[i].p != charprops.GCBError && incbs[j].p != charprops.InCBError, "no character has the values of the marker")
	nd.Reach("marker")
}

func names() []string {
	var r []string
	for _, g := range gcbs[1:] {
		r = append(r, g.name)
	}
	for _, c := range incbs[1:] {
		r = append(r, c.name)
	}
	return r
}

// VerifLongName: a name with more behind or before it is unknown.
func VerifLongName() {
	all := names()
	name := all[nd.Split("name", 0, 0, len(all)-1)]
	n := nd.Param("n")
	more := make([]byte, n)
	for i := range more {
		more[i] = "x_E"[i%3]
	}
	for i, p := range []int{0, n / 2, n - 1} {
		more[p] = nd.U8("b", i)
	}
	if nd.Param("at") == 0 {
		name += string(more)
	} else {
		name = string(more) + name
	}
	known := false
	for _, s := range all {
		known = known || s == name
	}
	nd.Assume(!known)
	g, e, c := charprops.LookupGCBProperty(name), charprops.LookupEmojiProperty(name), charprops.LookupInCBProperty(name)
	nd.Observe("class", int(g))
	nd.Observe("emoji", int(e))
	nd.Observe("conjunct", int(c))
	nd.Reach("lookup")
	nd.Assert(g == charprops.GCBNone && e == charprops.GCBNone && c == charprops.InCBNone, "an unknown name gives no property")
}

// VerifLookup: a name of n arbitrary bytes is found exactly when it is a name,
// whatever (prior=1) was looked up before.
func VerifLookup() {
	n := nd.Param("n")
	if nd.Param("prior") > 0 {
		all := names()
		s := all[nd.Split("name", 0, 0, len(all)-1)]
		charprops.LookupGCBProperty(s)
		charprops.LookupEmojiProperty(s)
		charprops.LookupInCBProperty(s)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8("b", i)
	}
	name := string(b)
	wantG, wantE, wantI := charprops.GCBNone, charprops.GCBNone, charprops.InCBNone
	for _, g := range gcbs[1:] {
		if g.name == name {
			if g.emoji {
				wantE = g.p
			} else {
				wantG = g.p
			}
		}
	}
	for _, c := range incbs[1:] {
		if c.name == name {
			wantI = c.p
		}
	}
	g, e, c := charprops.LookupGCBProperty(name), charprops.LookupEmojiProperty(name), charprops.LookupInCBProperty(name)
	nd.Observe("class", int(g))
	nd.Observe("emoji", int(e))
	nd.Observe("conjunct", int(c))
	nd.Assert(g == wantG, "break class of a name")
	nd.Assert(e == wantE, "emoji class of a name")
	nd.Assert(c == wantI, "conjunct value of a name")
	nd.Reach("lookup")
}

// VerifNames: every value is found again under its own name.
func VerifNames() {
	for _, g := range gcbs[1:] {
		nd.Assert(g.p.String() == g.name, "a class is called by its Unicode name")
		if g.emoji {
			nd.Assert(charprops.LookupEmojiProperty(g.p.String()) == g.p, "an emoji class is found under its own name")
		} else {
			nd.Assert(charprops.LookupGCBProperty(g.p.String()) == g.p, "a break class is found under its own name")
		}
	}
	for _, c := range incbs[1:] {
		nd.Assert(c.p.String() == c.name, "a conjunct value is called by its Unicode name")
		nd.Assert(charprops.LookupInCBProperty(c.p.String()) == c.p, "a conjunct value is found under its own name")
	}
	nd.Reach("names")
}

// VerifDistinct: different values, none and the marker included, have
// different names.
func VerifDistinct() {
	all := [...]charprops.GCBProperty{charprops.GCBNone, charprops.GCBCR, charprops.GCBLF, charprops.GCBControl, charprops.GCBExtend, charprops.GCBZWJ,
		charprops.GCBRegionalIndicator, charprops.GCBPrepend, charprops.GCBSpacingMark, charprops.GCBL, charprops.GCBV, charprops.GCBT, charprops.GCBLV, charprops.GCBLVT,
		charprops.GCBExtendedPictographic, charprops.GCBError}
	i, j := nd.Split("class", 0, 0, len(all)-1), nd.Split("class", 1, 0, len(all)-1)
	nd.Assert((all[i].String() == all[j].String()) == (i == j), "different classes have different names")
	nd.Reach("distinct")
}

// VerifDistinctConjunct: the same for the conjunct values.
func VerifDistinctConjunct() {
	cs := [...]charprops.InCBProperty{charprops.InCBNone, charprops.InCBConsonant, charprops.InCBExtend, charprops.InCBLinker, charprops.InCBError}
	k, l := nd.Split("conjunct", 0, 0, len(cs)-1), nd.Split("conjunct", 1, 0, len(cs)-1)
	nd.Assert((cs[k].String() == cs[l].String()) == (k == l), "different conjunct values have different names")
	nd.Reach("distinct")
}
