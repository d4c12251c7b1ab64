// Package gen checks the builder of the property tables.
package gen

import (
	"MAINMOD/textseg/internal/charprops"
	"MAINMOD/textseg/internal/charprops/gentable"
	nd "VERIFND"
)

// Names of properties by file; within a group they are equally long.
var groups = [...]struct {
	file  int // 0 break class, 1 emoji class, 2 conjunct value
	names []string
	props []uint8
}{
	{0, []string{"L", "T", "V"}, []uint8{uint8(charprops.GCBL), uint8(charprops.GCBT), uint8(charprops.GCBV)}},
	{0, []string{"Control", "Prepend"}, []uint8{uint8(charprops.GCBControl), uint8(charprops.GCBPrepend)}},
	{1, []string{"Extended_Pictographic"}, []uint8{uint8(charprops.GCBExtendedPictographic)}},
	{2, []string{"Extend", "Linker"}, []uint8{uint8(charprops.InCBExtend), uint8(charprops.InCBLinker)}},
	{2, []string{"Consonant"}, []uint8{uint8(charprops.InCBConsonant)}},
	{0, []string{"LVT", "ZWJ"}, []uint8{uint8(charprops.GCBLVT), uint8(charprops.GCBZWJ)}},
}

type entry struct {
	file       int
	start, end int // inclusive
	prop       uint8
}

type files struct {
	text [3][]byte
	ents []entry
}

func hexChar(n int) byte {
	if n < 10 {
		return byte('0' + n)
	}
	return byte('A' + n - 10)
}

func (f *files) hex(file, v int) {
	for s := 20; s >= 0; s -= 4 {
		f.text[file] = append(f.text[file], hexChar(v>>s&15))
	}
}

func (f *files) lit(file int, s string) { f.text[file] = append(f.text[file], s...) }

// line assigns a property to the code points from start to end.
func (f *files) line(file, start, end int, name []byte, prop uint8) {
	f.hex(file, start)
	if end != start {
		f.lit(file, "..")
		f.hex(file, end)
	}
	f.lit(file, " ; ")
	if file == 2 {
		f.lit(file, "InCB; ")
	}
	f.text[file] = append(f.text[file], name...)
	f.lit(file, "\n")
	f.ents = append(f.ents, entry{file, start, end, prop})
}

// common puts in what every version of the data has: properties of ASCII
// characters, and lines that do not matter.
func (f *files) common() {
	f.lit(0, "# break classes\n\n")
	f.line(0, 0x0D, 0x0D, []byte("CR"), uint8(charprops.GCBCR))
	f.line(0, 0x0A, 0x0A, []byte("LF"), uint8(charprops.GCBLF))
	f.line(0, 0x00, 0x09, []byte("Control"), uint8(charprops.GCBControl))
	f.lit(1, "0023 ; Emoji # number sign\n1F600 ; Emoji_Presentation\n")
	f.lit(2, "0041..005A ; Alphabetic\n0300 ; Grapheme_Extend\n")
}

// want is the value that the assignments give to a code point.
func (f *files) want(cp int) uint8 {
	var w uint8
	for _, e := range f.ents {
		if cp >= e.start && cp <= e.end {
			w |= e.prop
		}
	}
	return w
}

func (f *files) build() gentable.RawPropertyTree {
	nd.Put("auxiliary/GraphemeBreakProperty.txt", f.text[0])
	nd.Put("emoji/emoji-data.txt", f.text[1])
	nd.Put("DerivedCoreProperties.txt", f.text[2])
	t, err := gentable.BuildRawPropertyTree(nd.Dir())
	nd.Assert(err == nil, "the tables are built")
	if err != nil {
		nd.Stop()
	}
	return t
}

// lookup reads the tables in the way the scanner does.
func lookup(t gentable.RawPropertyTree, cp int) uint8 {
	idx := func(block, b int) int { return int(t.Indices[block<<6+b&63]) }
	prop := func(block, b int) uint8 { return t.Properties[block<<6+b&63] }
	switch {
	case cp < 0x80:
		return t.Properties[cp]
	case cp < 0x800:
		return prop(idx(0, 0xC0|cp>>6), cp)
	case cp < 0x10000:
		return prop(idx(idx(0, 0xE0|cp>>12), cp>>6), cp)
	default:
		return prop(idx(idx(idx(0, 0xF0|cp>>18), cp>>12), cp>>6), cp)
	}
}

// query asks for an arbitrary scalar value of the given encoded length.
func query(n int) int {
	lo, hi := 0, 0x7F
	switch n {
	case 2:
		lo, hi = 0x80, 0x7FF
	case 3:
		lo, hi = 0x800, 0xFFFF
	case 4:
		lo, hi = 0x10000, 0x10FFFF
	}
	q := nd.Int("query", n, lo, hi)
	nd.Assume(q < 0xD800 || q > 0xDFFF)
	return q
}

func place(i int) int {
	w := nd.Param("width")
	if nd.Param("split") > 0 {
		return nd.Split("place", i, 0, w-1)
	}
	return nd.Int("place", i, 0, w-1)
}

// VerifBuild: m assignments, each to an arbitrary place within the first
// `width` code points from b0, b1, b2, of an arbitrary property of a group;
// the decimal digits of groups and lens from the right are those of each
// assignment; a nonzero digit of lens makes it a range of up to so many more.
func VerifBuild() {
	f := &files{}
	f.common()
	m := nd.Param("m")
	bases := [...]int{nd.Param("b0"), nd.Param("b1"), nd.Param("b2")}
	grp := nd.Param("groups")
	lens := nd.Param("lens")
	for i := 0; i < m; i++ {
		g := groups[grp%10]
		n := lens % 10
		grp, lens = grp/10, lens/10
		start := bases[i] + place(i)
		end := start
		if n > 0 {
			end = start + nd.Split("more", i, 1, n)
			nd.Assume(end <= 0x10FFFF)
		}
		k := 0
		if len(g.names) > 1 {
			k = nd.Int("prop", i, 0, len(g.names)-1)
		}
		name := make([]byte, len(g.names[0]))
		for j := range name {
			var col [4]byte
			for x, s := range g.names {
				col[x] = s[j]
			}
			name[j] = col[k]
		}
		var col [4]uint8
		copy(col[:], g.props)
		for _, e := range f.ents {
			// a character has one break or emoji class, one conjunct value
			if (g.file == 2) == (e.file == 2) {
				nd.Assume(end < e.start || start > e.end)
			}
		}
		f.line(g.file, start, end, name, col[k])
	}
	q := query(nd.Param("q"))
	t := f.build()
	got := lookup(t, q)
	nd.Observe("query", q)
	nd.Observe("got", int(got))
	nd.Assert(got == f.want(q), "the tables give each code point the properties assigned to it")
	nd.Reach("build")
}

// VerifMany: n blocks of 64 code points, step code points apart, with one
// assignment each, laid out differently from block to block; with sym=1 the
// property and the place of the last one are arbitrary.
func VerifMany() {
	f := &files{}
	f.common()
	n, base, step := nd.Param("n"), nd.Param("base"), nd.Param("step")
	names := [...]string{"L", "T", "V", "LV", "LVT", "Control", "Extend", "Prepend", "SpacingMark", "ZWJ", "Regional_Indicator"}
	props := [...]charprops.GCBProperty{charprops.GCBL, charprops.GCBT, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT, charprops.GCBControl,
		charprops.GCBExtend, charprops.GCBPrepend, charprops.GCBSpacingMark, charprops.GCBZWJ, charprops.GCBRegionalIndicator}
	for i := 0; i < n-1; i++ {
		k := (i + i>>6) % len(names)
		cp := base + i*step + (i+i>>6+i>>10)&63
		f.line(0, cp, cp, []byte(names[k]), uint8(props[k]))
	}
	g := groups[0]
	k, cp := 1, base+(n-1)*step+5
	if nd.Param("sym") > 0 {
		k = nd.Int("prop", 0, 0, len(g.names)-1)
		cp = base + (n-1)*step + nd.Int("place", 0, 0, 7)
	}
	f.line(0, cp, cp, []byte{[3]byte{'L', 'T', 'V'}[k]}, [3]uint8{g.props[0], g.props[1], g.props[2]}[k])
	q := base + nd.Int("query", 0, 0, n*step-1)
	nd.Assume(q < 0xD800 || q > 0xDFFF)
	t := f.build()
	// the expected value, from the layout of the assignments
	var w uint8
	i := (q - base) / step
	if i < n-1 {
		if (q-base)%step == (i+i>>6+i>>10)&63 {
			w = uint8(props[(i+i>>6)%len(names)])
		}
	} else if q == cp {
		w = [3]uint8{g.props[0], g.props[1], g.props[2]}[k]
	}
	got := lookup(t, q)
	nd.Observe("query", q)
	nd.Observe("got", int(got))
	nd.Assert(got == w, "the tables give each code point the properties assigned to it")
	nd.Reach("many")
}

// VerifRange: a range of some len1 code points from about b1 in one file, and
// one of some len2 from about b2 in another, of arbitrary properties.
func VerifRange() {
	f := &files{}
	f.common()
	grp := nd.Param("groups")
	for i, b := range [...][2]int{{nd.Param("b0"), nd.Param("len0")}, {nd.Param("b1"), nd.Param("len1")}} {
		if b[1] == 0 {
			continue
		}
		g := groups[grp%10]
		grp /= 10
		start := b[0] + nd.Split("place", i, 0, 1)
		end := start + b[1] - nd.Split("more", i, 0, 1)
		k := 0
		if len(g.names) > 1 {
			k = nd.Int("prop", i, 0, len(g.names)-1)
		}
		name := make([]byte, len(g.names[0]))
		for j := range name {
			var col [4]byte
			for x, s := range g.names {
				col[x] = s[j]
			}
			name[j] = col[k]
		}
		var col [4]uint8
		copy(col[:], g.props)
		f.line(g.file, start, end, name, col[k])
	}
	q := query(nd.Param("q"))
	t := f.build()
	got := lookup(t, q)
	nd.Observe("query", q)
	nd.Observe("got", int(got))
	nd.Assert(got == f.want(q), "the tables give each code point the properties assigned to it")
	nd.Reach("range")
}

// Blocks of 64 code points that hold something special.
var special = [...]int{0x80, 0x300, 0x600, 0x6C0, 0x900, 0x940, 0xD40, 0x1000, 0x1100, 0x1180, 0x180, 0x1800, 0x1A80, 0x2000, 0x2040, 0x20C0, 0x2640,
	0x2740, 0x3000, 0x3080, 0xA8C0, 0xAC00, 0xD780, 0xE000, 0xF8C0, 0xFE00, 0xFEC0, 0xFF80, 0xFFC0, 0x10000, 0x11000, 0x11100, 0x1D140, 0x1D1C0, 0x1F1C0, 0x1F300, 0x1F3C0, 0x1F400, 0x1FAC0, 0x1FFC0,
	0x2FFC0, 0x3FFC0, 0x40000, 0xE0000, 0xE0040, 0xE0100, 0xE01C0, 0xFFFC0, 0x10FFC0}

// VerifDense: every code point of n special blocks from the first one on has
// properties of its own, laid out by the seed.
func VerifDense() {
	f := &files{}
	f.common()
	names := [...]string{"L", "T", "V", "LV", "LVT", "Control", "Extend", "Prepend", "SpacingMark", "ZWJ", "Regional_Indicator"}
	props := [...]charprops.GCBProperty{charprops.GCBL, charprops.GCBT, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT, charprops.GCBControl,
		charprops.GCBExtend, charprops.GCBPrepend, charprops.GCBSpacingMark, charprops.GCBZWJ, charprops.GCBRegionalIndicator}
	conj := [...]string{"Extend", "Linker", "Consonant"}
	conjProps := [...]charprops.InCBProperty{charprops.InCBExtend, charprops.InCBLinker, charprops.InCBConsonant}
	n, first := nd.Param("n"), nd.Param("first")
	x := uint32(nd.Param("seed"))
	var want [64 * len(special)]uint8
	for i := 0; i < n; i++ {
		for k := 0; k < 64; k++ {
			x = x*1664525 + 1013904223
			cp := special[first+i] + k
			v := uint8(0)
			switch a := int(x>>24) % 16; {
			case a < len(names):
				f.line(0, cp, cp, []byte(names[a]), uint8(props[a]))
				v = uint8(props[a])
			case a < 13:
				f.line(1, cp, cp, []byte("Extended_Pictographic"), uint8(charprops.GCBExtendedPictographic))
				v = uint8(charprops.GCBExtendedPictographic)
			}
			if b := int(x>>16) & 3; b < 3 {
				f.line(2, cp, cp, []byte(conj[b]), uint8(conjProps[b]))
				v |= uint8(conjProps[b])
			}
			want[64*i+k] = v
		}
	}
	t := f.build()
	nd.Reach("dense")
	b := nd.Split("block", 0, 0, n-1)
	k := nd.Int("at", 0, 0, 63)
	got := lookup(t, special[first+b]+k)
	nd.Observe("got", int(got))
	nd.Assert(got == want[64*b+k], "the tables give each code point the properties assigned to it")
	q := query(nd.Param("q"))
	inside := false
	for i := 0; i < n; i++ {
		if q>>6 == special[first+i]>>6 {
			inside = true
		}
	}
	if !inside && q >= 0x80 {
		nd.Assert(lookup(t, q) == 0, "code points that nothing was assigned to have no properties")
	}
}
