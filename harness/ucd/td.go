package ucd

import (
	"io"
	"unicode/utf8"

	"MAINMOD/textseg/internal/charprops/ucdparse"
	nd "VERIFND"
)

func encode(v int) []byte {
	switch {
	case v < 0x80:
		return []byte{byte(v)}
	case v < 0x800:
		return []byte{byte(0xC0 | v>>6), byte(0x80 | v&0x3F)}
	case v < 0x10000:
		return []byte{byte(0xE0 | v>>12), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)}
	default:
		return []byte{byte(0xF0 | v>>18), byte(0x80 | v>>12&0x3F), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)}
	}
}

type testLine struct {
	input []byte
	segs  [][]byte
}

// testLine appends a line of the break test format with n characters of d hex
// digits each; marks and digits are arbitrary.
func (b *builder) testLine(n, d, sp, cmt, eol int) testLine {
	var t testLine
	b.space(sp)
	b.lit("÷")
	var seg []byte
	for i := 0; i < n; i++ {
		b.space(sp)
		v := b.hex(d)
		nd.Assume(v <= 0x10FFFF && (v < 0xD800 || v > 0xDFFF))
		if k := nd.Param("utf8"); k > 0 {
			// the i-th decimal digit of utf8 is the encoded length
			for j := 0; j < i; j++ {
				k /= 10
			}
			nd.Assume(utf8.RuneLen(rune(v)) == k%10)
		}
		enc := encode(v)
		t.input = append(t.input, enc...)
		seg = append(seg, enc...)
		b.space(sp)
		if i == n-1 || nd.Split("break", i, 0, 1) == 1 {
			b.lit("÷")
			t.segs = append(t.segs, seg)
			seg = nil
		} else {
			b.lit("×")
		}
	}
	b.space(sp)
	b.comment(cmt)
	b.eol(eol)
	return t
}

func checkTest(e ucdparse.TestDataEntry, err error, t testLine) {
	nd.Assert(err == nil, "a test line is read without error")
	if err != nil {
		nd.Stop()
	}
	nd.Observe("length", len(e.Input))
	nd.Assert(eq(string(e.Input), t.input), "the input is the listed characters in order")
	nd.Assert(len(e.WantSegments) == len(t.segs), "a segment ends at each break mark and nowhere else")
	for i, s := range e.WantSegments {
		if i < len(t.segs) {
			nd.Assert(eq(string(s), t.segs[i]), "segments hold the characters between the break marks")
		}
	}
}

func testEnd(sc ucdparse.TestDataScanner) {
	for i := 0; i < 2; i++ {
		e, err := sc.NextEntry()
		nd.Assert(err == io.EOF, "the end of the file is reported")
		nd.Assert(len(e.Input) == 0 && len(e.WantSegments) == 0, "no entry at the end of the file")
	}
}

// VerifTest: one test line of a given shape, between lines without data.
func VerifTest() {
	b := &builder{}
	if n := nd.Param("before"); n >= 0 {
		b.space(1)
		b.comment(n)
		b.lit("\n")
	}
	t := b.testLine(nd.Param("n"), nd.Param("d"), nd.Param("sp"), nd.Param("cmt"), nd.Param("eol"))
	if nd.Param("eol") < 2 {
		b.lit("\n \t\n# 0041\n")
	}
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	checkTest(e, err, t)
	testEnd(sc)
	nd.Reach("test")
}

// VerifTests: two test lines; what the first gave stays as it was when the
// second is read.
func VerifTests() {
	b := &builder{}
	t1 := b.testLine(nd.Param("n"), nd.Param("d"), 1, 1, 0)
	t2 := b.testLine(nd.Param("n2"), nd.Param("d"), 1, -1, 2)
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf, step: nd.Param("step")})
	e1, err1 := sc.NextEntry()
	checkTest(e1, err1, t1)
	e2, err2 := sc.NextEntry()
	checkTest(e2, err2, t2)
	checkTest(e1, err1, t1)
	testEnd(sc)
	nd.Reach("tests")
}

var fixedChars = []int{0x41, 0x300, 0x1100, 0x1F3FB, 0x200D, 0xE0020, 0xD, 0xA, 0x7FF, 0x10FFFF, 0xAC00, 0xFFFF}

// fixed appends a fixed character of a test line.
func (b *builder) fixed(i int) []byte {
	v := fixedChars[i%len(fixedChars)]
	for d := 20; d >= 0; d -= 4 {
		if d < 16 || v>>d != 0 {
			b.lit(hexDigits[v>>d&15 : v>>d&15+1])
		}
	}
	return encode(v)
}

// VerifTestLong: a long test line of n characters, all of them fixed but for
// one from number at on, and with all marks fixed but for the w ones there.
func VerifTestLong() {
	b := &builder{}
	n, at, w := nd.Param("n"), nd.Param("at"), nd.Param("w")
	var t testLine
	var seg []byte
	b.lit("÷")
	for i := 0; i < n; i++ {
		b.lit(" ")
		var enc []byte
		if i == at {
			v := b.hex(nd.Param("d"))
			nd.Assume(v <= 0x10FFFF && (v < 0xD800 || v > 0xDFFF))
			nd.Assume(utf8.RuneLen(rune(v)) == nd.Param("utf8"))
			enc = encode(v)
		} else {
			enc = b.fixed(i)
		}
		t.input = append(t.input, enc...)
		seg = append(seg, enc...)
		b.lit(" ")
		brk := i == n-1 || i%nd.Param("every") == 0
		if i >= at && i < at+w && i < n-1 {
			brk = nd.Split("break", i, 0, 1) == 1
		}
		if brk {
			b.lit("÷")
			t.segs = append(t.segs, seg)
			seg = nil
		} else {
			b.lit("×")
		}
	}
	b.lit("\t#")
	b.pad(nd.Param("cmt"), false)
	b.lit("\n")
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf, step: nd.Param("step")})
	e, err := sc.NextEntry()
	checkTest(e, err, t)
	testEnd(sc)
	nd.Reach("long")
}

// VerifTestMany: n test lines of fixed text but for one digit and one mark in
// those whose number ends in the decimal digit at. All entries are kept and
// looked at in the end.
func VerifTestMany() {
	b := &builder{}
	n, at := nd.Param("n"), nd.Param("at")
	var ts []testLine
	for i := 0; i < n; i++ {
		var t testLine
		b.lit("÷ ")
		enc := b.fixed(i)
		t.input = append(t.input, enc...)
		seg := enc
		if i%2 == 1 {
			b.lit(" ÷ ")
			t.segs = append(t.segs, seg)
			seg = nil
		} else {
			b.lit(" × ")
		}
		if i%10 == at {
			b.lit("1F0")
			v := 0x1F000 | b.hex(2)
			enc = encode(v)
		} else {
			enc = b.fixed(i + 3)
		}
		t.input = append(t.input, enc...)
		seg = append(append([]byte(nil), seg...), enc...)
		if i%3 == 0 {
			// some of the lines are long
			for j := 0; j < nd.Param("more"); j++ {
				if j%7 == 3 {
					b.lit(" ÷ ")
					t.segs = append(t.segs, seg)
					seg = nil
				} else {
					b.lit(" × ")
				}
				enc = b.fixed(i + j)
				t.input = append(t.input, enc...)
				seg = append(append([]byte(nil), seg...), enc...)
			}
		}
		t.segs = append(t.segs, seg)
		b.lit(" ÷\t# ")
		b.pad(nd.Param("cmt"), false)
		b.lit("\n")
		ts = append(ts, t)
	}
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf, step: nd.Param("step")})
	var es []ucdparse.TestDataEntry
	for i := range ts {
		e, err := sc.NextEntry()
		checkTest(e, err, ts[i])
		es = append(es, e)
	}
	testEnd(sc)
	for i := range ts {
		checkTest(es[i], nil, ts[i])
	}
	nd.Reach("many")
}

// VerifTestTooLong: a line that the reader of lines cannot hold is an error,
// and never an entry that lacks something.
func VerifTestTooLong() {
	b := &builder{}
	n, cmt := nd.Param("n"), nd.Param("comment")
	want := 2
	b.lit("÷ 0041 ÷")
	if cmt > 0 {
		b.lit(" #")
		b.pad(n, false)
		want--
	} else {
		for i := 0; i < n; i++ {
			b.lit(" ")
		}
		b.lit("0042 ÷")
	}
	b.lit("\n÷ 0043 ÷\n")
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	if err != nil {
		nd.Assert(err != io.EOF, "a line that is too long is reported")
		nd.Reach("toolong")
		return
	}
	nd.Assert(len(e.Input) == want && len(e.WantSegments) == want && e.Input[0] == 'A', "the entry of a very long line")
	e, err = sc.NextEntry()
	nd.Assert(err == nil && len(e.Input) == 1 && e.Input[0] == 'C' && len(e.WantSegments) == 1, "the entry after a very long line")
	nd.Reach("toolong")
}

// VerifTestBad: something else than a scalar value in hex between the marks is
// an error.
func VerifTestBad() {
	b := &builder{}
	b.lit("÷ ")
	d := nd.Param("d")
	i0 := len(b.buf)
	for i := 0; i < d; i++ {
		c := nd.U8("bad", i)
		nd.Assume(c < 0x80 && c != '#' && c != '\n' && !isSpace(c))
		b.buf = append(b.buf, c)
	}
	ok, v := true, 0
	for _, c := range b.buf[i0:] {
		h := hexVal(c)
		if h < 0 {
			ok = false
			break
		}
		v = v<<4 | h
	}
	nd.Assume(!ok || v > 0x10FFFF || v >= 0xD800 && v <= 0xDFFF)
	if nd.Param("after") > 0 {
		b.lit(" × 0041")
	}
	b.lit(" ÷\n")
	sc := ucdparse.NewTestDataScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	nd.Observe("length", len(e.Input))
	nd.Assert(err != nil && err != io.EOF, "an invalid code point is reported")
	nd.Reach("bad")
}

// VerifTestRaw: a file of n units, each a break mark or an arbitrary ASCII
// byte, against a reading of the format of its own.
func VerifTestRaw() {
	n, kinds := nd.Param("n"), nd.Param("kinds")
	var buf []byte
	for i := 0; i < n; i++ {
		k := 0
		switch i {
		case 0:
			k = nd.Param("k0")
		case 1:
			k = nd.Param("k1")
		default:
			k = nd.Split("kind", i, 0, kinds-1)
		}
		switch k {
		case 2:
			buf = append(buf, "÷"...)
		case 4:
			buf = append(buf, "×"...)
		default:
			buf = append(buf, anyByte(i, k))
		}
	}
	sc := ucdparse.NewTestDataScanner(&file{data: buf})
	rest := buf
	for len(rest) > 0 {
		line := rest
		if i := index(rest, '\n'); i >= 0 {
			line, rest = rest[:i], rest[i+1:]
		} else {
			rest = nil
		}
		if i := index(line, '#'); i >= 0 {
			line = line[:i]
		}
		line = trim(line)
		if len(line) == 0 {
			continue
		}
		var input []byte
		var segs [][]byte
		var seg []byte
		bad := false
		for len(line) > 0 && !bad {
			i := 0
			for i < len(line) && line[i] != 0xC3 {
				i++
			}
			if c := trim(line[:i]); len(c) > 0 {
				v := refNumber(c)
				if v < 0 || v >= 0xD800 && v <= 0xDFFF {
					bad = true
					break
				}
				enc := encode(v)
				input = append(input, enc...)
				seg = append(seg, enc...)
			}
			if i == len(line) {
				line = nil
			} else {
				if line[i+1] == 0xB7 && len(seg) > 0 {
					segs = append(segs, seg)
					seg = nil
				}
				line = line[i+2:]
			}
		}
		e, err := sc.NextEntry()
		if bad {
			nd.Assert(err != nil && err != io.EOF, "an invalid code point is reported")
			nd.Reach("raw")
			return
		}
		if len(seg) > 0 {
			segs = append(segs, seg)
		}
		checkTest(e, err, testLine{input, segs})
	}
	_, err := sc.NextEntry()
	nd.Assert(err == io.EOF, "the end of the file is reported")
	nd.Reach("raw")
}
