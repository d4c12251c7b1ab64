// Package ucd checks the parsers of the Unicode data files.
package ucd

import (
	"io"

	"MAINMOD/textseg/internal/charprops/ucdparse"
	nd "VERIFND"
)

// file is a reader over fixed contents.
type file struct {
	data []byte
	step int // largest read, 0 = any; negative: -step, with empty reads and the end reported with the last data
	pos  int
	turn bool
}

func (f *file) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := len(f.data) - f.pos
	step := f.step
	if step < 0 {
		f.turn = !f.turn
		if f.turn {
			return 0, nil
		}
		step = -step
	}
	if step > 0 && n > step {
		n = step
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.step < 0 && f.pos == len(f.data) {
		return n, io.EOF
	}
	return n, nil
}

func hexVal(b byte) int {
	switch {
	case '0' <= b && b <= '9':
		return int(b - '0')
	case 'a' <= b && b <= 'f':
		return int(b-'a') + 10
	case 'A' <= b && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

func isSpace(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\v' || b == '\f' || b == '\r'
}

func trim(b []byte) []byte {
	for len(b) > 0 && isSpace(b[0]) {
		b = b[1:]
	}
	for len(b) > 0 && isSpace(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	return b
}

// builder puts a file together out of symbolic pieces of fixed length.
type builder struct {
	buf    []byte
	nd, nw int
	nf     int
}

func (b *builder) lit(s string) { b.buf = append(b.buf, s...) }

// hex appends n hex digits, in either case, and returns their value.
func (b *builder) hex(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		d := nd.U8("digit", b.nd)
		b.nd++
		h := hexVal(d)
		nd.Assume(h >= 0)
		v = v<<4 | h
		b.buf = append(b.buf, d)
	}
	return v
}

// space appends n blanks or tabs.
func (b *builder) space(n int) {
	for i := 0; i < n; i++ {
		c := nd.U8("space", b.nw)
		b.nw++
		nd.Assume(c == ' ' || c == '\t')
		b.buf = append(b.buf, c)
	}
}

// field appends n printable ASCII characters that separate nothing.
func (b *builder) field(n int) []byte {
	i0 := len(b.buf)
	for i := 0; i < n; i++ {
		c := nd.U8("field", b.nf)
		b.nf++
		nd.Assume(c >= 0x20 && c < 0x7f && c != ';' && c != '#' || c == '\t')
		b.buf = append(b.buf, c)
	}
	return append([]byte(nil), b.buf[i0:]...)
}

// comment appends # and n arbitrary bytes of the same line.
func (b *builder) comment(n int) {
	if n < 0 {
		return
	}
	b.buf = append(b.buf, '#')
	for i := 0; i < n; i++ {
		c := nd.U8("comment", len(b.buf))
		nd.Assume(c != '\n')
		b.buf = append(b.buf, c)
	}
}

func (b *builder) eol(kind int) {
	switch kind {
	case 0:
		b.lit("\n")
	case 1:
		b.lit("\r\n")
	}
}

func eq(a string, b []byte) bool { return a == string(b) }

type item struct {
	start, end int // end exclusive
	fields     [][]byte
}

// dataLine appends a data line; d2 = 0 for a single code point.
func (b *builder) dataLine(d1, d2, sp, nf, flen, cmt, eol int) item {
	var it item
	b.space(sp)
	it.start = b.hex(d1)
	it.end = it.start
	if d2 > 0 {
		b.lit("..")
		it.end = b.hex(d2)
		nd.Assume(it.start <= it.end)
	}
	nd.Assume(it.end <= 0x10FFFF)
	it.end++
	b.space(sp)
	for i := 0; i < nf; i++ {
		b.lit(";")
		b.space(sp)
		it.fields = append(it.fields, trim(b.field(flen)))
		b.space(sp)
	}
	b.comment(cmt)
	b.eol(eol)
	return it
}

func checkEntry(e ucdparse.Entry, err error, it item) {
	nd.Assert(err == nil, "a data line is read without error")
	if err != nil {
		nd.Stop()
	}
	nd.Observe("start", int(e.Start))
	nd.Observe("end", int(e.End))
	nd.Assert(int(e.Start) == it.start, "start of the range")
	nd.Assert(int(e.End) == it.end, "end of the range")
	nd.Assert(eq(e.FirstField(), it.fields[0]), "first field")
	// iterated twice, and once only up to its first item
	for round := 0; round < 3; round++ {
		n := 0
		seq := e.AllFields()
		if round == 1 {
			seq(func(s string) bool {
				nd.Assert(eq(s, it.fields[0]), "first of the fields")
				n++
				return false
			})
			nd.Assert(n == 1, "iteration stops when told")
			continue
		}
		for again := 0; again < 2; again++ {
			n = 0
			seq(func(s string) bool {
				if n < len(it.fields) {
					nd.Assert(eq(s, it.fields[n]), "fields in order, trimmed")
				}
				n++
				return true
			})
			nd.Assert(n == len(it.fields), "number of fields")
		}
	}
}

// stillEntry is checkEntry for an entry that has been kept.
func stillEntry(e ucdparse.Entry, it item) {
	nd.Assert(int(e.Start) == it.start && int(e.End) == it.end, "the range of an entry that is kept")
	n := 0
	e.AllFields()(func(s string) bool {
		nd.Assert(n < len(it.fields) && eq(s, it.fields[n]), "the fields of an entry that is kept")
		n++
		return true
	})
	nd.Assert(n == len(it.fields), "number of fields of an entry that is kept")
}

func atEnd(sc ucdparse.Scanner) {
	for i := 0; i < 2; i++ {
		e, err := sc.NextEntry()
		nd.Assert(err == io.EOF, "the end of the file is reported")
		nd.Assert(e.Start == 0 && e.End == 0, "no entry at the end of the file")
	}
}

// VerifLine: one data line of a given shape, between lines without data.
func VerifLine() {
	b := &builder{}
	if n := nd.Param("before"); n >= 0 {
		// a blank or comment line before
		b.space(1)
		b.comment(n)
		b.lit("\n")
	}
	it := b.dataLine(nd.Param("d1"), nd.Param("d2"), nd.Param("sp"), nd.Param("nf"), nd.Param("flen"), nd.Param("cmt"), nd.Param("eol"))
	sc := ucdparse.NewScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	checkEntry(e, err, it)
	atEnd(sc)
	nd.Reach("line")
}

// VerifLines: two data lines come out in order, and the entry of the first
// still is the same when the second and the end have been read.
func VerifLines() {
	b := &builder{}
	it1 := b.dataLine(nd.Param("d1"), nd.Param("d2"), 1, 1, nd.Param("flen"), nd.Param("cmt"), 0)
	if n := nd.Param("gap"); n > 0 {
		b.lit("\n# x ; y\n \n#")
		b.pad(n, false)
		b.lit("\n")
	}
	it2 := b.dataLine(nd.Param("d2")+1, 0, 1, 2, nd.Param("flen"), -1, 0)
	if n := nd.Param("gap"); n > 1 {
		b.lit("#")
		b.pad(n, false)
	}
	sc := ucdparse.NewScanner(&file{data: b.buf, step: nd.Param("step")})
	e1, err1 := sc.NextEntry()
	checkEntry(e1, err1, it1)
	e2, err2 := sc.NextEntry()
	checkEntry(e2, err2, it2)
	atEnd(sc)
	stillEntry(e1, it1)
	stillEntry(e2, it2)
	nd.Reach("lines")
}

const padding = "0041..005A ; Lo ; Abc-Def_1 "

// pad appends n characters of a fixed text, without separators if plain.
func (b *builder) pad(n int, plain bool) {
	text := padding
	if plain {
		text = "Abc def-Ghi_"
	}
	for i := 0; i < n; i++ {
		b.buf = append(b.buf, text[i%len(text)])
	}
}

// VerifLong: a long data line of nf fields of flen characters, all of them
// fixed but for the first two and the last two of the fields at and at+1, with
// a long comment.
func VerifLong() {
	b := &builder{}
	nf, flen, at := nd.Param("nf"), nd.Param("flen"), nd.Param("at")
	var it item
	it.start = b.hex(5)
	nd.Assume(it.start <= 0x10FFFF)
	it.end = it.start + 1
	for i := 0; i < nf; i++ {
		b.lit(";")
		i0 := len(b.buf)
		if i == at || i == at+1 {
			b.field(2)
			for j := 0; j < flen; j++ {
				b.buf = append(b.buf, "ab cd"[j%5])
			}
			b.field(2)
		} else {
			for j := 0; j < flen; j++ {
				b.buf = append(b.buf, 'a'+byte((i+j)%26))
			}
		}
		it.fields = append(it.fields, trim(append([]byte(nil), b.buf[i0:]...)))
	}
	b.lit(" #")
	b.pad(nd.Param("cmt"), false)
	b.lit("\n")
	sc := ucdparse.NewScanner(&file{data: b.buf, step: nd.Param("step")})
	e, err := sc.NextEntry()
	checkEntry(e, err, it)
	atEnd(sc)
	nd.Reach("long")
}

const hexDigits = "0123456789ABCDEF"

// VerifMany: a file of n data lines of fixed text but for one digit and one
// character of the field in every line whose number ends in the decimal digit
// at. All entries are kept and looked at in the end.
func VerifMany() {
	b := &builder{}
	n, at := nd.Param("n"), nd.Param("at")
	var items []item
	for i := 0; i < n; i++ {
		var it item
		b.lit("1")
		b.lit(hexDigits[i>>4&15 : i>>4&15+1])
		b.lit(hexDigits[i&15 : i&15+1])
		it.start = 0x1000 | (i&0xFF)<<4
		if i%10 == at {
			it.start |= b.hex(1)
		} else {
			b.lit("0")
		}
		it.end = it.start
		if i%3 == 1 {
			b.lit("..2000")
			it.end = 0x2000
		}
		it.end++
		b.lit(" ; ")
		i0 := len(b.buf)
		b.lit("F")
		if i%10 == at {
			b.field(1)
		}
		if i%3 == 0 {
			// some of the lines are long
			b.pad(nd.Param("more"), true)
		}
		b.lit(hexDigits[i%16 : i%16+1])
		it.fields = append(it.fields, append([]byte(nil), b.buf[i0:]...))
		if i%4 == 2 {
			b.lit("; second")
			it.fields = append(it.fields, []byte("second"))
		}
		b.lit(" # ")
		b.pad(nd.Param("cmt"), false)
		b.lit("\n")
		items = append(items, it)
	}
	sc := ucdparse.NewScanner(&file{data: b.buf, step: nd.Param("step")})
	var es []ucdparse.Entry
	for i := range items {
		e, err := sc.NextEntry()
		nd.Assert(err == nil, "a data line is read without error")
		if err != nil {
			nd.Stop()
		}
		nd.Assert(int(e.Start) == items[i].start, "start of the range")
		es = append(es, e)
	}
	atEnd(sc)
	for i := range items {
		stillEntry(es[i], items[i])
	}
	nd.Reach("many")
}

// VerifTooLong: a line that the reader of lines cannot hold is an error, and
// never an entry that lacks something. (A reader that holds it is as good.)
func VerifTooLong() {
	b := &builder{}
	n, cmt := nd.Param("n"), nd.Param("comment")
	b.lit("0041 ; A")
	i0 := len(b.buf) - 1
	if cmt > 0 {
		b.lit(" #")
	}
	b.pad(n, cmt == 0)
	var field []byte
	if cmt > 0 {
		field = []byte("A")
	} else {
		b.lit("z")
		field = b.buf[i0:len(b.buf):len(b.buf)]
	}
	b.lit("\n0042 ; B\n")
	sc := ucdparse.NewScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	if err != nil {
		nd.Assert(err != io.EOF, "a line that is too long is reported")
		nd.Assert(e.Start == 0 && e.End == 0, "no entry from a line that is too long")
		nd.Reach("toolong")
		return
	}
	nd.Assert(e.Start == 0x41 && e.End == 0x42 && eq(e.FirstField(), field), "the entry of a very long line")
	e, err = sc.NextEntry()
	nd.Assert(err == nil && e.Start == 0x42 && e.End == 0x43 && eq(e.FirstField(), []byte("B")), "the entry after a very long line")
	nd.Reach("toolong")
}

// VerifHeld: a line of n bytes, which is not too long, with arbitrary bytes
// beyond ASCII in its field, delivered in reads of step bytes.
func VerifHeld() {
	b := &builder{}
	var it item
	b.lit("# ")
	b.pad(nd.Param("before"), false)
	b.lit("\n")
	it.start = b.hex(4)
	it.end = it.start + 1
	b.lit(" ; ")
	i0 := len(b.buf)
	b.lit("A")
	b.pad(nd.Param("n"), true)
	b.lit("m")
	for i := 0; i < nd.Param("beyond"); i++ {
		c := nd.U8("beyond", i)
		nd.Assume(c >= 0x80)
		b.buf = append(b.buf, c)
	}
	b.lit("z")
	it.fields = append(it.fields, append([]byte(nil), b.buf[i0:]...))
	b.lit(" ; ")
	i0 = len(b.buf)
	b.lit("y")
	c := nd.U8("beyond2", 0)
	nd.Assume(c >= 0x80)
	b.buf = append(b.buf, c, 'x')
	it.fields = append(it.fields, append([]byte(nil), b.buf[i0:]...))
	b.lit("\n")
	sc := ucdparse.NewScanner(&file{data: b.buf, step: nd.Param("step")})
	e, err := sc.NextEntry()
	checkEntry(e, err, it)
	atEnd(sc)
	stillEntry(e, it)
	nd.Reach("held")
}

// VerifBad: a data line one of whose code points is not a hex number of a
// code point is an error, not a range.
func VerifBad() {
	b := &builder{}
	d, second := nd.Param("d"), nd.Param("second")
	if second > 0 {
		b.hex(4)
		b.lit("..")
	}
	i0 := len(b.buf)
	for i := 0; i < d; i++ {
		c := nd.U8("bad", i)
		nd.Assume(c != ';' && c != '#' && c != '\n' && c != '.' && c < 0x80)
		b.buf = append(b.buf, c)
	}
	cp := b.buf[i0:]
	// surrounding space is no part of it, except between the dots and the number
	rest := cp
	if second > 0 {
		for len(rest) > 0 && isSpace(rest[len(rest)-1]) {
			rest = rest[:len(rest)-1]
		}
	} else {
		rest = trim(rest)
	}
	ok, v := len(rest) > 0, 0
	for i := 0; i < len(rest); i++ {
		h := hexVal(rest[i])
		if h < 0 {
			ok = false
			break
		}
		v = v<<4 | h
	}
	nd.Assume(!ok || v > 0x10FFFF)
	b.lit("; x\n0041 ; y\n")
	sc := ucdparse.NewScanner(&file{data: b.buf})
	e, err := sc.NextEntry()
	nd.Observe("start", int(e.Start))
	nd.Observe("end", int(e.End))
	nd.Assert(err != nil && err != io.EOF, "a malformed code point is reported")
	nd.Reach("bad")
}

type failing struct{ n int }

var errRead = io.ErrClosedPipe

func (f *failing) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, errRead
	}
	f.n = 0
	return copy(p, "0041 ; x\n"), nil
}

// VerifReadError: a failing reader is reported, not taken for the end.
func VerifReadError() {
	n := nd.Split("n", 0, 0, 1)
	sc := ucdparse.NewScanner(&failing{n})
	if n == 1 {
		e, err := sc.NextEntry()
		nd.Assert(err == nil && e.Start == 0x41 && e.End == 0x42, "the line before the failure")
	}
	_, err := sc.NextEntry()
	nd.Assert(err != nil && err != io.EOF, "the failure of the reader is reported")
	tc := ucdparse.NewTestDataScanner(&failing{0})
	_, err = tc.NextEntry()
	nd.Assert(err != nil && err != io.EOF, "the failure of the reader is reported")
	nd.Reach("readerror")
}

func index(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

// refNumber reads a code point; -1 if it is none.
func refNumber(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	v := 0
	for _, c := range b {
		h := hexVal(c)
		if h < 0 {
			return -1
		}
		v = v<<4 | h
		if v > 0x10FFFF {
			return -1
		}
	}
	return v
}

var names = [...]string{"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15", "b16", "b17", "b18", "b19"}

// anyByte is an arbitrary byte of one of the kinds that the formats tell
// apart, which are explored one by one.
func anyByte(i, kind int) byte {
	r := func(lo, hi int) byte { return byte(nd.Int(names[kind], i, lo, hi)) }
	switch kind {
	case 0:
		return r('0', '9')
	case 1:
		return r('A', 'F')
	case 2:
		return ';'
	case 3:
		return '\n'
	case 4:
		return '.'
	case 5:
		return ' '
	case 6:
		return '#'
	case 7:
		return '\r'
	case 8:
		return r('a', 'f')
	case 9:
		return '\t'
	case 10:
		return r('g', 0x7f)
	case 11:
		return r('G', '`')
	case 12:
		return r('!', '"')
	case 13:
		return r('$', '-')
	case 14:
		return '/'
	case 15:
		return ':'
	case 16:
		return r('<', '@')
	case 17:
		return r(0, 8)
	case 18:
		return r('\v', '\f')
	default:
		return r(0x0e, 0x1f)
	}
}

// VerifRaw: a file of n arbitrary ASCII bytes, against a reading of the
// format of its own.
func VerifRaw() {
	n, kinds := nd.Param("n"), nd.Param("kinds")
	buf := make([]byte, n)
	for i := range buf {
		k := 0
		switch i {
		case 0:
			k = nd.Param("k0")
		case 1:
			k = nd.Param("k1")
		default:
			k = nd.Split("kind", i, 0, kinds-1)
		}
		buf[i] = anyByte(i, k)
	}
	sc := ucdparse.NewScanner(&file{data: buf})
	rest := buf
	for len(rest) > 0 {
		line := rest
		if i := index(rest, '\n'); i >= 0 {
			line, rest = rest[:i], rest[i+1:]
		} else {
			rest = nil
		}
		if i := index(line, '#'); i >= 0 {
			line = line[:i]
		}
		i := index(line, ';')
		if i < 0 {
			continue // no data line
		}
		rng, fields := trim(line[:i]), line[i+1:]
		start, end := rng, rng
		for j := 0; j+1 < len(rng); j++ {
			if rng[j] == '.' && rng[j+1] == '.' {
				start, end = rng[:j], rng[j+2:]
				break
			}
		}
		s, l := refNumber(start), refNumber(end)
		e, err := sc.NextEntry()
		if s < 0 || l < 0 {
			nd.Assert(err != nil && err != io.EOF, "a malformed code point is reported")
			nd.Reach("raw")
			return
		}
		nd.Assert(err == nil, "a data line is read without error")
		if err != nil {
			return
		}
		nd.Assert(int(e.Start) == s && int(e.End) == l+1, "exactly the range of the line")
		k := 0
		e.AllFields()(func(got string) bool {
			f := fields
			if i := index(fields, ';'); i >= 0 {
				f, fields = fields[:i], fields[i+1:]
			} else {
				fields = nil
			}
			nd.Assert(eq(got, trim(f)), "fields in order, trimmed")
			if k == 0 {
				nd.Assert(eq(e.FirstField(), trim(f)), "first field")
			}
			k++
			return true
		})
		nd.Assert(k > 0 && len(fields) == 0, "every field is given")
	}
	_, err := sc.NextEntry()
	nd.Assert(err == io.EOF, "the end of the file is reported")
	nd.Reach("raw")
}
