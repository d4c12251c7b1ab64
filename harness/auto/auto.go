// Package auto checks the wrapper that picks an implementation by Go release.
package auto

import (
	"bufio"
	"bytes"
	"errors"

	"THISMOD/textseg"
	v15 "UNVERSIONED/v15/textseg"
	v17 "UNVERSIONED/v17/textseg"
	nd "VERIFND"
)

func impl(major int) bufio.SplitFunc {
	switch major {
	case 15:
		return v15.ScanGraphemeClusters
	case 17:
		return v17.ScanGraphemeClusters
	}
	nd.Fail("no implementation of the Unicode version announced")
	nd.Stop()
	return nil
}

var longFill = [...]string{"a", "\u0301", "\U0001F469\u200D"}

// buffer is n arbitrary bytes, with room after them.
func buffer() []byte {
	n := nd.Param("n")
	b := make([]byte, n, n+2)
	if k := -nd.Param("text"); k > 0 {
		// long: fixed but for the first, two middle ones and the last, or
		// (tens digit) for the last only
		free := []int{0, n / 2, n/2 + 1, n - 1}
		if k > 10 {
			k -= 10
			free = free[3:]
		}
		for i := range b {
			b[i] = longFill[k-1][i%len(longFill[k-1])]
		}
		for _, i := range free {
			b[i] = nd.U8("b", i)
		}
		return b
	}
	for i := range b {
		b[i] = nd.U8("b", i)
	}
	if nd.Param("text") == 0 {
		return b
	}
	// digits of text: kinds of the units, 1-4 length of a sequence, 5 malformed
	b = b[:0]
	i := 0
	for p := nd.Param("text"); p > 0; p /= 10 {
		k := p % 10
		var x [4]uint8
		for j := range x {
			x[j] = nd.U8("u", 4*i+j)
		}
		switch k {
		case 1:
			b = append(b, x[0]&0x7F)
		case 2:
			b = append(b, 0xC0|x[0]&0x1F, 0x80|x[1]&0x3F)
		case 3:
			b = append(b, 0xE0|x[0]&0x0F, 0x80|x[1]&0x3F, 0x80|x[2]&0x3F)
		case 4:
			b = append(b, 0xF0|x[0]&0x07, 0x80|x[1]&0x3F, 0x80|x[2]&0x3F, 0x80|x[3]&0x3F)
		default:
			b = append(b, 0x80|x[0]&0x7F)
		}
		i++
	}
	return b
}

func compare(split, want bufio.SplitFunc, data []byte) {
	eof := nd.Bool("eof", 0)
	before := append([]byte(nil), data...)
	a1, t1, e1 := split(data, eof)
	a2, t2, e2 := want(data, eof)
	if nd.Param("stub") == 0 {
		nd.Observe("adv", a2)
		nd.Observe("len", len(t2))
	}
	nd.Reach("scan")
	nd.Assert(a1 == a2, "the advance is passed through")
	nd.Assert((t1 == nil) == (t2 == nil) && len(t1) == len(t2), "the token is passed through")
	nd.Assert(t1 == nil || t2 == nil || len(t1) == 0 || nd.SameStart(t1, t2), "the token lies where the implementation returned it")
	nd.Assert(e1 == e2, "the error is passed through")
	nd.Assert(bytes.Equal(before, data), "the buffer is not modified")
}

// VerifScan: the cluster scanner is the one of the version announced.
func VerifScan() { compare(textseg.ScanGraphemeClusters, impl(textseg.UnicodeMajorVersion), buffer()) }

// VerifStd: the cluster scanner is the one of the standard library's version.
func VerifStd() { compare(textseg.ScanGraphemeClusters, impl(stdMajor), buffer()) }

// VerifUTF8: the sequence scanner is the published one.
func VerifUTF8() { compare(textseg.ScanUTF8Sequences, v15.ScanUTF8Sequences, buffer()) }

// A call of the implementation by the content it was given.
type call struct {
	data   []byte
	eof    bool
	adv    int
	lo, hi int
	null   bool
	fails  bool
}

var calls []call
var errStub = errors.New("stub")

// StubScan stands for an arbitrary implementation: any function of the content
// of the buffer and the end-of-input flag.
func StubScan(data []byte, eof bool) (int, []byte, error) {
	var c call
	found := false
	for _, k := range calls {
		if k.eof == eof && bytes.Equal(k.data, data) {
			c, found = k, true
		}
	}
	if !found {
		i := len(calls)
		c = call{data: append([]byte(nil), data...), eof: eof}
		c.adv = nd.Int("stubadv", i, 0, 100000)
		nd.Assume(c.adv <= len(data))
		c.null = nd.Bool("stubnil", i)
		c.hi = c.adv
		c.fails = nd.Bool("stuberr", i)
		calls = append(calls, c)
	}
	var err error
	if c.fails {
		err = errStub
	}
	if c.null {
		return c.adv, nil, err
	}
	return c.adv, data[:c.hi], err
}

var splits int // calls so far

// an arbitrary split function of what is left of the buffer and the
// end-of-input flag, or of the number of calls
func anySplit(data []byte, eof bool) (int, []byte, error) {
	if len(data) == 0 {
		return 0, nil, nil
	}
	k := 2 * len(data)
	if eof {
		k++
	}
	if nd.Param("state") > 0 {
		k = splits
		splits++
	}
	adv := nd.Split("adv", k, 0, nd.Param("maxadv"))
	nd.Assume(adv <= len(data))
	var err error
	switch nd.Split("err", k, 0, 2) {
	case 1:
		err = errStub
	case 2:
		err = bufio.ErrFinalToken
	}
	if adv == 0 {
		if eof && err == nil {
			// no progress is possible: the token ends the scan
			return len(data), data, nil
		}
		return 0, nil, err
	}
	switch nd.Split("tok", k, 0, 2) {
	case 1:
		return adv, nil, err // skipped
	case 2:
		return adv, data[adv-1 : adv], err
	}
	return adv, data[:adv], err
}

func sameTokens(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// VerifCount: TokenCount is the published one for any split function.
func VerifCount() {
	data := buffer()
	splits = 0
	n1, e1 := textseg.TokenCount(data, anySplit)
	splits = 0
	n2, e2 := v15.TokenCount(data, anySplit)
	nd.Observe("count", n2)
	nd.Reach("count")
	nd.Assert(n1 == n2, "the count is passed through")
	nd.Assert(e1 == e2, "the error is passed through")
}

// VerifAllTokens: AllTokens is the published one for any split function.
func VerifAllTokens() {
	data := buffer()
	splits = 0
	t1, e1 := textseg.AllTokens(data, anySplit)
	splits = 0
	t2, e2 := v15.AllTokens(data, anySplit)
	nd.Observe("count", len(t2))
	nd.Reach("tokens")
	nd.Assert((t1 == nil) == (t2 == nil) && sameTokens(t1, t2), "the tokens are passed through")
	nd.Assert(e1 == e2, "the error is passed through")
}

// VerifBig: buffers beyond the limits of bufio.Scanner, split in tokens of
// `size` bytes.
func VerifBig() {
	n, size := nd.Param("n"), nd.Param("size")
	data := make([]byte, n)
	data[n-1] = nd.U8("b", 0)
	split := func(p []byte, eof bool) (int, []byte, error) {
		if len(p) >= size {
			return size, p[:size], nil
		}
		if eof && len(p) > 0 {
			return len(p), p, nil
		}
		return 0, nil, nil
	}
	n1, e1 := textseg.TokenCount(data, split)
	n2, e2 := v15.TokenCount(data, split)
	nd.Observe("count", n2)
	nd.Assert(n1 == n2, "the count is passed through")
	nd.Assert(e1 == e2, "the error is passed through")
	t1, e1 := textseg.AllTokens(data, split)
	t2, e2 := v15.AllTokens(data, split)
	nd.Reach("big")
	nd.Assert(len(t1) == len(t2), "the tokens are passed through")
	nd.Assert(e1 == e2, "the error is passed through")
	for i := range t1 {
		if i < len(t2) && len(t1[i]) < 100 {
			nd.Assert(bytes.Equal(t1[i], t2[i]), "the tokens are passed through")
		} else if i < len(t2) {
			nd.Assert(len(t1[i]) == len(t2[i]), "the tokens are passed through")
		}
	}
}
