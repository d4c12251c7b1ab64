package e2e

import (
	"bufio"
	"bytes"
	"io"

	"MAINMOD/textseg"
	nd "VERIFND"
)

// pieces delivers a text in arbitrary pieces.
type pieces struct {
	data  []byte
	reads int
	empty int // empty reads left
	step  int
	fin   bool // the end may come with the last piece
}

func (r *pieces) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	most := r.step
	if most == 0 || most > len(r.data) {
		most = len(r.data)
	}
	if most > len(p) {
		most = len(p)
	}
	least := 1
	if r.empty > 0 {
		least = 0
	}
	if r.step == 0 {
		least = most
	}
	n := most
	if least < most {
		n = nd.Split("read", r.reads, 0, r.step)
		nd.Assume(n >= least && n <= most)
	}
	r.reads++
	if n == 0 {
		r.empty--
		return 0, nil
	}
	copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.fin && nd.Split("fin", 0, 0, 1) == 1 {
		return n, io.EOF
	}
	return n, nil
}

// VerifBufio (C10): bufio.Scanner over any reader gives the tokens of the
// whole text.
func VerifBufio() {
	data, _ := text(false)
	max := nd.Param("max")
	// the tokens of the whole text at once
	var want []int
	for pos := 0; pos < len(data); {
		adv, _, _ := textseg.ScanGraphemeClusters(data[pos:], true)
		adv = nd.Fix(adv)
		if adv <= 0 || adv > len(data)-pos {
			nd.Assert(false, "scanning the whole text advances")
			nd.Stop()
		}
		// there is room for it and the next character
		nd.Assume(adv+4 <= max)
		want = append(want, adv)
		pos += adv
	}
	r := &pieces{data: data, empty: nd.Param("empty"), step: nd.Param("step"), fin: nd.Param("fin") == 1}
	sc := bufio.NewScanner(r)
	if b := nd.Param("buf"); b > 0 {
		sc.Buffer(make([]byte, b), max)
	}
	odd := false
	sc.Split(func(p []byte, eof bool) (int, []byte, error) {
		adv, tok, err := textseg.ScanGraphemeClusters(p, eof)
		if tok == nil || !nd.SameStart(tok, p) {
			odd = odd || tok != nil
			return nd.Fix(adv), tok, err
		}
		adv = nd.Fix(adv)
		n := nd.Fix(len(tok))
		return adv, p[:n:n], err
	})
	pos, n := 0, 0
	for sc.Scan() {
		t := sc.Bytes()
		ok := n < len(want) && len(t) == want[n]
		nd.Assert(ok, "the scanner's tokens are those of the whole text")
		if !ok {
			nd.Stop()
		}
		nd.Assert(bytes.Equal(t, data[pos:pos+len(t)]), "the scanner's tokens hold the bytes of the text")
		pos += len(t)
		n++
	}
	nd.Observe("tokens", n)
	nd.Reach("bufio")
	nd.Assert(n == len(want), "the scanner's tokens are those of the whole text")
	nd.Assert(sc.Err() == nil, "the scanner ends without error")
}

// segment lists the tokens of a whole text by their lengths.
func segment(data []byte) []int {
	var l []int
	for len(data) > 0 {
		adv, tok, err := textseg.ScanGraphemeClusters(data, true)
		if adv <= 0 || adv > len(data) || len(tok) != adv || err != nil {
			return append(l, -1)
		}
		l = append(l, adv)
		data = data[adv:]
	}
	return l
}

// given delivers a text in the given pieces.
type given struct {
	data []byte
	n    []int
}

func (r *given) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if len(r.n) > 0 {
		n = r.n[0]
		r.n = r.n[1:]
	}
	n = copy(p, r.data[:min(n, len(r.data))])
	r.data = r.data[n:]
	return n, nil
}

func sameAsWhole(data []byte, cuts []int) bool {
	want := segment(data)
	sc := bufio.NewScanner(&given{data, cuts})
	sc.Split(textseg.ScanGraphemeClusters)
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		if len(want) == 0 || len(t) != want[0] || !bytes.Equal(t, data[pos:pos+len(t)]) {
			return false
		}
		pos += len(t)
		want = want[1:]
	}
	return len(want) == 0 && sc.Err() == nil
}

// VerifPieces (C10): what bufio.Scanner needs of the split function to give
// the same tokens for any pieces: a token returned for any leading part of the
// text is the one of the whole text. Replayed with bufio.Scanner itself.
func VerifPieces() {
	data, _ := text(false)
	n := len(data)
	if nd.Native() {
		var ones []int
		for range data {
			ones = append(ones, 1)
		}
		ok := sameAsWhole(data, nil) && sameAsWhole(data, ones)
		for k := 1; k < n; k++ {
			if !ends(k, n) {
				continue
			}
			ok = ok && sameAsWhole(data, []int{k}) && sameAsWhole(data, []int{k, 0, 1}) && sameAsWhole(data, append([]int{k}, ones...))
		}
		nd.Reach("pieces")
		nd.Assert(ok, "bufio.Scanner gives the tokens of the whole text however it is delivered")
		return
	}
	a, t, err := textseg.ScanGraphemeClusters(data, true)
	nd.Reach("pieces")
	nd.Assert(err == nil && a > 0 && a <= n && len(t) == a && nd.SameStart(t, data), "a whole text gives its first token")
	for k := 0; k <= n; k++ {
		if !ends(k, n) {
			continue
		}
		a1, t1, e1 := textseg.ScanGraphemeClusters(data[:k:k], false)
		nd.Assert(e1 == nil && (a1 == 0 && t1 == nil || a1 == a && len(t1) == a && nd.SameStart(t1, data)), "a token returned for a leading part is the one of the whole text")
	}
}

var (
	stubText []byte
	stubPos  int
)

// StubSplit stands for any split function with the property above: the text is
// cut anywhere, and a token is returned for some leading part that contains
// it, or at the end of the input at the latest. With the parameter look above
// zero, it is returned when so many bytes after it are present.
func StubSplit(p []byte, eof bool) (int, []byte, error) {
	n := len(stubText)
	if len(p) == 0 {
		return 0, nil, nil
	}
	i, j := stubPos, stubPos+len(p)
	nd.Assert(j <= n && bytes.Equal(p, stubText[i:j]), "bufio.Scanner passes on the text")
	end := i + 1
	for end < n && nd.Split("cut", end, 0, 1) == 0 {
		end++
	}
	if l := nd.Param("look"); l > 0 {
		nd.Assume(end+l-i <= nd.Param("max"))
	}
	if end > j {
		return 0, nil, nil
	}
	if !eof {
		if l := nd.Param("look"); l == 0 || j < min(end+l, n+1) {
			if nd.Split("early", i*64+j, 0, 1) == 0 {
				return 0, nil, nil
			}
		}
	}
	stubPos = end
	return end - i, p[: end-i : end-i], nil
}

// VerifBufioStub (C10): bufio.Scanner over any reader with any split function
// that has the property above.
func VerifBufioStub() {
	n := nd.Param("n")
	stubText, stubPos = make([]byte, n), 0
	for i := range stubText {
		stubText[i] = byte('a' + i)
	}
	r := &pieces{data: stubText, empty: nd.Param("empty"), step: nd.Param("step"), fin: nd.Param("fin") == 1}
	sc := bufio.NewScanner(r)
	if b := nd.Param("buf"); b > 0 {
		sc.Buffer(make([]byte, b), nd.Param("max"))
	}
	sc.Split(textseg.ScanGraphemeClusters)
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		end := pos + 1
		if nd.Native() {
			end = pos + len(t)
		} else {
			for end < n && nd.Split("cut", end, 0, 1) == 0 {
				end++
			}
		}
		nd.Assert(len(t) == end-pos && bytes.Equal(t, stubText[pos:end]), "the scanner's tokens are those of the whole text")
		pos = end
	}
	nd.Reach("bufio")
	nd.Assert(pos == n, "the scanner's tokens are those of the whole text")
	nd.Assert(sc.Err() == nil, "the scanner ends without error")
}
