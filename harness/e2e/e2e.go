// Package e2e checks the public scanner.
package e2e

import (
	"sync"

	"MAINMOD/textseg"
	nd "VERIFND"
)

// A text is a sequence of units. Decoding any byte string from left to right
// gives a unique sequence of structurally complete UTF-8 sequences (kinds 1 to
// 4, by length) and malformed bytes (kind 5), so the texts of k units are all
// byte strings that decode to k units.

type unit struct {
	pos, n int
	bad    bool // malformed byte
}

// unitBytes appends the i-th unit.
func unitBytes(data []byte, i, kind int) []byte {
	var x [4]uint8
	n := kind
	if kind == 5 {
		n = 1
	}
	for k := 0; k < n; k++ {
		x[k] = nd.U8("c", 4*i+k)
	}
	switch kind {
	case 1:
		return append(data, x[0]&0x7F)
	case 2:
		return append(data, 0xC0|x[0]&0x1F, 0x80|x[1]&0x3F)
	case 3:
		return append(data, 0xE0|x[0]&0x0F, 0x80|x[1]&0x3F, 0x80|x[2]&0x3F)
	case 4:
		return append(data, 0xF0|x[0]&0x07, 0x80|x[1]&0x3F, 0x80|x[2]&0x3F, 0x80|x[3]&0x3F)
	}
	return append(data, 0x80|x[0]&0x7F)
}

// text is a text of Param(k) units. The decimal digits of Param(pat) give the
// kinds of the first ones, over and over when Param(cyc) is 1; the kinds of
// the others are arbitrary. With valid set, the units are scalar values in
// their shortest form. Param(fn) times the filler number Param(fill) stands
// after Param(at) of the units.
func text(valid bool) (data []byte, us []unit) {
	k, pat, cyc := nd.Param("k"), nd.Param("pat"), nd.Param("cyc")
	var digits []int
	for pat > 0 {
		digits = append(digits, pat%10)
		pat /= 10
	}
	fill, fn, at := "", nd.Param("fn"), nd.Param("at")
	if fn > 0 {
		fill = fillers[nd.Param("fill")]
	}
	data = make([]byte, 0, 4*k+fn*len(fill))
	us = make([]unit, 0, k+fn*len(fill))
	maxKind := 5
	if valid {
		maxKind = 4
	}
	for i := 0; i <= k; i++ {
		for j := 0; i == at && j < fn; j++ {
			for p := 0; p < len(fill); {
				l := seqLen(fill[p])
				u := unit{pos: len(data) + p, n: l}
				if l == 0 {
					u.n, u.bad = 1, true
				}
				us = append(us, u)
				p += u.n
			}
			data = append(data, fill...)
		}
		if i == k {
			break
		}
		kind := 0
		if i < len(digits) || cyc == 1 {
			kind = digits[len(digits)-1-i%len(digits)]
		} else {
			kind = nd.Split("kind", i, 1, maxKind)
		}
		u := unit{pos: len(data), n: kind}
		if kind == 5 {
			u.n = 1
			u.bad = true
		}
		data = unitBytes(data, i, kind)
		us = append(us, u)
		if valid {
			nd.Assume(nd.Scalar(nd.Raw(data[u.pos:], u.n), u.n))
		}
	}
	data = data[:len(data):len(data)]
	for _, u := range us {
		if u.bad {
			nd.Assume(nd.SeqLen(data[u.pos:]) <= 0)
		}
	}
	return data, us
}

// seqLen is the length of a well-formed sequence by its first byte, 0 for
// others.
func seqLen(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b < 0xC0 || b >= 0xF8:
		return 0
	case b < 0xE0:
		return 2
	case b < 0xF0:
		return 3
	}
	return 4
}

// ends reports whether i is near one end of 0..n, or n is small.
func ends(i, n int) bool { return n <= 50 || i < 6 || i > n-14 }

func whole(adv int, tok []byte, data []byte) bool {
	return len(tok) == adv && adv > 0 && adv <= len(data) && nd.SameStart(tok, data)
}

// VerifFirst (C01): the first token of a valid text is its first extended
// grapheme cluster.
func VerifFirst() {
	data, us := text(true)
	want := len(data)
	var b nd.Brk
	found := false
	for i, u := range us {
		if b.Next(nd.RefClass(nd.Raw(data[u.pos:], u.n))) && i > 0 && !found {
			want = u.pos
			found = true
		}
	}
	adv, tok, err := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", adv)
	nd.Reach("first")
	nd.Assert(err == nil, "no error")
	nd.Assert(adv == want, "the first token is the first extended grapheme cluster")
	nd.Assert(whole(adv, tok, data), "the token is the bytes consumed")
}

// VerifAll (C01, C12): the tokens of a valid text are its extended grapheme clusters.
func VerifAll() {
	data, us := text(true)
	n := len(data)
	bs := make([]bool, n+1)
	bs[n] = true
	var b nd.Brk
	for _, u := range us {
		bs[u.pos] = b.Next(nd.RefClass(nd.Raw(data[u.pos:], u.n)))
	}
	at := make([]bool, n+1) // a token starts here
	at[0] = true
	toks := 0
	for _, u := range us {
		adv, tok, err := textseg.ScanGraphemeClusters(data[u.pos:], true)
		if at[u.pos] {
			toks++
		}
		here := at[u.pos]
		nd.Assert(!here || err == nil && whole(adv, tok, data[u.pos:]), "a token is the bytes consumed")
		for q := u.pos + 1; q <= n; q++ {
			if here && q == u.pos+adv {
				at[q] = true
			}
		}
	}
	nd.Observe("tokens", toks)
	nd.Reach("all")
	for i := 0; i <= n; i++ {
		nd.Assert(!bs[i] || at[i], "no boundary is missing")
		nd.Assert(bs[i] || !at[i], "no boundary is extra")
	}
}

// VerifLossless (C04): the token is exactly the bytes consumed.
func VerifLossless() {
	data, _ := text(false)
	n := len(data)
	adv, tok, err := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", adv)
	nd.Reach("lossless")
	if n == 0 {
		nd.Assert(adv == 0 && tok == nil && err == nil, "empty input yields no token")
		return
	}
	nd.Assert(err == nil, "no error")
	nd.Assert(adv >= 1 && adv <= n, "at least one and at most all bytes are consumed")
	nd.Assert(len(tok) == adv, "the token is as long as the bytes consumed")
	for i := 0; i < n; i++ {
		if i < len(tok) {
			nd.Assert(tok[i] == data[i], "the token consists of the bytes consumed")
		}
	}
}

// VerifSplit (C05): a token returned for a prefix is the token for every
// continuation. Every cut, also within a character.
func VerifSplit() {
	data, _ := text(false)
	n := len(data)
	a2, t2, e2 := textseg.ScanGraphemeClusters(data, false)
	a3, t3, e3 := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", a2)
	nd.Reach("split")
	nd.Assert(e2 == nil && e3 == nil, "no error")
	for k := 0; k < n; k++ {
		if !ends(k, n) {
			continue
		}
		a1, t1, e1 := textseg.ScanGraphemeClusters(data[:k:k], false)
		nd.Assert(e1 == nil, "no error on a prefix")
		nd.Assert((a1 > 0) == (t1 != nil), "a token comes with its advance")
		got := a1 > 0 || t1 != nil
		nd.Assert(!got || a1 <= k && len(t1) == a1, "a token lies in the prefix")
		nd.Assert(!got || a2 == a1 && len(t2) == len(t1), "same token when more bytes are present")
		nd.Assert(!got || a3 == a1 && len(t3) == len(t1), "same token when more bytes are present and the input ends")
	}
	got := a2 > 0 || t2 != nil
	nd.Assert(!got || a3 == a2 && len(t3) == len(t2), "same token when the input ends")
}

// VerifMalformed (C06): malformed bytes are clusters of one byte and separate
// their neighbours.
func VerifMalformed() {
	data, us := text(false)
	n := len(data)
	first := n
	for i := len(us) - 1; i >= 0; i-- {
		if us[i].bad {
			first = us[i].pos
		}
	}
	adv, tok, err := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", adv)
	nd.Reach("scan")
	nd.Assert(err == nil && whole(adv, tok, data), "the token is the bytes consumed")
	if first == 0 {
		nd.Assert(adv == 1, "a malformed byte is a cluster of one byte")
		return
	}
	nd.Assert(adv <= first, "a malformed byte is not merged into the cluster before it")
	ok := adv == n
	for _, u := range us {
		if adv == u.pos {
			ok = true
		}
	}
	nd.Assert(ok, "a cluster ends between characters")
	if first < n {
		a2, t2, e2 := textseg.ScanGraphemeClusters(data[:first:first], true)
		nd.Assert(e2 == nil && a2 == adv && len(t2) == adv, "the text before a malformed byte is segmented as if it stood alone")
	}
}

// VerifTotal (C07): no panic, no error, no endless loop.
func VerifTotal() {
	data, _ := text(false)
	n := len(data)
	atEOF := nd.Bool("eof", 0)
	adv, tok, err := textseg.ScanGraphemeClusters(data, atEOF)
	nd.Observe("adv", adv)
	nd.Reach("total")
	nd.Assert(err == nil, "no error")
	nd.Assert(adv >= 0 && adv <= n && len(tok) <= n, "the result lies in the buffer")
}

// VerifSplitLong (C05, C09): Param(n) fillers between two arbitrary sequences.
func VerifSplitLong() {
	fill, n := fillers[nd.Param("fill")], nd.Param("n")
	data := make([]byte, 0, n*len(fill)+10)
	data = unitBytes(data, 0, nd.Param("kind"))
	for i := 0; i < n; i++ {
		data = append(data, fill...)
	}
	tail := len(data)
	data = unitBytes(data, 1, 3)
	a0, _, e0 := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", a0)
	nd.Reach("split")
	if nd.Param("soon") > 0 {
		a, _, err := textseg.ScanGraphemeClusters(data, false)
		nd.Assert(e0 == nil && err == nil && (a0 == len(data) || a == a0), "a decided cluster is delivered")
		return
	}
	for _, m := range []int{len(data), tail + 2, tail, tail - 1, tail / 2} {
		a, tok, err := textseg.ScanGraphemeClusters(data[:m], false)
		nd.Assert(e0 == nil && err == nil && len(tok) == a && (a == 0 || a == a0), "a token returned with more to come is that of every continuation")
		if m != tail {
			continue
		}
		a, tok, err = textseg.ScanGraphemeClusters(data[:m:m], false)
		nd.Assert(err == nil && len(tok) == a && (a == 0 || a == a0), "a token returned with more to come is that of every continuation")
	}
}

// VerifSteps (C07): the number of steps grows with the length of the buffer,
// and not with its square. Natively the time is taken.
func VerifSteps() {
	fill, n := fillers[nd.Param("fill")], nd.Param("n")
	first := unitBytes(nil, 0, nd.Param("kind"))
	last := unitBytes(nil, 1, nd.Param("kind"))
	eof := nd.Bool("eof", 0)
	run := func(n int) func() {
		b := append([]byte(nil), first...)
		for i := 0; i < n; i++ {
			b = append(b, fill...)
		}
		b = append(b, last...)
		return func() { textseg.ScanGraphemeClusters(b, eof) }
	}
	const label = "the number of steps is bounded by the length of the buffer"
	nd.Reach("steps")
	if nd.Native() {
		nd.Assert(!nd.Disproportionate(run(5*n), run(80*n)), label)
		return
	}
	small, large := run(n), run(2*n)
	s0 := nd.Steps()
	small()
	s1 := nd.Steps()
	large()
	s2 := nd.Steps()
	nd.Assert(s2-s1 <= 3*(s1-s0)+3000, label)
}

// VerifTotalBytes (C07): the same for n bytes, however they decode, with
// Param(x) more in the backing array.
func VerifTotalBytes() {
	n := nd.Param("n")
	data := make([]byte, n, n+nd.Param("x"))
	for i := range data[:cap(data)] {
		data[:cap(data)][i] = nd.U8("b", i)
	}
	atEOF := nd.Bool("eof", 0)
	adv, tok, err := textseg.ScanGraphemeClusters(data, atEOF)
	nd.Observe("adv", adv)
	nd.Reach("total")
	nd.Assert(err == nil, "no error")
	nd.Assert(adv >= 0 && adv <= n && len(tok) <= n, "the result lies in the buffer")
	nd.Assert(!atEOF || n == 0 || adv > 0, "scanning advances at end of input")
	nd.Assert(n > 0 || adv == 0 && tok == nil, "empty input yields no token")
}

// VerifPure (C08): the result depends on the visible bytes and the flag alone,
// nothing is written, the token aliases the input.
func VerifPure() {
	data, _ := text(false)
	n := len(data)
	x := nd.Param("x") // bytes in the backing array beyond the buffer
	back := make([]byte, n+x)
	back2 := make([]byte, n+x)
	saved := make([]byte, n+x)
	for i := 0; i < n+x; i++ {
		if i < n {
			back[i], back2[i] = data[i], data[i]
		} else {
			back[i], back2[i] = nd.U8("x", i-n), nd.U8("y", i-n)
		}
		saved[i] = back[i]
	}
	other := make([]byte, nd.Param("o"))
	for i := range other {
		other[i] = nd.U8("o", i)
	}
	eof := nd.Bool("eof", 0)
	a1, t1, e1 := textseg.ScanGraphemeClusters(back[:n], eof)
	nd.Observe("adv", a1)
	nd.Reach("pure")
	for i := 0; i < n+x; i++ {
		nd.Assert(back[i] == saved[i], "the buffer is not modified")
	}
	nd.Assert(e1 == nil && a1 >= 0 && a1 <= n && len(t1) == a1, "the token is the part of the buffer consumed")
	if len(t1) > 0 {
		nd.Assert(nd.SameStart(t1, back), "the token is not a copy")
	}
	textseg.ScanGraphemeClusters(other, nd.Bool("eof", 1))
	a2, t2, e2 := textseg.ScanGraphemeClusters(back2[:n], eof)
	nd.Assert(e2 == nil && a1 == a2 && len(t1) == len(t2) && (t1 == nil) == (t2 == nil), "same bytes, same result, whatever was scanned before and whatever lies beyond the buffer")
	a3, t3, e3 := textseg.ScanGraphemeClusters(data, eof)
	nd.Assert(e3 == nil && a1 == a3 && len(t1) == len(t3) && (t1 == nil) == (t3 == nil), "same result whatever the capacity of the buffer")
	for i := 0; i < n; i++ {
		if i < len(t1) {
			nd.Assert(t1[i] == saved[i], "an earlier token is not changed by later calls")
		}
	}
}

// VerifPrompt (C09): no more input is asked for once the cluster is decided.
func VerifPrompt() {
	data, us := text(false)
	n := len(data)
	a1, t1, e1 := textseg.ScanGraphemeClusters(data, false)
	nd.Observe("adv", a1)
	nd.Reach("prompt")
	nd.Assert(e1 == nil, "no error")
	if us[0].bad {
		nd.Assert(nd.SeqLen(data) == 0 || a1 == 1 && len(t1) == 1, "a certainly malformed byte is returned at once")
		return
	}
	a2, _, e2 := textseg.ScanGraphemeClusters(data, true)
	nd.Assert(e2 == nil, "no error")
	for _, u := range us[1:] {
		certain := !u.bad || nd.SeqLen(data[u.pos:]) < 0
		nd.Assert(!(a2 == u.pos && certain) || a1 == a2 && len(t1) == a1, "a cluster followed by a complete character or a malformed byte is returned at once")
	}
	nd.Assert(a2 > 0 && a2 <= n, "token at end of input")
}

// VerifAlone (C12): a token scanned by itself is the same single token.
func VerifAlone() {
	data, us := text(false)
	n := len(data)
	adv, tok, err := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", adv)
	nd.Reach("alone")
	nd.Assert(err == nil && adv > 0 && adv <= n && len(tok) == adv, "token")
	for i := 1; i <= len(us); i++ {
		if !ends(i, len(us)) {
			continue
		}
		m := n
		if i < len(us) {
			m = us[i].pos
		}
		a2, t2, e2 := textseg.ScanGraphemeClusters(data[:m:m], true)
		nd.Assert(!(adv == m) || e2 == nil && a2 == m && len(t2) == m, "a token scanned by itself is one token")
	}
}

// Filler characters and what they are.
var fillers = []string{
	"\u0301",               // Extend
	"\u094d",               // Linker
	"\u200d",               // ZWJ
	"\U0001F1E6\U0001F1E7", // a flag
	"\u0600",               // Prepend
	"\u1100",               // L
	"\u0915\u094d",         // consonant, linker
	"\U0001F469\u200d",     // emoji, ZWJ
	"\u0903",               // SpacingMark
	"\U000E0020",           // Extend of four bytes
	"x",                    // no class
	"\r\n",                 // CR LF
	"\xff",                 // malformed
	"\U0001F469",           // emoji
	"\uac01\u11a8",         // Hangul LVT, T
}

// VerifLong (C02, C04): one arbitrary character, Param(n) times a filler, and
// two arbitrary characters. However long the cluster is, it comes back whole.
func VerifLong() {
	n, kind := nd.Param("n"), nd.Param("kind")
	fill := fillers[nd.Param("fill")]
	data := make([]byte, 0, n*len(fill)+16)
	data = unitBytes(data, 0, kind)
	for i := 0; i < n; i++ {
		data = append(data, fill...)
	}
	tail := len(data)
	data = unitBytes(data, 1, 3)
	data = unitBytes(data, 2, 3)
	nd.Assume(nd.Scalar(nd.Raw(data, kind), kind))
	nd.Assume(nd.Scalar(nd.Raw(data[tail:], 3), 3))
	nd.Assume(nd.Scalar(nd.Raw(data[tail+3:], 3), 3))
	// the first boundary according to the rules
	var runes [2]uint32
	var at [2]int
	m := 0
	for p, r := range fill {
		runes[m], at[m] = uint32(r), p
		m++
	}
	var b nd.Brk
	b.Next(nd.RefClass(nd.Raw(data, kind)))
	want := 0
	found := false
	for i := 0; i < n; i++ {
		for k := 0; k < m; k++ {
			if b.Next(nd.RefClass(runes[k])) && !found {
				want, found = kind+i*len(fill)+at[k], true
			}
		}
	}
	for p := tail; p < len(data); p += 3 {
		if b.Next(nd.RefClass(nd.Raw(data[p:], 3))) && !found {
			want, found = p, true
		}
	}
	if !found {
		want = len(data)
	}
	adv, tok, err := textseg.ScanGraphemeClusters(data, true)
	nd.Observe("adv", adv)
	nd.Reach("long")
	nd.Assert(err == nil && adv == want, "a cluster of any length comes back whole")
	nd.Assert(whole(adv, tok, data), "the token is the bytes consumed")
}

// VerifHistory (C08): a call on the same memory with other contents is not
// influenced by earlier calls.
func VerifHistory() {
	data, us := text(false)
	n := len(data)
	buf := make([]byte, n)
	eof := nd.Bool("eof", 0)
	eof2 := nd.Bool("eof", 1)
	other := make([]byte, 0, n) // another text of the same structure
	for i, u := range us {
		if i >= 8 || i >= 3 && nd.Param("fn") > 0 {
			other = append(other, data[u.pos:u.pos+u.n]...)
			continue
		}
		kind := u.n
		if u.bad {
			kind = 5
		}
		other = unitBytes(other, 50+i, kind)
	}
	for _, u := range us {
		if u.bad {
			nd.Assume(nd.SeqLen(other[u.pos:]) <= 0)
		}
	}
	a2, t2, e2 := textseg.ScanGraphemeClusters(other, eof2)
	nd.Observe("adv", a2)
	nd.Reach("history")
	for i := 1; i <= len(us); i++ {
		if !ends(i, len(us)) {
			continue
		}
		m := n
		if i < len(us) {
			m = us[i].pos
		}
		copy(buf, data)
		textseg.ScanGraphemeClusters(buf[:m], eof)
		textseg.ScanGraphemeClusters(buf, eof)
		copy(buf, other)
		a1, t1, e1 := textseg.ScanGraphemeClusters(buf, eof2)
		nd.Assert(e1 == nil && e2 == nil && a1 == a2 && len(t1) == len(t2), "earlier calls on the same memory have no influence")
	}
}

// VerifHistoryRun (C08): the earlier content is a run of Param(n) fillers, or
// a leading part of it; the later one at the same place is two arbitrary
// characters and letters.
func VerifHistoryRun() {
	fill := fillers[nd.Param("fill")]
	n := nd.Param("n") * len(fill)
	first := make([]byte, 0, n)
	for len(first) < n {
		first = append(first, fill...)
	}
	kind := nd.Param("kind")
	second := make([]byte, 0, n)
	second = unitBytes(second, 0, kind)
	second = unitBytes(second, 1, kind)
	for len(second) < n {
		second = append(second, 'x')
	}
	eof := nd.Param("eof") == 1
	a2, t2, e2 := textseg.ScanGraphemeClusters(second, eof)
	nd.Observe("adv", a2)
	nd.Reach("history")
	buf := make([]byte, n)
	for _, m := range []int{n, n - len(fill), n / 2 / len(fill) * len(fill)} {
		copy(buf, first)
		textseg.ScanGraphemeClusters(buf[:m], false)
		copy(buf, second)
		a1, t1, e1 := textseg.ScanGraphemeClusters(buf, eof)
		nd.Assert(e1 == nil && e2 == nil && a1 == a2 && len(t1) == len(t2), "earlier calls on the same memory have no influence")
	}
}

// VerifRace (C08): calls from two goroutines do not interfere. The symbolic
// run looks for writes to package-level state; natively the calls are made
// concurrently under the race detector.
func VerifRace() {
	data, _ := text(false)
	eof := nd.Bool("eof", 0)
	nd.Reach("race")
	if !nd.Native() {
		a, _, _ := textseg.ScanGraphemeClusters(data, eof)
		nd.Observe("adv", a)
		return
	}
	a, _, _ := textseg.ScanGraphemeClusters(data, eof)
	nd.Observe("adv", a)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := append([]byte(nil), data...)
			for i := 0; i < 300; i++ {
				textseg.ScanGraphemeClusters(d, eof)
			}
		}()
	}
	wg.Wait()
}

// VerifInterfere (C08): another call comes in between, at any operation on
// shared state.
func VerifInterfere() {
	data, us := text(false)
	other := make([]byte, 0, len(data))
	for i, u := range us {
		if i >= 8 || i >= 3 && nd.Param("fn") > 0 {
			other = append(other, data[u.pos:u.pos+u.n]...)
			continue
		}
		kind := u.n
		if u.bad {
			kind = 5
		}
		other = unitBytes(other, 50+i, kind)
	}
	for _, u := range us {
		if u.bad {
			nd.Assume(nd.SeqLen(other[u.pos:]) <= 0)
		}
	}
	eof, eof2 := nd.Bool("eof", 0), nd.Bool("eof", 1)
	const label = "concurrent calls do not influence each other"
	a1, _, _ := textseg.ScanGraphemeClusters(data, eof)
	b1, _, _ := textseg.ScanGraphemeClusters(other, eof2)
	nd.Observe("adv", a1)
	nd.Reach("history")
	if nd.Native() {
		nd.Stress(func() bool {
			a, t, e := textseg.ScanGraphemeClusters(data, eof)
			return e == nil && a == a1 && len(t) == a && (a == 0 || nd.SameStart(t, data))
		}, func() bool {
			b, t, e := textseg.ScanGraphemeClusters(other, eof2)
			return e == nil && b == b1 && len(t) == b && (b == 0 || nd.SameStart(t, other))
		}, label)
		return
	}
	a2, b2 := a1, b1
	if nd.Split("warm", 0, 0, 1) == 1 {
		textseg.ScanGraphemeClusters(data, eof)
	}
	nd.Interfere(func() { a2, _, _ = textseg.ScanGraphemeClusters(data, eof) }, func() { b2, _, _ = textseg.ScanGraphemeClusters(other, eof2) })
	b3, _, _ := textseg.ScanGraphemeClusters(other, eof2)
	a3, _, _ := textseg.ScanGraphemeClusters(data, eof)
	nd.Assert(a1 == a2, label)
	nd.Assert(b1 == b3 && a1 == a3, label)
	nd.Assert(b2 == b1, label)
}

// VerifAfter (C08): a call on one text, whole or in part, then one on another
// text of the structure Param(second).
func VerifAfter() {
	data, us := text(false)
	var second []byte
	var kinds []int
	for p := nd.Param("second"); p > 0; p /= 10 {
		kinds = append(kinds, p%10)
	}
	for i := range kinds {
		second = unitBytes(second, 60+i, kinds[len(kinds)-1-i])
	}
	eof, eof2 := nd.Bool("eof", 0), nd.Bool("eof", 1)
	b1, _, _ := textseg.ScanGraphemeClusters(second, eof2)
	nd.Observe("adv", b1)
	nd.Reach("history")
	m := 0
	if len(us) > 1 {
		m = us[1].pos
	}
	textseg.ScanGraphemeClusters(data[m:], eof)
	b2, t2, e2 := textseg.ScanGraphemeClusters(second, eof2)
	nd.Assert(e2 == nil && b1 == b2 && len(t2) == b2, "an earlier call has no influence")
	textseg.ScanGraphemeClusters(data, eof)
	b3, t3, e3 := textseg.ScanGraphemeClusters(second, eof2)
	nd.Assert(e3 == nil && b1 == b3 && len(t3) == b3, "an earlier call has no influence")
}

// VerifCap (C08): the same bytes with more room behind them.
func VerifCap() {
	data, us := text(false)
	n := len(data)
	eof := nd.Bool("eof", 0)
	a1, t1, e1 := textseg.ScanGraphemeClusters(data, eof)
	nd.Observe("adv", a1)
	nd.Reach("cap")
	for _, c := range []int{nd.Param("room"), nd.Param("room2")} {
		back := append(make([]byte, 0, c), data...)
		for i := 0; i <= len(us); i += len(us) {
			m := n
			if i > 0 {
				m = us[i-1].pos
			}
			b := back[:m]
			a2, t2, e2 := textseg.ScanGraphemeClusters(b, eof)
			if m == n {
				nd.Assert(e2 == nil && e1 == nil && a1 == a2 && len(t1) == len(t2), "same result whatever the capacity of the buffer")
			}
			nd.Assert(a2 >= 0 && a2 <= m && len(t2) <= m, "the result lies in the buffer")
			if a2 > 0 && len(t2) > 0 {
				nd.Assert(nd.SameStart(t2, back), "the token is not a copy")
			}
		}
	}
}
