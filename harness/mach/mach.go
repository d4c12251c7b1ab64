// Package mach checks the boundary detector.
package mach

import (
	"MAINMOD/textseg/internal/charprops"
	"MAINMOD/textseg/internal/machine"
	nd "VERIFND"
)

func mk(g charprops.GCBProperty, i charprops.InCBProperty) charprops.CharProperties {
	return charprops.MakeCharProperties(g, 0, i)
}

var props = [nd.NumClasses]charprops.CharProperties{
	nd.COther: 0, nd.CCR: mk(charprops.GCBCR, 0), nd.CControl: mk(charprops.GCBControl, 0),
	nd.CExtendExtend: mk(charprops.GCBExtend, charprops.InCBExtend), nd.CExtendLinker: mk(charprops.GCBExtend, charprops.InCBLinker),
	nd.CExtend: mk(charprops.GCBExtend, 0), nd.CExtendedPictographic: mk(charprops.GCBExtendedPictographic, 0),
	nd.CL: mk(charprops.GCBL, 0), nd.CLF: mk(charprops.GCBLF, 0), nd.CLV: mk(charprops.GCBLV, 0), nd.CLVT: mk(charprops.GCBLVT, 0),
	nd.COtherConsonant: mk(0, charprops.InCBConsonant), nd.CPrepend: mk(charprops.GCBPrepend, 0),
	nd.CRegionalIndicator: mk(charprops.GCBRegionalIndicator, 0), nd.CSpacingMark: mk(charprops.GCBSpacingMark, 0),
	nd.CT: mk(charprops.GCBT, 0), nd.CV: mk(charprops.GCBV, 0), nd.CZWJExtend: mk(charprops.GCBZWJ, charprops.InCBExtend),
}

func class(i int) uint8 {
	c := nd.U8("c", i)
	nd.Assume(c < nd.NumClasses)
	return c
}

// VerifSpec: the incremental specification agrees with the rules read
// literally over the whole preceding text.
func VerifSpec() {
	k := nd.Param("k")
	cls := make([]uint8, k)
	for i := range cls {
		cls[i] = class(i)
	}
	nd.Reach("spec")
	var b nd.Brk
	for i := range cls {
		got := b.Next(cls[i])
		nd.Assert(i == 0 || got == nd.LookBack(cls, i), "incremental and literal rules agree")
	}
}

// VerifSpecRestart: after a boundary the specification is in the state it
// would be in if the text began there.
func VerifSpecRestart() {
	g := ghost()
	c := class(9)
	nd.Reach("restart")
	br := g.Next(c)
	var f nd.Brk
	f.Next(c)
	nd.Assert(!br || g == f, "a boundary forgets the past")
}

// ghost is an arbitrary reachable state of the specification.
func ghost() nd.Brk {
	g := nd.Brk{Any: true, Prev: class(8), Odd: nd.Bool("odd", 0), Emo: nd.U8("emo", 0), Con: nd.U8("con", 0)}
	nd.Assume(g.Emo <= 2 && g.Con <= 2)
	h, n := rep(g)
	var w nd.Brk
	for i := 0; i < n; i++ {
		w.Next(h[i])
	}
	nd.Assume(w == g)
	return g
}

// rep is a short history that leads the specification to state g.
func rep(g nd.Brk) ([3]uint8, int) {
	switch {
	case g.Con == 2 && g.Prev == nd.CExtendLinker:
		return [3]uint8{nd.COtherConsonant, nd.CExtendLinker}, 2
	case g.Con == 2:
		return [3]uint8{nd.COtherConsonant, nd.CExtendLinker, g.Prev}, 3
	case g.Con == 1 && g.Prev != nd.COtherConsonant:
		return [3]uint8{nd.COtherConsonant, g.Prev}, 2
	case g.Emo != 0 && g.Prev != nd.CExtendedPictographic:
		return [3]uint8{nd.CExtendedPictographic, g.Prev}, 2
	case g.Prev == nd.CRegionalIndicator && !g.Odd:
		return [3]uint8{nd.CRegionalIndicator, nd.CRegionalIndicator}, 2
	}
	return [3]uint8{g.Prev}, 1
}

// VerifSpecReach: rep covers every state the specification can reach.
func VerifSpecReach() {
	c := class(9)
	var g nd.Brk
	if nd.Bool("first", 0) {
		g.Next(c)
	} else {
		g = ghost()
		g.Next(c)
	}
	nd.Reach("reach")
	h, n := rep(g)
	var w nd.Brk
	for i := 0; i < n; i++ {
		w.Next(h[i])
	}
	nd.Assert(w == g, "the short history leads to the same state")
}

// run feeds a history to the detector, which goes on across boundaries.
func run(h [3]uint8, n int) machine.State {
	s := machine.Begin(props[h[0]])
	for i := 1; i < n; i++ {
		_, s = s.Transition(props[h[i-1]], props[h[i]])
	}
	return s
}

// VerifStep (C02): after the short history of an arbitrary specification
// state, the detector and the specification agree on the next boundary.
func VerifStep() {
	g := ghost()
	c := class(9)
	h, n := rep(g)
	s := run(h, n)
	br, _ := s.Transition(props[g.Prev], props[c])
	want := g.Next(c)
	if br {
		nd.Observe("break", 1)
	} else {
		nd.Observe("break", 0)
	}
	nd.Reach("step")
	nd.Assert(br == want, "boundary exactly where the rules say")
}

// VerifStateStep: the state after one more character is the state after the
// short history of the new specification state. With VerifStep this extends
// the agreement to histories of every length, by induction.
func VerifStateStep() {
	g := ghost()
	c := class(9)
	h, n := rep(g)
	s := run(h, n)
	_, s2 := s.Transition(props[g.Prev], props[c])
	g.Next(c)
	h2, n2 := rep(g)
	nd.Reach("state")
	nd.Assert(s2 == run(h2, n2), "the detector's state is determined by the specification's")
}

// VerifStateBegin: the same for the first character.
func VerifStateBegin() {
	c := class(9)
	var g nd.Brk
	g.Next(c)
	h, n := rep(g)
	nd.Reach("begin")
	nd.Assert(machine.Begin(props[c]) == run(h, n), "the detector's first state is determined by the specification's")
}

// VerifSeq (C02): k arbitrary characters, the detector going on across
// boundaries or (fresh) beginning anew at each.
func VerifSeq() {
	k := nd.Param("k")
	fresh := nd.Param("fresh") == 1
	var g nd.Brk
	p := class(0)
	g.Next(p)
	s := machine.Begin(props[p])
	for i := 1; i < k; i++ {
		c := class(i)
		br, s2 := s.Transition(props[p], props[c])
		if br {
			nd.Observe("break", i)
		}
		nd.Assert(br == g.Next(c), "boundary exactly where the rules say")
		if fresh && br {
			s2 = machine.Begin(props[c])
		}
		s, p = s2, c
	}
	nd.Reach("seq")
}
