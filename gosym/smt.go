package main

// SMT-LIB2 back end: one incremental solver process per engine for
// feasibility checks, one-shot portfolio runs for proof obligations.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	IsSat
	IsUnsat
)

func (s Sat) String() string { return [...]string{"unknown", "sat", "unsat"}[s] }

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

// Emitter writes definitions of terms once each.
type Emitter struct {
	ctx    *Ctx
	seen   map[*Term]bool
	ufs    map[string]bool
	expand map[*Term]*Term // select -> mux term
	muxmem map[string]*Term
	out    *bytes.Buffer
	n      int
}

func NewEmitter(ctx *Ctx) *Emitter {
	return &Emitter{ctx: ctx, seen: map[*Term]bool{}, ufs: map[string]bool{}, expand: map[*Term]*Term{}, muxmem: map[string]*Term{}, out: &bytes.Buffer{}}
}

func (e *Emitter) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constStr(t.k, t.w)
	case OpVar:
		return "|" + t.name + "|"
	case OpSelect:
		return e.ref(e.expandSel(t))
	}
	return "t" + strconv.Itoa(t.id)
}

// expandSel turns a constant-table lookup into a multiplexer tree over the
// index bits. When the high part of the index is itself a table lookup, the
// tree is built per leaf of that lookup, which keeps it small.
func (e *Emitter) expandSel(t *Term) *Term {
	if r, ok := e.expand[t]; ok {
		return r
	}
	r := e.mux(t.tab, t.a)
	e.expand[t] = r
	return r
}

func (e *Emitter) mux(tab *ConstTab, idx *Term) *Term {
	c := e.ctx
	// idx = (A << k) | B  with B < 2^k and A a select (possibly widened)
	if idx.op == OpBOr {
		for _, p := range [2][2]*Term{{idx.a, idx.b}, {idx.b, idx.a}} {
			A, B := p[0], p[1]
			if A.op == OpShl && A.b.op == OpConst {
				k := A.b.k
				if B.hi>>k == 0 {
					inner := A.a
					for inner.op == OpZext {
						inner = inner.a
					}
					if inner.op == OpSelect {
						inner = e.expandSel(inner)
					}
					if inner.op == OpIte && constLeaves(inner, map[*Term]bool{}) {
						mem := map[*Term]*Term{}
						var rec func(x *Term) *Term
						rec = func(x *Term) *Term {
							if r, ok := mem[x]; ok {
								return r
							}
							var r *Term
							if x.op == OpConst {
								r = e.muxBits(tab, x.k<<k, B, int(k))
							} else {
								r = c.Ite(x.a, rec(x.b), rec(x.c))
							}
							mem[x] = r
							return r
						}
						return rec(inner)
					}
				}
			}
		}
	}
	n := uint64(len(tab.data))
	if idx.hi >= n {
		// out of range reads as zero, as in Evaluator
		if n == 0 {
			return c.Const(0, tab.w)
		}
		return c.Ite(c.Ult(idx, c.Const(n, idx.w)), e.muxBits(tab, 0, idx, bits.Len64(n-1)), c.Const(0, tab.w))
	}
	return e.muxBits(tab, 0, idx, bits.Len64(idx.hi))
}

func constLeaves(t *Term, seen map[*Term]bool) bool {
	if t.op == OpConst {
		return true
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	return t.op == OpIte && constLeaves(t.b, seen) && constLeaves(t.c, seen)
}

// muxBits builds table[base + idx] for an nb-bit idx, most significant bit first.
func (e *Emitter) muxBits(tab *ConstTab, base uint64, idx *Term, nb int) *Term {
	c := e.ctx
	if nb == 0 {
		if base < uint64(len(tab.data)) {
			return c.Const(tab.data[base], tab.w)
		}
		return c.Const(0, tab.w)
	}
	// all-equal range shortcut + memo by content
	n := uint64(1) << nb
	same := true
	at := func(i uint64) uint64 {
		if i < uint64(len(tab.data)) {
			return tab.data[i]
		}
		return 0
	}
	v0 := at(base)
	if base >= uint64(len(tab.data)) {
		return c.Const(0, tab.w)
	}
	for i := uint64(1); i < n && base+i < uint64(len(tab.data)); i++ {
		if at(base+i) != v0 {
			same = false
			break
		}
	}
	if same {
		return c.Const(v0, tab.w)
	}
	bit := c.Extract(idx, uint8(nb-1), uint8(nb-1))
	b := c.Eq(bit, c.Const(1, 1))
	if b.op == OpConst {
		return e.muxBits(tab, base+b.k<<(nb-1), idx, nb-1)
	}
	key := fmt.Sprintf("%d/%d/%d/%d", tab.id, base, idx.id, nb)
	if r, ok := e.muxmem[key]; ok {
		return r
	}
	r := c.Ite(b, e.muxBits(tab, base+n/2, idx, nb-1), e.muxBits(tab, base, idx, nb-1))
	e.muxmem[key] = r
	return r
}

func (e *Emitter) Def(t *Term) {
	if t.op == OpConst || e.seen[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if t.op == OpSelect {
			if e.seen[t] {
				st = st[:len(st)-1]
				continue
			}
			x := e.expandSel(t)
			if f.i == 0 {
				f.i = 1
				if !e.seen[x] && x.op != OpConst {
					st = append(st, fr{x, 0})
					continue
				}
			}
			e.seen[t] = true
			st = st[:len(st)-1]
			continue
		}
		if e.seen[t] || t.op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		ch := [3]*Term{t.a, t.b, t.c}
		pushed := false
		for f.i < 3 {
			x := ch[f.i]
			f.i++
			if x != nil && x.op != OpConst && !e.seen[x] {
				st = append(st, fr{x, 0})
				pushed = true
				break
			}
		}
		if pushed {
			continue
		}
		e.seen[t] = true
		st = st[:len(st)-1]
		e.emit(t)
	}
}

func (e *Emitter) emit(t *Term) {
	o := e.out
	e.n++
	if t.op == OpVar {
		fmt.Fprintf(o, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		e.ranges(t, "|"+t.name+"|")
		return
	}
	if t.op == OpUF {
		if !e.ufs[t.name] {
			e.ufs[t.name] = true
			fmt.Fprintf(o, "(declare-fun |%s| (%s) %s)\n", t.name, sortOf(t.a.w), sortOf(t.w))
		}
		fmt.Fprintf(o, "(define-fun t%d () %s (|%s| %s))\n", t.id, sortOf(t.w), t.name, e.ref(t.a))
		if d := e.ctx.ufDom[t.name]; len(d) > 0 {
			fmt.Fprintf(o, "(assert (or")
			for _, v := range d {
				fmt.Fprintf(o, " (= t%d %s)", t.id, constStr(v, t.w))
			}
			fmt.Fprintf(o, "))\n")
		} else {
			e.ranges(t, fmt.Sprintf("t%d", t.id))
		}
		return
	}
	fmt.Fprintf(o, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	switch t.op {
	case OpExtract:
		fmt.Fprintf(o, "((_ extract %d %d) %s)", t.k>>8, t.k&255, e.ref(t.a))
	case OpZext:
		fmt.Fprintf(o, "((_ zero_extend %d) %s)", t.w-t.a.w, e.ref(t.a))
	case OpSext:
		fmt.Fprintf(o, "((_ sign_extend %d) %s)", t.w-t.a.w, e.ref(t.a))
	default:
		o.WriteByte('(')
		o.WriteString(opName[t.op])
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				o.WriteByte(' ')
				o.WriteString(e.ref(x))
			}
		}
		o.WriteByte(')')
	}
	o.WriteString(")\n")
}

func (e *Emitter) ranges(t *Term, ref string) {
	if t.w == 0 {
		return
	}
	if t.lo > 0 {
		fmt.Fprintf(e.out, "(assert (bvuge %s %s))\n", ref, constStr(t.lo, t.w))
	}
	if t.hi < mask(t.w) {
		fmt.Fprintf(e.out, "(assert (bvule %s %s))\n", ref, constStr(t.hi, t.w))
	}
}

// Solver is an incremental solver process.
type Solver struct {
	ctx     *Ctx
	em      *Emitter
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Time    time.Duration
	dead    bool
	toMs    int
}

func solverPath(n string) string {
	if p, err := exec.LookPath(n); err == nil {
		return p
	}
	return ""
}

func NewSolver(ctx *Ctx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, toMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.em = NewEmitter(s.ctx)
	p := solverPath("z3-new")
	if p == "" {
		p = solverPath("z3")
	}
	s.cmd = exec.Command(p, "-in")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	s.in, _ = s.cmd.StdinPipe()
	so, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(so, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.toMs)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) readResp() (string, error) {
	// reads one s-expression or atom line
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		sb.WriteString(line)
		inq := false
		for _, ch := range line {
			switch {
			case ch == '|':
				inq = !inq
			case inq:
			case ch == '(':
				depth++
			case ch == ')':
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// Check decides satisfiability of the conjunction; with a model when sat.
func (s *Solver) Check(conj []*Term) (Sat, map[string]uint64) {
	if s.dead {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	for _, t := range conj {
		if t.IsFalse() {
			return IsUnsat, nil
		}
		s.em.Def(t)
	}
	s.in.Write(s.em.out.Bytes())
	s.em.out.Reset()
	var q bytes.Buffer
	q.WriteString("(push)\n")
	for _, t := range conj {
		fmt.Fprintf(&q, "(assert %s)\n", s.em.ref(t))
	}
	q.WriteString("(check-sat)\n")
	s.in.Write(q.Bytes())
	r, err := s.readResp()
	if err != nil {
		s.dead = true
		return Unknown, nil
	}
	res := Unknown
	var model map[string]uint64
	switch r {
	case "sat":
		res = IsSat
		model = s.getModel()
	case "unsat":
		res = IsUnsat
	case "unknown", "timeout":
	default:
		if strings.Contains(r, "error") {
			fmt.Fprintln(os.Stderr, "solver:", r)
			s.dead = true
		}
	}
	s.in.Write([]byte("(pop)\n"))
	return res, model
}

// CheckWithin is Check with its own time limit.
func (s *Solver) CheckWithin(conj []*Term, ms int) (Sat, map[string]uint64) {
	if s.dead {
		return Unknown, nil
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
	r, m := s.Check(conj)
	if !s.dead {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.toMs)
	}
	return r, m
}

func (s *Solver) getModel() map[string]uint64 {
	var vs []*Term
	for _, v := range s.ctx.vars {
		if s.em.seen[v] {
			vs = append(vs, v)
		}
	}
	for _, v := range s.ctx.ufApps {
		if s.em.seen[v] {
			vs = append(vs, v)
		}
	}
	m := map[string]uint64{}
	if len(vs) == 0 {
		return m
	}
	var q bytes.Buffer
	q.WriteString("(get-value (")
	for _, v := range vs {
		q.WriteString(s.em.ref(v))
		q.WriteByte(' ')
	}
	q.WriteString("))\n")
	s.in.Write(q.Bytes())
	r, err := s.readResp()
	if err != nil {
		s.dead = true
		return m
	}
	parseModel(r, vs, m)
	return m
}

func parseModel(r string, vs []*Term, m map[string]uint64) {
	byName := map[string]*Term{}
	key := map[*Term]string{}
	for _, v := range vs {
		key[v] = v.name
		if v.op == OpUF {
			key[v] = fmt.Sprintf("t%d", v.id)
		}
		byName[key[v]] = v
	}
	// tokens: ((|x| #b0101) (y #x0f) (|z| true)) or (_ bv5 8)
	toks := tokenize(r)
	for i := 0; i < len(toks); i++ {
		v, ok := byName[strings.Trim(toks[i], "|")]
		if !ok || i+1 >= len(toks) {
			continue
		}
		val := toks[i+1]
		if val == "(" && i+3 < len(toks) && toks[i+2] == "_" {
			n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
			m[key[v]] = n
			i += 5
			continue
		}
		switch {
		case val == "true":
			m[key[v]] = 1
		case val == "false":
			m[key[v]] = 0
		case strings.HasPrefix(val, "#x"):
			n, _ := strconv.ParseUint(val[2:], 16, 64)
			m[key[v]] = n
		case strings.HasPrefix(val, "#b"):
			n, _ := strconv.ParseUint(val[2:], 2, 64)
			m[key[v]] = n
		}
		i++
	}
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// OneShot decides a conjunction with a portfolio of fresh solver processes.
type OneShotResult struct {
	Res    Sat
	Model  map[string]uint64
	Solver string
	Time   time.Duration
	Lines  int
	All    map[string]Sat // with agreement mode
}

func OneShot(ctx *Ctx, conj []*Term, timeout time.Duration, solvers []string, all bool) OneShotResult {
	em := NewEmitter(ctx)
	for _, t := range conj {
		em.Def(t)
	}
	var vs []*Term
	for _, v := range ctx.vars {
		if em.seen[v] {
			vs = append(vs, v)
		}
	}
	for _, v := range ctx.ufApps {
		if em.seen[v] {
			vs = append(vs, v)
		}
	}
	var buf bytes.Buffer
	buf.WriteString("(set-option :produce-models true)\n")
	if len(em.ufs) > 0 {
		buf.WriteString("(set-logic QF_UFBV)\n")
	} else {
		buf.WriteString("(set-logic QF_BV)\n")
	}
	buf.Write(em.out.Bytes())
	for _, t := range conj {
		fmt.Fprintf(&buf, "(assert %s)\n", em.ref(t))
	}
	buf.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		buf.WriteString("(get-value (")
		for _, v := range vs {
			buf.WriteString(em.ref(v))
			buf.WriteByte(' ')
		}
		buf.WriteString("))\n")
	}
	t0 := time.Now()
	c, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		name string
		res  Sat
		out  string
	}
	ch := make(chan ans, len(solvers))
	var wg sync.WaitGroup
	n := 0
	for _, name := range solvers {
		var args []string
		bin := name
		switch name {
		case "z3", "z3-new":
			args = []string{"-in"}
		case "cvc5":
			args = []string{"--lang=smt2", "--quiet"}
		case "cvc5-int":
			bin = "cvc5"
			args = []string{"--lang=smt2", "--quiet", "--solve-bv-as-int=sum"}
		}
		p := solverPath(bin)
		if p == "" {
			continue
		}
		n++
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.CommandContext(c, p, args...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Stdin = bytes.NewReader(buf.Bytes())
			out, _ := cmd.Output()
			s := strings.TrimSpace(string(out))
			r := Unknown
			first, _, _ := strings.Cut(s, "\n")
			switch strings.TrimSpace(first) {
			case "sat":
				r = IsSat
			case "unsat":
				r = IsUnsat
			}
			// an error before the verdict makes it untrustworthy
			if strings.HasPrefix(first, "(error") {
				r = Unknown
			}
			ch <- ans{name, r, s}
		}()
	}
	res := OneShotResult{All: map[string]Sat{}, Lines: em.n}
	for i := 0; i < n; i++ {
		a := <-ch
		res.All[a.name] = a.res
		if a.res != Unknown && res.Res == Unknown {
			res.Res = a.res
			res.Solver = a.name
			if a.res == IsSat {
				res.Model = map[string]uint64{}
				_, rest, _ := strings.Cut(a.out, "\n")
				parseModel(rest, vs, res.Model)
			}
			if !all {
				cancel()
				break
			}
		} else if a.res != Unknown && a.res != res.Res {
			res.Res = Unknown
			res.Solver = "DISAGREEMENT"
			break
		}
	}
	res.Time = time.Since(t0)
	return res
}
