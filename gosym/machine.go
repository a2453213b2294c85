package main

// The symbolic machine: executes compiled SSA, explores all feasible paths of
// each call, and merges the outcomes of a call by shape.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type internalErr struct{ msg string }

type unsupported struct{ msg string }
type goPanic struct{ v Value }
type pathDead struct{ why string }

type trailEnt struct {
	obj *Object
	idx int
	old Value
}

type node struct{ alts int } // number of feasible alternatives; -1: not exhaustive

type pstep struct {
	n    *node
	alt  int
	cond *Term
}

type dec struct {
	val  uint64
	cond *Term // nil: forced
	n    *node
	alt  int
}

type deferRec struct {
	in   *instr
	fn   *Func
	args []Value
	next *deferRec
	bi   *instr // builtin
}

type phase uint8

const (
	phRun phase = iota
	phDefers
	phUnwind
)

type cpKind uint8

const (
	cpFlip cpKind = iota
	cpConc
	cpGroup
)

type choice struct {
	kind     cpKind
	regs     []Value
	blk, ip  int32
	ph       phase
	defers   *deferRec
	pan      bool
	panVal   Value
	didRec   bool
	decs     []dec
	trail    int
	pcLen    int
	pathLen  int
	steps    int64
	protect  int
	monBirth uint64
	model    *Model
	// flip
	alt dec
	// concretize
	t     *Term
	excl  []uint64
	limit int // cpConc: how many values to explore (0: all)
	n     *node
	extra []*Term
	// group
	groups  []*outcome
	next    int
	defCont bool
	in      *instr
}

type frame struct {
	f       *Func
	regs    []Value
	blk, ip int32
	code    []instr
	ph      phase
	defers  *deferRec
	pan     bool
	panVal  Value
	didRec  bool // this (deferred) call has recovered its caller's panic
	deferOf *frame
	caller  *frame
	decs    []dec
	decIdx  int
	path    []pstep
	cps     []*choice
	top     bool

	insTrail, insPC, insPath int

	entryTrail, entryPC int
	entryBirth          uint64
	entryMonBirth       uint64
	out                 outcome
}

type effect struct {
	obj *Object
	idx int
	v   Value
}

type outcome struct {
	pan       bool
	recovered bool
	val       Value
	eff       []effect
	path      []pstep
	model     *Model
	steps     int64
	cond      *Term // groups only; nil = full
	monBirth  uint64
}

type callRes struct {
	inline bool
	path   []pstep // of an inline result: its assumptions
	out    outcome
	groups []*outcome
	full   bool
}

type Violation struct {
	Harness  string            `json:"harness"`
	Case     int               `json:"case"`
	Kind     string            `json:"kind"` // assert | panic | hang | race
	Msg      string            `json:"msg"`
	Where    string            `json:"where"`
	Model    map[string]uint64 `json:"model"`
	MapOrder bool              `json:"map_order,omitempty"`
}

type PathSample struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Model   map[string]uint64 `json:"model"`
	Obs     []string          `json:"obs"`
	NoObs   bool              `json:"-"` // observations depend on an abstraction
}

type Stats struct {
	Paths      int64 // completed top-level paths
	Outcomes   int64 // outcomes of all explored calls
	Groups     int64 // after merging
	Forks      int64
	Steps      int64
	Calls      int64
	Asserts    int64 // assertion instances reached
	AssertSym  int64 // of which needed the solver
	Incomplete map[string]int
}

type M struct {
	p         *Program
	T         *Terms
	S         *Solver
	pc        []*Term
	model     *Model
	modelN    uint64
	pool      []*Model
	rng       uint64
	trail     []trailEnt
	birth     uint64
	curMark   uint64
	globals   []*Object
	fr        *frame
	depth     int
	steps     int64
	memoStamp []uint64
	memoVal   []uint64

	stepLimit int64
	dive      int // != 0: number of the single path being followed
	diveRng   uint64
	deadline  time.Time
	tick      int
	memStop   atomic.Bool  // set by the memory watchdog
	progress  atomic.Int64 // steps of the running job
	active    atomic.Bool

	harness    string
	caseNo     int
	viol       []*Violation
	violKey    map[string]int
	covers     map[string]int
	samples    []*PathSample
	maxSamples int
	stats      Stats
	called     map[*Func]int64
	incomplete map[string]int

	protect     int    // depth inside synchronised sections
	monBirth    uint64 // 0: monitor off
	obs         *Object
	mapOrder    bool
	initing     bool
	noMerge     bool
	ufs         map[string]int
	approx      bool
	thorough    bool
	checks      []*Check
	rangeMemo   map[[2]any]Value
	sampleGap   int64
	stepDefault int64
	anyTI       *TypeInfo
	natives     map[string]any
	debug       bool
	symNames    map[string]bool
	nativeIDs   map[any]uint64
	freshN      int
}

type Model struct {
	v   []uint64
	gen uint64
}

func (md *Model) get(id int32) uint64 {
	if int(id) < len(md.v) {
		return md.v[id]
	}
	return 0
}

func (m *M) newModel(v []uint64) *Model {
	m.modelN++
	md := &Model{v: v, gen: m.modelN}
	// a random pool of the models met, for translation validation
	if len(m.pool) < poolSize {
		m.pool = append(m.pool, md)
	} else if k := m.rnd(m.modelN); k < poolSize {
		m.pool[k] = md
	}
	return md
}

const poolSize = 24

func (m *M) rnd(n uint64) uint64 {
	m.rng ^= m.rng << 13
	m.rng ^= m.rng >> 7
	m.rng ^= m.rng << 17
	return m.rng % n
}

// ---- evaluation with a memo tied to the model's generation ----

func (m *M) eval(t *Term) uint64 { return m.evalIn(t, m.model) }

func (m *M) evalIn(t *Term, md *Model) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return md.get(t.varID)
	}
	id := int(t.id)
	if id >= len(m.memoStamp) {
		n := id*2 + 1024
		s := make([]uint64, n)
		copy(s, m.memoStamp)
		m.memoStamp = s
		v := make([]uint64, n)
		copy(v, m.memoVal)
		m.memoVal = v
	}
	if m.memoStamp[id] == md.gen {
		return m.memoVal[id]
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - m.evalIn(t.a, md)
	case OpAnd:
		r = m.evalIn(t.a, md)
		if r == 1 {
			r = m.evalIn(t.b, md)
		}
	case OpOr:
		r = m.evalIn(t.a, md)
		if r == 0 {
			r = m.evalIn(t.b, md)
		}
	case OpEq:
		r = b2u(m.evalIn(t.a, md) == m.evalIn(t.b, md))
	case OpIte:
		if m.evalIn(t.a, md) == 1 {
			r = m.evalIn(t.b, md)
		} else {
			r = m.evalIn(t.c, md)
		}
	case OpUlt:
		r = b2u(m.evalIn(t.a, md) < m.evalIn(t.b, md))
	case OpUle:
		r = b2u(m.evalIn(t.a, md) <= m.evalIn(t.b, md))
	case OpSlt:
		r = b2u(int64(signExt(m.evalIn(t.a, md), t.a.w)) < int64(signExt(m.evalIn(t.b, md), t.b.w)))
	case OpSle:
		r = b2u(int64(signExt(m.evalIn(t.a, md), t.a.w)) <= int64(signExt(m.evalIn(t.b, md), t.b.w)))
	case OpBNot:
		r = ^m.evalIn(t.a, md) & mask(t.w)
	case OpZext:
		r = m.evalIn(t.a, md)
	case OpSext:
		r = signExt(m.evalIn(t.a, md), t.a.w) & mask(t.w)
	case OpExtract:
		r = (m.evalIn(t.a, md) >> uint8(t.k)) & mask(t.w)
	default:
		r, _ = foldBin(t.op, m.evalIn(t.a, md), m.evalIn(t.b, md), t.w)
	}
	m.memoStamp[id] = md.gen
	m.memoVal[id] = r
	return r
}

// ---- path condition and decisions ----

func (m *M) addPC(c *Term) {
	if c.op == OpConst {
		return
	}
	if c.op == OpAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	m.pc = append(m.pc, c)
}

func (m *M) inPC(c *Term) bool {
	n := 0
	for i := len(m.pc) - 1; i >= 0 && n < 400; i-- {
		if m.pc[i] == c {
			return true
		}
		n++
	}
	return false
}

// sat asks whether pc and c is satisfiable; returns a model of all of pc and c.
func (m *M) sat(c *Term) (bool, *Model) {
	if c.op == OpConst {
		return c.k == 1, m.model
	}
	if m.eval(c) == 1 {
		return true, m.model
	}
	if c.op != OpAnd && m.inPC(m.T.Not(c)) {
		return false, nil
	}
	// slice
	vs := c.vars
	picked := []*Term{c}
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, t := range m.pc {
			if !used[i] && t.vars.intersects(vs) {
				used[i] = true
				changed = true
				picked = append(picked, t)
				vs = vs.union(t.vars)
			}
		}
	}
	if len(m.T.axioms) > 0 {
		vs.each(func(id int32) {
			if a := m.T.axioms[id]; a != nil {
				picked = append(picked, a)
			}
		})
	}
	res, vals := m.S.check(m.T, picked)
	switch res {
	case rUnsat:
		return false, nil
	case rUnknown:
		if os.Getenv("SYM_UNK") != "" {
			for _, t := range picked {
				fmt.Fprintln(os.Stderr, "UNK", t.String())
			}
		}
		m.note("solver answered unknown on a branch query (branch not explored)")
		return false, nil
	}
	nv := make([]uint64, len(m.T.varLst))
	copy(nv, m.model.v)
	for id, v := range vals {
		nv[id] = v
	}
	return true, m.newModel(nv)
}

func (m *M) note(s string) { m.incomplete[s]++ }

func (m *M) snapshot(fr *frame, kind cpKind) *choice {
	regs := make([]Value, len(fr.regs))
	copy(regs, fr.regs)
	return &choice{
		kind: kind, regs: regs, blk: fr.blk, ip: fr.ip, ph: fr.ph, defers: fr.defers,
		pan: fr.pan, panVal: fr.panVal, didRec: fr.didRec,
		trail: fr.insTrail, pcLen: fr.insPC, pathLen: fr.insPath, steps: m.steps,
		protect: m.protect, monBirth: m.monBirth, model: m.model,
	}
}

func (m *M) pushCP(fr *frame, c *choice) {
	fr.cps = append(fr.cps, c)
	m.curMark = m.birth
	m.stats.Forks++
}

func (m *M) takeDec(fr *frame, d dec) {
	fr.decs = append(fr.decs, d)
	fr.decIdx = len(fr.decs)
	if d.cond != nil {
		m.addPC(d.cond)
		fr.path = append(fr.path, pstep{d.n, d.alt, d.cond})
	}
}

func (m *M) replayDec(fr *frame) (dec, bool) {
	if fr.decIdx < len(fr.decs) {
		d := fr.decs[fr.decIdx]
		fr.decIdx++
		if d.cond != nil {
			m.addPC(d.cond)
			fr.path = append(fr.path, pstep{d.n, d.alt, d.cond})
		}
		return d, true
	}
	return dec{}, false
}

// diveFlip says, in a dive, which of two feasible branches is followed. Every
// other dive keeps close to the model at hand.
func (m *M) diveFlip() bool {
	m.diveRng ^= m.diveRng << 13
	m.diveRng ^= m.diveRng >> 7
	m.diveRng ^= m.diveRng << 17
	n := m.diveRng >> 33 & 15
	if m.dive&1 == 0 {
		return n < 2
	}
	return n < 8
}

// decide picks a truth value for c, exploring both when feasible.
func (m *M) decide(c *Term) bool {
	if c.op == OpConst {
		return c.k == 1
	}
	fr := m.fr
	if d, ok := m.replayDec(fr); ok {
		return d.val == 1
	}
	m.checkTime()
	v := m.eval(c)
	cur, other := c, m.T.Not(c)
	if v == 0 {
		cur, other = other, cur
	}
	ok, md := m.sat(other)
	if !ok {
		m.takeDec(fr, dec{val: v})
		return v == 1
	}
	if m.dive != 0 {
		if m.diveFlip() {
			v, cur = 1-v, other
			m.model = md
		}
		m.takeDec(fr, dec{val: v, cond: cur, n: &node{alts: -1}})
		return v == 1
	}
	n := &node{alts: 2}
	cp := m.snapshot(fr, cpFlip)
	cp.decs = append([]dec(nil), fr.decs...)
	cp.alt = dec{val: 1 - v, cond: other, n: n, alt: 1}
	cp.model = md
	m.pushCP(fr, cp)
	m.takeDec(fr, dec{val: v, cond: cur, n: n, alt: 0})
	return v == 1
}

func (m *M) decideV(v Value) bool {
	if v.R == nil {
		return v.N == 1
	}
	return m.decide(v.R.(*Term))
}

// concretize picks a concrete value for t, exploring all feasible ones.
func (m *M) concretizeT(t *Term) uint64 { return m.concretizeN(t, 0) }

// sample gives a concrete value in place of v, exploring a few of the feasible
// ones: an operation follows that has no symbolic encoding. Values for which a
// hint holds are explored as well. The exploration counts as incomplete.
func (m *M) sample(v Value, hints ...*Term) Value {
	if v.R == nil {
		return v
	}
	for _, h := range hints {
		if m.decide(h) {
			break
		}
	}
	t := v.R.(*Term)
	v.N, v.R = m.concretizeN(t, 3), nil
	return v
}

// concretizeN is concretize for the first few values only.
func (m *M) concretizeN(t *Term, limit int) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.w == 0 {
		if m.decide(t) {
			return 1
		}
		return 0
	}
	fr := m.fr
	if d, ok := m.replayDec(fr); ok {
		return d.val
	}
	m.checkTime()
	v := m.eval(t)
	eq := m.T.Eq(t, m.T.Const(v, t.w))
	ok, md := m.sat(m.T.Not(eq))
	if !ok {
		m.takeDec(fr, dec{val: v})
		return v
	}
	n := &node{alts: -1}
	if m.dive != 0 {
		if m.diveFlip() {
			m.model = md
			v = m.eval(t)
			eq = m.T.Eq(t, m.T.Const(v, t.w))
		}
		m.takeDec(fr, dec{val: v, cond: eq, n: n})
		return v
	}
	cp := m.snapshot(fr, cpConc)
	cp.decs = append([]dec(nil), fr.decs...)
	cp.t = t
	cp.extra = append([]*Term(nil), m.pc[fr.insPC:]...)
	cp.excl = []uint64{v}
	cp.limit = limit
	cp.n = n
	m.pushCP(fr, cp)
	m.takeDec(fr, dec{val: v, cond: eq, n: n, alt: 0})
	return v
}

func (m *M) concInt(v Value) int {
	if v.R == nil {
		return int(int64(signExt(v.N, v.W)))
	}
	t := v.R.(*Term)
	return int(int64(signExt(m.concretizeT(t), t.w)))
}

// choose explores n alternatives of an unconstrained choice.
func (m *M) choose(name string, n int) int {
	return int(m.concretizeT(m.rangeVar(name, uint64(n-1))))
}

// rangeVar is a variable with 0 <= v <= max, as a 64-bit term.
func (m *M) rangeVar(name string, max uint64) *Term {
	w := uint8(bits.Len64(max))
	if w == 0 {
		return m.T.Const(0, 64)
	}
	v := m.T.Var(name, w)
	if max != mask(w) {
		if a := m.T.axioms[v.varID]; a == nil {
			if len(m.T.varUsed) > 0 && m.T.varUsed[v.varID] {
				panic(unsupported{"symbolic variable " + name + " ranged after use"})
			}
			m.T.axioms[v.varID] = m.T.mk(OpUle, 0, v, m.T.Const(max, w), nil, 0)
			m.T.axMax[v.varID] = max
			v.hi = max
		} else if m.T.axMax[v.varID] != max {
			panic(unsupported{"symbolic variable " + name + " used with two ranges"})
		}
	}
	return m.T.Zext(v, 64)
}

func (m *M) assume(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(pathDead{"assume"})
		}
		return
	}
	if m.inPC(c) {
		return
	}
	if m.eval(c) != 1 {
		ok, md := m.sat(c)
		if !ok {
			panic(pathDead{"assume"})
		}
		m.model = md
	}
	m.addPC(c)
	m.fr.path = append(m.fr.path, pstep{&node{alts: -1}, 0, c})
}

func (m *M) checkTime() {
	m.tick++
	if m.tick&63 == 0 && time.Now().After(m.deadline) {
		panic(jobTimeout{})
	}
	if m.memStop.Load() {
		panic(memLimit{})
	}
}

// memCheck publishes the job's progress and obeys the memory watchdog.
func (m *M) memCheck() {
	m.progress.Store(m.stats.Steps)
	if m.memStop.Load() {
		panic(memLimit{})
	}
}

type memLimit struct{}

type jobTimeout struct{}

// ---- memory ----

func (m *M) alloc(ti *TypeInfo, n int) *Object {
	m.birth++
	return &Object{id: m.birth, typ: ti, n: n}
}

func (m *M) store(o *Object, i int, v Value) {
	if o.tag == "box" {
		m.recordViolation("boxwrite", "value modified in place inside an interface", m.model)
	}
	if m.monBirth != 0 && o.id <= m.monBirth && m.protect == 0 && !o.sync {
		m.sharedWrite(o, i)
	}
	if o.id <= m.curMark {
		m.trail = append(m.trail, trailEnt{o, i, o.get(i)})
	}
	if i >= len(o.cells) {
		o.grow(i)
	}
	o.cells[i] = v
}

func (m *M) undo(to int) {
	for i := len(m.trail) - 1; i >= to; i-- {
		if e := &m.trail[i]; e.obj != nil {
			e.obj.cells[e.idx] = e.old
		}
	}
	m.trail = m.trail[:to]
}

func (m *M) loadCells(o *Object, off, n int) []Value {
	r := make([]Value, n)
	k := 0
	if off < len(o.cells) {
		k = copy(r, o.cells[off:])
	}
	for ; k < n; k++ {
		r[k] = o.zeroCell(off + k)
	}
	return r
}

func (m *M) nilDeref() {
	panic(goPanic{m.runtimeError("invalid memory address or nil pointer dereference")})
}

func (m *M) load(p Value, ti *TypeInfo) Value {
	switch o := p.R.(type) {
	case nil:
		m.nilDeref()
	case *Object:
		if ti.agg() {
			if int(p.N)+ti.cells > o.ncells() {
				panic(unsupported{"load beyond object (" + ti.String() + ")"})
			}
			return Value{K: KStruct, R: m.loadCells(o, int(p.N), ti.cells)}
		}
		v := o.get(int(p.N))
		return m.reinterpret(v, ti)
	case *SymPtr:
		if ti.agg() {
			cs := make([]Value, ti.cells)
			for k := range cs {
				cs[k] = m.symLoad(o, k)
			}
			return Value{K: KStruct, R: cs}
		}
		return m.symLoad(o, 0)
	case *RawView:
		return m.rawLoad(o)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p.R)})
}

// reinterpret handles loads through a pointer of another scalar type.
func (m *M) reinterpret(v Value, ti *TypeInfo) Value {
	switch ti.kind {
	case TInt:
		if v.K == KInt && v.W == ti.w {
			return v
		}
		if v.K == KFloat && v.W == ti.w {
			v.K = KInt
			return v
		}
		if v.K == KPtr && ti.w == 64 {
			return v
		}
	case TFloat:
		if v.K == KFloat && v.W == ti.w {
			return v
		}
		if v.K == KInt && v.W == ti.w {
			v.K = KFloat
			return v
		}
	case TString:
		if v.K == KStr {
			return v
		}
		if v.K == KSlice { // *(*string)(unsafe.Pointer(&bytes))
			return m.bytesToStr(v)
		}
	case TBool:
		if v.K == KBool {
			return v
		}
	case TPtr:
		if v.K == KPtr || v.K == KInv {
			return v
		}
		if v.K == KInt && v.R == nil && v.N == 0 {
			return Value{K: KPtr}
		}
	case TSlice:
		if v.K == KSlice {
			return v
		}
	case TIface:
		if v.K == KIface {
			return v
		}
	case TFunc:
		if v.K == KFunc {
			return v
		}
	case TMap:
		if v.K == KMap {
			return v
		}
	default:
		return v
	}
	panic(unsupported{fmt.Sprintf("memory reinterpreted: kind %d as %s", v.K, ti)})
}

func (m *M) storeTo(p Value, v Value, ti *TypeInfo) {
	switch o := p.R.(type) {
	case nil:
		m.nilDeref()
	case *Object:
		if ti.agg() {
			cs := v.R.([]Value)
			for k, c := range cs {
				m.store(o, int(p.N)+k, c)
			}
			return
		}
		m.store(o, int(p.N), v)
		return
	case *SymPtr:
		i := int(m.concretizeT(o.idx))
		m.storeTo(Value{K: KPtr, R: o.obj, N: uint64(o.base + i*o.esz + o.add)}, v, ti)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p.R)})
}

// symLoad reads obj cells at a symbolic index as an ite tree.
func (m *M) symLoad(p *SymPtr, k int) Value {
	vals := make([]Value, p.cnt)
	for i := range vals {
		vals[i] = p.obj.get(p.base + i*p.esz + p.add + k)
	}
	return m.symSelect(vals, p.idx)
}

func (m *M) symSelect(vals []Value, idx *Term) Value {
	if len(vals) == 0 {
		panic(unsupported{"symbolic read of empty table"})
	}
	// restrict to the index's possible range
	lo, hi := 0, len(vals)-1
	if idx.lo > uint64(lo) {
		lo = int(min(idx.lo, uint64(hi)))
	}
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	same := true
	for i := lo + 1; i <= hi; i++ {
		if !sameScalar(vals[i], vals[lo]) {
			same = false
			break
		}
	}
	if same {
		return vals[lo]
	}
	for i := lo; i <= hi; i++ {
		if k := vals[i].K; k != KInt && k != KBool && k != KFloat {
			// not a scalar table: fork on the index
			return vals[m.concretizeT(idx)]
		}
	}
	// runs of equal values
	type run struct {
		start int
		v     Value
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		if len(runs) == 0 || !sameScalar(runs[len(runs)-1].v, vals[i]) {
			runs = append(runs, run{i, vals[i]})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return m.T.of(runs[a].v)
		}
		mid := (a + b + 1) / 2
		return m.T.Ite(m.T.Ult(idx, m.T.Const(uint64(runs[mid].start), idx.w)), build(a, mid-1), build(mid, b))
	}
	t := build(0, len(runs)-1)
	if vals[lo].K == KFloat {
		return floatVal(t)
	}
	return termVal(t)
}

func sameScalar(a, b Value) bool {
	return a.K == b.K && a.W == b.W && a.N == b.N && a.R == nil && b.R == nil ||
		a.R != nil && (a.K == KInt || a.K == KBool || a.K == KFloat) && a.K == b.K && a.R == b.R
}

// ---- frames ----

const maxDepth = 3000

func (m *M) call(f *Func, args []Value, deferOf *frame) callRes {
	m.p.compile(f)
	if len(f.blocks) == 0 {
		panic(unsupported{"no body: " + f.name})
	}
	m.depth++
	m.called[f]++
	m.stats.Calls++
	if m.depth > maxDepth {
		m.depth--
		m.recordViolation("hang", "unbounded recursion", m.model)
		panic(pathDead{"recursion"})
	}
	fr := &frame{f: f, regs: make([]Value, f.nregs), deferOf: deferOf, caller: m.fr}
	copy(fr.regs, args)
	fr.code = f.blocks[0].code
	fr.entryTrail, fr.entryPC, fr.entryBirth = len(m.trail), len(m.pc), m.birth
	fr.entryMonBirth = m.monBirth
	savedFr, savedMark, savedDepth := m.fr, m.curMark, m.depth-1
	m.fr = fr
	m.curMark = m.birth
	defer func() {
		m.fr = savedFr
		m.curMark = savedMark
		m.depth = savedDepth
	}()
	return m.run(fr)
}

func (m *M) run(fr *frame) callRes {
	var outs []*outcome
	entryModel := m.model
	protect, steps := m.protect, m.steps
	depth := m.depth
	maxSteps := steps
	for {
		done := m.exec(fr)
		m.fr = fr
		m.depth = depth
		if len(fr.cps) == 0 && len(outs) == 0 {
			if done {
				fr.out.recovered = fr.didRec
				if fr.top {
					m.pathEnd(fr)
				}
				return callRes{inline: true, out: fr.out, path: fr.path}
			}
			return callRes{}
		}
		if done {
			if fr.top {
				m.pathEnd(fr)
			} else {
				outs = append(outs, m.capture(fr))
			}
			maxSteps = max(maxSteps, m.steps)
		}
		if !m.backtrack(fr) {
			break
		}
	}
	m.undo(fr.entryTrail)
	m.pc = m.pc[:fr.entryPC]
	m.protect = protect
	m.model = entryModel
	m.monBirth = fr.entryMonBirth
	if fr.top {
		return callRes{}
	}
	m.stats.Outcomes += int64(len(outs))
	m.steps = maxSteps
	gs, full := m.mergeOutcomes(outs, fr.entryBirth)
	m.stats.Groups += int64(len(gs))
	return callRes{groups: gs, full: full}
}

func (m *M) backtrack(fr *frame) bool {
	for len(fr.cps) > 0 {
		c := fr.cps[len(fr.cps)-1]
		pop := true
		m.undo(c.trail)
		m.pc = m.pc[:c.pcLen]
		fr.path = fr.path[:c.pathLen]
		m.model = c.model
		m.steps = c.steps
		m.protect = c.protect
		m.monBirth = c.monBirth
		fr.blk, fr.ip, fr.ph = c.blk, c.ip, c.ph
		fr.code = fr.f.blocks[fr.blk].code
		fr.defers, fr.pan, fr.panVal, fr.didRec = c.defers, c.pan, c.panVal, c.didRec
		m.curMark = m.birth
		ok := true
		switch c.kind {
		case cpFlip:
			fr.decs = append(append([]dec(nil), c.decs...), c.alt)
			fr.decIdx = 0
		case cpConc:
			// what the instruction had assumed before constrains the term
			np := len(m.pc)
			m.pc = append(m.pc, c.extra...)
			q := m.T.tru
			for _, v := range c.excl {
				q = m.T.And(q, m.T.Not(m.T.Eq(c.t, m.T.Const(v, c.t.w))))
			}
			sat, md := m.sat(q)
			if sat && 0 < c.limit && c.limit <= len(c.excl) {
				m.pc = m.pc[:np]
				m.note("only some values of an operand of a floating-point operation explored")
				ok = false
			} else if !sat {
				m.pc = m.pc[:np]
				c.n.alts = len(c.excl)
				ok = false
			} else {
				m.model = md
				v := m.eval(c.t)
				m.pc = m.pc[:np]
				fr.decs = append(append([]dec(nil), c.decs...),
					dec{val: v, cond: m.T.Eq(c.t, m.T.Const(v, c.t.w)), n: c.n, alt: len(c.excl)})
				fr.decIdx = 0
				c.excl = append(c.excl, v)
				pop = false
			}
		case cpGroup:
			fr.decs = fr.decs[:0]
			fr.decIdx = 0
		}
		if !ok {
			fr.cps = fr.cps[:len(fr.cps)-1]
			continue
		}
		if c.kind == cpGroup {
			g := c.groups[c.next]
			c.next++
			pop = c.next == len(c.groups)
			m.restoreRegs(fr, c, pop)
			if pop {
				fr.cps = fr.cps[:len(fr.cps)-1]
			}
			m.insStart(fr)
			m.applyGroup(fr, g, c.n, c.next-1)
			m.afterCall(fr, c.in, g, c.defCont)
			return true
		}
		m.restoreRegs(fr, c, pop)
		if pop {
			fr.cps = fr.cps[:len(fr.cps)-1]
		}
		return true
	}
	return false
}

func (m *M) restoreRegs(fr *frame, c *choice, move bool) {
	if move {
		fr.regs = c.regs
	} else {
		copy(fr.regs, c.regs)
	}
}

func (m *M) insStart(fr *frame) {
	fr.insTrail, fr.insPC, fr.insPath = len(m.trail), len(m.pc), len(fr.path)
}

func (m *M) applyGroup(fr *frame, g *outcome, n *node, alt int) {
	for _, e := range g.eff {
		m.store0(e.obj, e.idx, e.v)
	}
	m.model = g.model
	if g.cond != nil {
		m.addPC(g.cond)
		fr.path = append(fr.path, pstep{n, alt, g.cond})
	}
	m.monBirth = g.monBirth
}

// store0 stores without the sharing monitor (the write was already judged).
func (m *M) store0(o *Object, i int, v Value) {
	if o.id <= m.curMark {
		m.trail = append(m.trail, trailEnt{o, i, o.get(i)})
	}
	if i >= len(o.cells) {
		o.grow(i)
	}
	o.cells[i] = v
}

// afterCall continues the frame with the outcome of a call.
func (m *M) afterCall(fr *frame, in *instr, o *outcome, deferCont bool) {
	if deferCont {
		if o.recovered {
			fr.pan = false
			fr.panVal = Value{}
		}
		if o.pan {
			fr.pan = true
			fr.panVal = o.val
			fr.ph = phUnwind
		}
		return
	}
	if o.pan {
		m.startPanic(fr, o.val)
		return
	}
	if in.dst >= 0 {
		fr.regs[in.dst] = o.val
	}
	fr.ip++
}

func (m *M) startPanic(fr *frame, v Value) {
	fr.decs = fr.decs[:0]
	fr.decIdx = 0
	fr.pan = true
	fr.panVal = v
	fr.ph = phUnwind
}

// doCall performs a call from fr; returns false if the path died.
func (m *M) doCall(fr *frame, in *instr, f *Func, args []Value, deferCont bool) bool {
	var dof *frame
	if deferCont {
		dof = fr
	}
	r := m.call(f, args, dof)
	if r.inline {
		fr.path = append(fr.path, r.path...)
		m.afterCall(fr, in, &r.out, deferCont)
		return true
	}
	if len(r.groups) == 0 {
		return false
	}
	m.insStart(fr)
	n := &node{alts: -1}
	if r.full {
		n.alts = len(r.groups)
	}
	if len(r.groups) > 1 {
		c := m.snapshot(fr, cpGroup)
		c.groups = r.groups
		c.next = 1
		c.n = n
		c.in = in
		c.defCont = deferCont
		m.pushCP(fr, c)
	}
	m.applyGroup(fr, r.groups[0], n, 0)
	m.afterCall(fr, in, r.groups[0], deferCont)
	return true
}

func (m *M) exec(fr *frame) bool {
	for {
		st := m.exec1(fr)
		switch st {
		case stDone:
			return true
		case stDead:
			return false
		}
	}
}

type status uint8

const (
	stAgain status = iota
	stDone
	stDead
)

func (m *M) exec1(fr *frame) (st status) {
	depth := m.depth
	defer func() {
		if r := recover(); r != nil {
			m.fr = fr
			m.depth = depth
			switch r := r.(type) {
			case goPanic:
				m.startPanic(fr, r.v)
				st = stAgain
			case pathDead:
				st = stDead
			case unsupported:
				m.note("unsupported: " + r.msg + " [in " + fr.f.name + "]")
				st = stDead
			case jobTimeout, memLimit, internalErr:
				panic(r)
			default:
				panic(internalErr{fmt.Sprintf("%v at %s: %v [%s]\n%s", r, fr.f.name, fr.f.blocks[fr.blk].code[fr.ip].src, m.where(), debug.Stack())})
			}
		}
	}()
	return m.loop(fr)
}

func (m *M) get(fr *frame, o *opnd) Value {
	switch o.kind {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	}
	return Value{K: KPtr, R: m.globalObj(int(o.idx))}
}

func (m *M) globalObj(i int) *Object {
	if i >= len(m.globals) {
		n := make([]*Object, i+64)
		copy(n, m.globals)
		m.globals = n
	}
	if m.globals[i] == nil {
		m.p.mu.Lock()
		g := m.p.glist[i]
		m.p.mu.Unlock()
		ti := typeTab.get(g.Type().Underlying().(*types.Pointer).Elem())
		// globals exist since before anything else
		m.globals[i] = &Object{id: 0, typ: ti, n: 1, tag: g.String()}
	}
	return m.globals[i]
}

func (m *M) jump(fr *frame, e *edge) {
	if len(e.moves) == 1 {
		fr.regs[e.moves[0].dst] = m.get(fr, &e.moves[0].src)
	} else if len(e.moves) > 0 {
		var buf [16]Value
		tmp := buf[:0]
		for i := range e.moves {
			tmp = append(tmp, m.get(fr, &e.moves[i].src))
		}
		for i := range e.moves {
			fr.regs[e.moves[i].dst] = tmp[i]
		}
	}
	fr.blk = e.blk
	fr.ip = 0
	fr.code = fr.f.blocks[e.blk].code
}

func (m *M) finish(fr *frame, pan bool, v Value) status {
	fr.out = outcome{pan: pan, val: v}
	return stDone
}

func (m *M) popDefer(fr *frame) bool {
	d := fr.defers
	if d.bi != nil {
		m.builtin(fr, d.bi, d.args)
		fr.defers = d.next
		return true
	}
	if m.hasIntrinsic(d.fn) {
		if _, tail := m.intrinsic(fr, d.fn, d.args); tail != nil {
			panic(unsupported{"deferred native tail call"})
		}
		fr.defers = d.next
		return true
	}
	fr.defers = d.next
	return m.doCall(fr, d.in, d.fn, d.args, true)
}

func (m *M) loop(fr *frame) status {
	for {
		m.insStart(fr)
		if fr.ph != phRun {
			if fr.defers != nil {
				fr.decIdx = 0
				if !m.popDefer(fr) {
					return stDead
				}
				fr.decs = fr.decs[:0]
				continue
			}
			if fr.ph == phDefers && !fr.pan {
				fr.ph = phRun
				fr.ip++
				continue
			}
			if fr.pan {
				return m.finish(fr, true, fr.panVal)
			}
			// recovered
			fr.ph = phRun
			if fr.f.recover >= 0 {
				fr.blk, fr.ip = int32(fr.f.recover), 0
				fr.code = fr.f.blocks[fr.blk].code
				continue
			}
			rs := make([]Value, len(fr.f.resTI))
			for i, t := range fr.f.resTI {
				rs[i] = t.zeroVal()
			}
			return m.finish(fr, false, tupleOf(rs))
		}
		m.steps++
		m.stats.Steps++
		if m.stats.Steps&4095 == 0 {
			m.memCheck()
		}
		if m.steps > m.stepLimit {
			m.recordViolation("hang", "step limit exceeded", m.model)
			panic(pathDead{"steps"})
		}
		in := &fr.code[fr.ip]
		fr.decIdx = 0
		switch in.op {
		case iJump:
			m.jump(fr, &in.e0)
		case iIf:
			if m.decideV(m.get(fr, &in.a)) {
				m.jump(fr, &in.e0)
			} else {
				m.jump(fr, &in.e1)
			}
		case iReturn:
			rs := make([]Value, len(in.args))
			for i := range in.args {
				rs[i] = m.get(fr, &in.args[i])
			}
			return m.finish(fr, false, tupleOf(rs))
		case iCall:
			args := m.args(fr, in)
			if m.hasIntrinsic(in.callee) {
				if !m.intrinsicCall(fr, in, in.callee, args) {
					return stDead
				}
				fr.decs = fr.decs[:0]
				continue
			}
			if !m.doCall(fr, in, in.callee, args, false) {
				return stDead
			}
			fr.decs = fr.decs[:0]
			continue
		case iCallVal:
			fv := m.get(fr, &in.a)
			if fv.R == nil {
				m.nilDeref()
			}
			cl := fv.R.(*Closure)
			args := m.args(fr, in)
			args = append(args, cl.bind...)
			if m.hasIntrinsic(cl.fn) {
				if !m.intrinsicCall(fr, in, cl.fn, args) {
					return stDead
				}
				fr.decs = fr.decs[:0]
				continue
			}
			if !m.doCall(fr, in, cl.fn, args, false) {
				return stDead
			}
			fr.decs = fr.decs[:0]
			continue
		case iInvoke:
			f, recv := m.resolveInvoke(m.get(fr, &in.a), in.method)
			args := make([]Value, 0, len(in.args)+1)
			args = append(args, recv)
			for i := range in.args {
				args = append(args, m.get(fr, &in.args[i]))
			}
			if m.hasIntrinsic(f) {
				if !m.intrinsicCall(fr, in, f, args) {
					return stDead
				}
				fr.decs = fr.decs[:0]
				continue
			}
			if !m.doCall(fr, in, f, args, false) {
				return stDead
			}
			fr.decs = fr.decs[:0]
			continue
		case iRunDefers:
			fr.ph = phDefers
		case iPanic:
			v := m.get(fr, &in.a)
			if v.R == nil {
				v = m.runtimeError("panic called with nil argument")
			}
			m.startPanic(fr, v)
		case iDefer:
			m.doDefer(fr, in)
			fr.ip++
		case iBuiltin:
			v := m.builtin(fr, in, m.args(fr, in))
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			fr.ip++
		case iStore:
			m.storeTo(m.get(fr, &in.a), m.get(fr, &in.b), in.ti)
			fr.ip++
		case iMapUpdate:
			m.mapUpdate(m.get(fr, &in.a), m.get(fr, &in.b), m.get(fr, &in.c))
			fr.ip++
		default:
			v := m.value(fr, in)
			fr.regs[in.dst] = v
			fr.ip++
		}
		if len(fr.decs) > 0 {
			fr.decs = fr.decs[:0]
		}
	}
}

func tupleOf(rs []Value) Value {
	switch len(rs) {
	case 0:
		return Value{}
	case 1:
		return rs[0]
	}
	return Value{K: KTuple, R: rs}
}

func (m *M) args(fr *frame, in *instr) []Value {
	args := make([]Value, len(in.args), len(in.args)+4)
	for i := range in.args {
		args[i] = m.get(fr, &in.args[i])
	}
	return args
}

func (m *M) resolveInvoke(iv Value, meth *types.Func) (*Func, Value) {
	if iv.R == nil {
		m.nilDeref()
	}
	i := iv.R.(*Iface)
	f := m.p.lookupMethod(i.t, meth)
	if f == nil {
		panic(unsupported{"method " + meth.Name() + " of " + i.t.String()})
	}
	return f, i.v
}

func (m *M) doDefer(fr *frame, in *instr) {
	sub := in.sub
	d := &deferRec{in: sub, next: fr.defers}
	switch sub.op {
	case iCall:
		d.fn = sub.callee
		d.args = m.args(fr, sub)
	case iCallVal:
		fv := m.get(fr, &sub.a)
		if fv.R == nil {
			panic(unsupported{"deferred nil function"})
		}
		cl := fv.R.(*Closure)
		d.fn = cl.fn
		d.args = append(m.args(fr, sub), cl.bind...)
	case iInvoke:
		f, recv := m.resolveInvoke(m.get(fr, &sub.a), sub.method)
		d.fn = f
		d.args = append([]Value{recv}, m.args(fr, sub)...)
	case iBuiltin:
		d.bi = sub
		d.args = m.args(fr, sub)
	}
	fr.defers = d
}

// value executes the value-producing instructions that neither call nor jump.
func (m *M) value(fr *frame, in *instr) Value {
	switch in.op {
	case iAlloc:
		return Value{K: KPtr, R: m.alloc(in.ti, 1)}
	case iLoad:
		return m.load(m.get(fr, &in.a), in.ti)
	case iBinOp:
		return m.binop(in.tok, m.get(fr, &in.a), m.get(fr, &in.b), in.ti, in.ti2)
	case iUnOp:
		return m.unop(in.tok, m.get(fr, &in.a), in.ti)
	case iMove:
		return m.get(fr, &in.a)
	case iConvert:
		return m.convert(m.get(fr, &in.a), in.ti, in.ti2)
	case iExtract:
		return m.get(fr, &in.a).R.([]Value)[in.n]
	case iField:
		cs := m.get(fr, &in.a).R.([]Value)
		f := in.ti.fields[in.n]
		o := in.ti.offs[in.n]
		return f.fromCells(cs[o : o+f.cells : o+f.cells])
	case iFieldAddr:
		p := m.get(fr, &in.a)
		switch o := p.R.(type) {
		case nil:
			m.nilDeref()
		case *Object:
			return Value{K: KPtr, R: o, N: p.N + uint64(in.ti.offs[in.n])}
		case *SymPtr:
			q := *o
			q.add += in.ti.offs[in.n]
			return Value{K: KPtr, R: &q}
		case *RawView:
			return Value{K: KPtr, R: &RawView{o.obj, o.off, in.n}}
		}
		panic(unsupported{fmt.Sprintf("field address of %T", p.R)})
	case iIndex:
		return m.index(m.get(fr, &in.a), m.get(fr, &in.b), in.ti)
	case iIndexAddr:
		return m.indexAddr(m.get(fr, &in.a), m.get(fr, &in.b), in.ti)
	case iLookup:
		return m.lookup(m.get(fr, &in.a), m.get(fr, &in.b), in.ti, in.commaOk)
	case iMakeClosure:
		b := make([]Value, len(in.args))
		for i := range in.args {
			b[i] = m.get(fr, &in.args[i])
		}
		return Value{K: KFunc, R: &Closure{fn: in.callee, bind: b}}
	case iMakeIface:
		return Value{K: KIface, R: &Iface{in.ti, m.get(fr, &in.a)}}
	case iChangeIface:
		return m.get(fr, &in.a)
	case iMakeMap:
		return m.makeMap(in.ti)
	case iMakeSlice:
		ln := m.concInt(m.get(fr, &in.a))
		cp := m.concInt(m.get(fr, &in.b))
		if ln < 0 || cp < ln || cp > 1<<28 {
			if cp > 1<<28 && ln >= 0 && cp >= ln && cp < 1<<40 {
				panic(unsupported{"huge allocation"})
			}
			panic(goPanic{m.runtimeError("makeslice: len out of range")})
		}
		o := m.alloc(in.ti.elem, cp)
		return Value{K: KSlice, R: &Slice{o, 0, ln, cp, in.ti.elem.cells}}
	case iMakeChan:
		return Value{K: KChan, R: m.alloc(m.anyTI, 1)}
	case iRange:
		return m.mkRange(m.get(fr, &in.a), in.ti)
	case iNext:
		return m.next(m.get(fr, &in.a), in)
	case iSlice:
		return m.slice(fr, in)
	case iSliceToArrPtr:
		s := m.get(fr, &in.a)
		ln := 0
		if s.R != nil {
			ln = s.R.(*Slice).len
		}
		if ln < in.ti.n {
			panic(goPanic{m.runtimeError("cannot convert slice to array pointer")})
		}
		if s.R == nil {
			return Value{K: KPtr}
		}
		sl := s.R.(*Slice)
		return Value{K: KPtr, R: sl.obj, N: uint64(sl.off)}
	case iTypeAssert:
		return m.typeAssert(m.get(fr, &in.a), in)
	}
	panic(unsupported{"instruction " + in.bname})
}

// ---- operators ----

func (m *M) boundsPanic() {
	panic(goPanic{m.runtimeError("index out of range")})
}

// inBounds decides 0 <= idx < n (unsigned compare covers negatives).
func (m *M) inBounds(idx Value, n int) {
	if idx.R == nil {
		i := int64(signExt(idx.N, idx.W))
		if idx.W < 64 { // unsigned narrow index
			i = int64(idx.N)
		}
		if i < 0 || i >= int64(n) {
			m.boundsPanic()
		}
		return
	}
	t := idx.R.(*Term)
	if t.w < 64 {
		t = m.T.Zext(t, 64)
	}
	if !m.decide(m.T.Ult(t, m.T.Const(uint64(n), 64))) {
		m.boundsPanic()
	}
}

func widenIdx(v Value, signed bool) Value { return v }

func (m *M) index(x, idx Value, ti *TypeInfo) Value {
	if x.K == KStr {
		n := strLen(x)
		m.inBounds(idx, n)
		if idx.R == nil {
			return strByte(x, int(idx.N))
		}
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = strByte(x, i)
		}
		return m.symSelect(vals, idx.R.(*Term))
	}
	// array value
	cs := x.R.([]Value)
	e := ti.elem
	m.inBounds(idx, ti.n)
	if idx.R == nil {
		o := int(idx.N) * e.cells
		return e.fromCells(cs[o : o+e.cells])
	}
	out := make([]Value, e.cells)
	for k := range out {
		vals := make([]Value, ti.n)
		for i := range vals {
			vals[i] = cs[i*e.cells+k]
		}
		out[k] = m.symSelect(vals, idx.R.(*Term))
	}
	return e.fromCells(out)
}

func (m *M) indexAddr(x, idx Value, ti *TypeInfo) Value {
	var obj *Object
	var off, n, esz int
	switch x.K {
	case KSlice:
		if x.R == nil {
			m.boundsPanic()
		}
		s := x.R.(*Slice)
		obj, off, n, esz = s.obj, s.off, s.len, s.esz
	case KPtr: // pointer to array
		if x.R == nil {
			m.nilDeref()
		}
		at := ti.elem
		switch o := x.R.(type) {
		case *Object:
			obj, off, n, esz = o, int(x.N), at.n, at.elem.cells
		default:
			panic(unsupported{fmt.Sprintf("index through %T", x.R)})
		}
	default:
		panic(unsupported{"indexAddr"})
	}
	m.inBounds(idx, n)
	if idx.R == nil {
		return Value{K: KPtr, R: obj, N: uint64(off + int(idx.N)*esz)}
	}
	return Value{K: KPtr, R: &SymPtr{obj: obj, base: off, esz: esz, cnt: n, idx: idx.R.(*Term)}}
}

func (m *M) unop(tok token.Token, x Value, ti *TypeInfo) Value {
	switch tok {
	case token.NOT:
		if x.R == nil {
			return mkBool(x.N == 0)
		}
		return termVal(m.T.Not(x.R.(*Term)))
	case token.SUB:
		if x.K == KInt {
			if x.R == nil {
				return mkIntW(-x.N, x.W)
			}
			t := x.R.(*Term)
			return termVal(m.T.Bin(OpSub, m.T.Const(0, t.w), t))
		}
		if x.K == KFloat {
			if x.R == nil {
				x.N ^= 1 << (x.W - 1)
				return x
			}
			t := x.R.(*Term)
			return floatVal(m.T.Bin(OpBXor, t, m.T.Const(1<<(t.w-1), t.w)))
		}
	case token.XOR:
		if x.R == nil {
			return mkIntW(^x.N, x.W)
		}
		return termVal(m.T.BNot(x.R.(*Term)))
	}
	panic(unsupported{"unary " + tok.String()})
}

func (m *M) binop(tok token.Token, x, y Value, ti, ti2 *TypeInfo) Value {
	switch tok {
	case token.EQL:
		return termVal(m.equal(x, y))
	case token.NEQ:
		return termVal(m.T.Not(m.equal(x, y)))
	}
	switch x.K {
	case KInt:
		return m.intop(tok, x, y, ti.signed, ti2 != nil && ti2.signed)
	case KBool:
		a, b := m.T.of(x), m.T.of(y)
		switch tok {
		case token.AND, token.LAND:
			return termVal(m.T.And(a, b))
		case token.OR, token.LOR:
			return termVal(m.T.Or(a, b))
		}
	case KStr:
		switch tok {
		case token.ADD:
			return m.T.concat(x, y)
		case token.LSS:
			return termVal(m.strLess(x, y))
		case token.GTR:
			return termVal(m.strLess(y, x))
		case token.LEQ:
			return termVal(m.T.Not(m.strLess(y, x)))
		case token.GEQ:
			return termVal(m.T.Not(m.strLess(x, y)))
		}
	case KFloat:
		return m.floatop(tok, x, y)
	case KPtr:
		panic(unsupported{"pointer arithmetic"})
	}
	panic(unsupported{fmt.Sprintf("binary %s on kind %d", tok, x.K)})
}

func (m *M) floatop(tok token.Token, x, y Value) Value {
	if x.R != nil || y.R != nil {
		switch tok {
		case token.LSS:
			return termVal(m.floatLess(m.T.of(x), m.T.of(y), false))
		case token.GTR:
			return termVal(m.floatLess(m.T.of(y), m.T.of(x), false))
		case token.LEQ:
			return termVal(m.floatLess(m.T.of(x), m.T.of(y), true))
		case token.GEQ:
			return termVal(m.floatLess(m.T.of(y), m.T.of(x), true))
		}
		x, y = m.sample(x), m.sample(y)
	}
	f := func(v Value) float64 {
		if v.W == 32 {
			return float64(math.Float32frombits(uint32(v.N)))
		}
		return math.Float64frombits(v.N)
	}
	a, b := f(x), f(y)
	mk := func(r float64) Value {
		if x.W == 32 {
			return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(r)))}
		}
		return mkF64(r)
	}
	switch tok {
	case token.ADD:
		return mk(a + b)
	case token.SUB:
		return mk(a - b)
	case token.MUL:
		return mk(a * b)
	case token.QUO:
		return mk(a / b)
	case token.LSS:
		return mkBool(a < b)
	case token.GTR:
		return mkBool(a > b)
	case token.LEQ:
		return mkBool(a <= b)
	case token.GEQ:
		return mkBool(a >= b)
	}
	panic(unsupported{"float " + tok.String()})
}

func (m *M) intop(tok token.Token, x, y Value, signed, ysigned bool) Value {
	w := x.W
	switch tok {
	case token.SHL, token.SHR:
		return m.shift(tok, x, y, signed, ysigned)
	}
	if x.R == nil && y.R == nil {
		a, b := x.N, y.N
		sa, sb := int64(signExt(a, w)), int64(signExt(b, w))
		switch tok {
		case token.ADD:
			return mkIntW(a+b, w)
		case token.SUB:
			return mkIntW(a-b, w)
		case token.MUL:
			return mkIntW(a*b, w)
		case token.QUO, token.REM:
			if b == 0 {
				panic(goPanic{m.runtimeError("integer divide by zero")})
			}
			op := OpUDiv
			switch {
			case signed && tok == token.QUO:
				op = OpSDiv
			case signed:
				op = OpSRem
			case tok == token.REM:
				op = OpURem
			}
			r, _ := foldBin(op, a, b, w)
			return mkIntW(r, w)
		case token.AND:
			return mkIntW(a&b, w)
		case token.OR:
			return mkIntW(a|b, w)
		case token.XOR:
			return mkIntW(a^b, w)
		case token.AND_NOT:
			return mkIntW(a&^b, w)
		case token.LSS:
			if signed {
				return mkBool(sa < sb)
			}
			return mkBool(a < b)
		case token.LEQ:
			if signed {
				return mkBool(sa <= sb)
			}
			return mkBool(a <= b)
		case token.GTR:
			if signed {
				return mkBool(sa > sb)
			}
			return mkBool(a > b)
		case token.GEQ:
			if signed {
				return mkBool(sa >= sb)
			}
			return mkBool(a >= b)
		}
		panic(unsupported{"int " + tok.String()})
	}
	T := m.T
	a, b := T.of(x), T.of(y)
	switch tok {
	case token.ADD:
		return termVal(T.Bin(OpAdd, a, b))
	case token.SUB:
		return termVal(T.Bin(OpSub, a, b))
	case token.MUL:
		return termVal(T.Bin(OpMul, a, b))
	case token.QUO, token.REM:
		if b.op == OpConst {
			if b.k == 0 {
				panic(goPanic{m.runtimeError("integer divide by zero")})
			}
		} else if m.decide(T.Eq(b, T.Const(0, w))) {
			panic(goPanic{m.runtimeError("integer divide by zero")})
		}
		op := OpUDiv
		switch {
		case signed && tok == token.QUO:
			op = OpSDiv
		case signed:
			op = OpSRem
		case tok == token.REM:
			op = OpURem
		}
		return termVal(T.Bin(op, a, b))
	case token.AND:
		return termVal(T.Bin(OpBAnd, a, b))
	case token.OR:
		return termVal(T.Bin(OpBOr, a, b))
	case token.XOR:
		return termVal(T.Bin(OpBXor, a, b))
	case token.AND_NOT:
		return termVal(T.Bin(OpBAnd, a, T.BNot(b)))
	case token.LSS, token.GEQ:
		c := T.Ult(a, b)
		if signed {
			c = T.Slt(a, b)
		}
		if tok == token.GEQ {
			c = T.Not(c)
		}
		return termVal(c)
	case token.GTR, token.LEQ:
		c := T.Ult(b, a)
		if signed {
			c = T.Slt(b, a)
		}
		if tok == token.LEQ {
			c = T.Not(c)
		}
		return termVal(c)
	}
	panic(unsupported{"int " + tok.String()})
}

func (m *M) shift(tok token.Token, x, y Value, signed, ysigned bool) Value {
	w := x.W
	T := m.T
	if y.R == nil {
		k := y.N
		if ysigned && int64(signExt(y.N, y.W)) < 0 {
			panic(goPanic{m.runtimeError("negative shift amount")})
		}
		op := OpShl
		if tok == token.SHR {
			op = OpLshr
			if signed {
				op = OpAshr
			}
		}
		if k > uint64(w) {
			k = uint64(w)
		}
		if x.R == nil {
			r, _ := foldBin(op, x.N, k, w)
			return mkIntW(r, w)
		}
		if op == OpAshr && k >= uint64(w) {
			k = uint64(w) - 1
		}
		if op != OpAshr && k >= uint64(w) {
			return mkIntW(0, w)
		}
		return termVal(T.Bin(op, x.R.(*Term), T.Const(k, w)))
	}
	yt := y.R.(*Term)
	if ysigned {
		if m.decide(T.Slt(yt, T.Const(0, yt.w))) {
			panic(goPanic{m.runtimeError("negative shift amount")})
		}
	}
	big := T.fls
	if yt.w > w {
		big = T.Not(T.Ult(yt, T.Const(uint64(w), yt.w)))
		yt = T.Trunc(yt, w)
	} else {
		yt = T.Zext(yt, w)
	}
	a := T.of(x)
	var r, o *Term
	switch {
	case tok == token.SHL:
		r, o = T.Bin(OpShl, a, yt), T.Const(0, w)
	case signed:
		r, o = T.Bin(OpAshr, a, yt), T.Bin(OpAshr, a, T.Const(uint64(w)-1, w))
	default:
		r, o = T.Bin(OpLshr, a, yt), T.Const(0, w)
	}
	return termVal(T.Ite(big, o, r))
}

func (m *M) strEq(x, y Value) *Term {
	as, ok1 := x.R.(string)
	bs, ok2 := y.R.(string)
	if ok1 && ok2 {
		return m.T.Bool(as == bs)
	}
	if strLen(x) != strLen(y) {
		return m.T.fls
	}
	a, b := m.T.strTerms(x), m.T.strTerms(y)
	r := m.T.tru
	for i := range a {
		r = m.T.And(r, m.T.Eq(a[i], b[i]))
		if r.op == OpConst && r.k == 0 {
			return r
		}
	}
	return r
}

func (m *M) strLess(x, y Value) *Term {
	as, ok1 := x.R.(string)
	bs, ok2 := y.R.(string)
	if ok1 && ok2 {
		return m.T.Bool(as < bs)
	}
	a, b := m.T.strTerms(x), m.T.strTerms(y)
	n := min(len(a), len(b))
	r := m.T.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = m.T.Ite(m.T.Eq(a[i], b[i]), r, m.T.Ult(a[i], b[i]))
	}
	return r
}

// equal is Go's == as a term.
func (m *M) equal(x, y Value) *Term {
	T := m.T
	switch x.K {
	case KBool, KInt:
		if x.R == nil && y.R == nil {
			return T.Bool(x.N == y.N && x.K == y.K)
		}
		if y.K != x.K {
			panic(unsupported{"comparison of unlike kinds"})
		}
		return T.Eq(T.of(x), T.of(y))
	case KFloat:
		if x.R == nil && y.R == nil {
			if x.W == 32 {
				return T.Bool(math.Float32frombits(uint32(x.N)) == math.Float32frombits(uint32(y.N)))
			}
			return T.Bool(math.Float64frombits(x.N) == math.Float64frombits(y.N))
		}
		return m.floatEq(T.of(x), T.of(y))
	case KStr:
		return m.strEq(x, y)
	case KPtr:
		if y.K != KPtr {
			if x.R == nil && y.K == KInt {
				return T.Bool(y.N == 0)
			}
			panic(unsupported{"pointer comparison"})
		}
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		ox, ok1 := x.R.(*Object)
		oy, ok2 := y.R.(*Object)
		if ok1 && ok2 {
			return T.Bool(ox == oy && x.N == y.N)
		}
		if x.R == y.R {
			return T.tru
		}
		panic(unsupported{"comparison of symbolic pointers"})
	case KIface:
		if y.K != KIface {
			panic(unsupported{"iface comparison"})
		}
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		a, b := x.R.(*Iface), y.R.(*Iface)
		if a.t != b.t {
			return T.fls
		}
		if !a.t.comparable || !deepComparable(a.t) {
			panic(goPanic{m.runtimeError("comparing uncomparable type " + a.t.String())})
		}
		return m.equal(a.v, b.v)
	case KStruct:
		a, b := x.R.([]Value), y.R.([]Value)
		r := T.tru
		for i := range a {
			r = T.And(r, m.equal(a[i], b[i]))
			if r.op == OpConst && r.k == 0 {
				return r
			}
		}
		return r
	case KSlice, KMap, KFunc, KChan:
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		if x.K == KMap || x.K == KChan {
			return T.Bool(x.R == y.R)
		}
		panic(unsupported{"comparison of slices or functions"})
	case KNative:
		return T.Bool(x.R == y.R)
	}
	panic(unsupported{fmt.Sprintf("comparison of kind %d", x.K)})
}

func deepComparable(ti *TypeInfo) bool { return types.Comparable(ti.t) }

// floatLess is a < b (or a <= b) on IEEE bits.
func (m *M) floatLess(a, b *Term, orEq bool) *Term {
	T := m.T
	w := a.w
	exp := uint64(0x7ff) << 52
	if w == 32 {
		exp = 0xff << 23
	}
	sign := uint64(1) << (w - 1)
	z := T.Const(0, w)
	abs := func(t *Term) *Term { return T.Bin(OpBAnd, t, T.Const(sign-1, w)) }
	nan := func(t *Term) *Term { return T.Ult(T.Const(exp, w), abs(t)) }
	neg := func(t *Term) *Term { return T.Not(T.Eq(T.Bin(OpBAnd, t, T.Const(sign, w)), z)) }
	bothZero := T.And(T.Eq(abs(a), z), T.Eq(abs(b), z))
	na, nb := neg(a), neg(b)
	lt := T.Or(T.And(na, T.And(T.Not(nb), T.Not(bothZero))),
		T.Or(T.And(T.Not(na), T.And(T.Not(nb), T.Ult(a, b))),
			T.And(na, T.And(nb, T.Ult(b, a)))))
	if orEq {
		lt = T.Or(lt, T.Or(T.Eq(a, b), bothZero))
	}
	return T.And(T.Not(nan(a)), T.And(T.Not(nan(b)), lt))
}

func (m *M) floatEq(a, b *Term) *Term {
	T := m.T
	w := a.w
	man := uint64(1)<<52 - 1
	exp := uint64(0x7ff) << 52
	if w == 32 {
		man = 1<<23 - 1
		exp = 0xff << 23
	}
	abs := func(t *Term) *Term { return T.Bin(OpBAnd, t, T.Const(man|exp, w)) }
	nan := func(t *Term) *Term { return T.Ult(T.Const(exp, w), abs(t)) }
	z := T.Const(0, w)
	bothZero := T.And(T.Eq(abs(a), z), T.Eq(abs(b), z))
	return T.And(T.Not(nan(a)), T.And(T.Not(nan(b)), T.Or(T.Eq(a, b), bothZero)))
}

func (m *M) typeAssert(v Value, in *instr) Value {
	ti := in.ti
	ok := false
	var res Value
	if v.R != nil {
		i := v.R.(*Iface)
		if ti.kind == TIface {
			if it, isI := ti.t.Underlying().(*types.Interface); isI {
				m.p.mu.Lock()
				ok = types.Implements(i.t.t, it)
				m.p.mu.Unlock()
			}
			res = v
		} else {
			ok = i.t == ti
			res = i.v
		}
	}
	if in.commaOk {
		if !ok {
			res = ti.zeroVal()
		}
		return Value{K: KTuple, R: []Value{res, mkBool(ok)}}
	}
	if !ok {
		panic(goPanic{m.runtimeErrorT("interface conversion: interface is not " + ti.String())})
	}
	return res
}

func (m *M) slice(fr *frame, in *instr) Value {
	x := m.get(fr, &in.a)
	src := in.src.(*ssa.Slice)
	opt := func(o *opnd, present bool, d int) int {
		if !present {
			return d
		}
		return m.concInt(m.get(fr, o))
	}
	oob := func() { panic(goPanic{m.runtimeError("slice bounds out of range")}) }
	if x.K == KStr {
		n := strLen(x)
		lo := opt(&in.b, src.Low != nil, 0)
		hi := opt(&in.c, src.High != nil, n)
		if lo < 0 || hi < lo || hi > n {
			oob()
		}
		return substr(x, lo, hi)
	}
	var obj *Object
	var off, ln, cp, esz int
	switch x.K {
	case KSlice:
		if x.R != nil {
			s := x.R.(*Slice)
			obj, off, ln, cp, esz = s.obj, s.off, s.len, s.cap, s.esz
		}
	case KPtr:
		at := in.ti.elem
		o, ok := x.R.(*Object)
		if x.R == nil {
			m.nilDeref()
		}
		if !ok {
			panic(unsupported{"slice of symbolic array pointer"})
		}
		obj, off, ln, cp, esz = o, int(x.N), at.n, at.n, at.elem.cells
	default:
		panic(unsupported{"slice operand"})
	}
	lo := opt(&in.b, src.Low != nil, 0)
	hi := opt(&in.c, src.High != nil, ln)
	mx := opt(&in.d, src.Max != nil, cp)
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		oob()
	}
	if obj == nil {
		return Value{K: KSlice}
	}
	return Value{K: KSlice, R: &Slice{obj, off + lo*esz, hi - lo, mx - lo, esz}}
}

func (m *M) convert(v Value, from, to *TypeInfo) Value {
	T := m.T
	switch to.kind {
	case TInt:
		switch v.K {
		case KInt:
			if v.W == to.w {
				return v
			}
			if v.R == nil {
				if from.signed {
					return mkIntW(signExt(v.N, v.W), to.w)
				}
				return mkIntW(v.N, to.w)
			}
			t := v.R.(*Term)
			switch {
			case t.w > to.w:
				return termVal(T.Trunc(t, to.w))
			case from.signed:
				return termVal(T.Sext(t, to.w))
			}
			return termVal(T.Zext(t, to.w))
		case KFloat:
			v = m.sample(v)
			f := math.Float64frombits(v.N)
			if v.W == 32 {
				f = float64(math.Float32frombits(uint32(v.N)))
			}
			if to.signed {
				return mkIntW(uint64(int64(f)), to.w)
			}
			return mkIntW(uint64(f), to.w)
		case KPtr:
			return v // uintptr(unsafe.Pointer): keeps the pointer
		}
	case TFloat:
		switch v.K {
		case KInt:
			if v.R != nil {
				var hints []*Term
				if t := v.R.(*Term); t.w == 64 {
					// integers a float64 cannot hold
					T := m.T
					odd := T.Eq(T.Bin(OpBAnd, t, T.Const(1, 64)), T.Const(1, 64))
					big := T.Ult(T.Const(1<<53, 64), t)
					if from.signed {
						neg := T.Ule(T.Const(1<<63, 64), t)
						hints = append(hints, T.And(odd, T.And(big, T.Not(neg))), T.And(odd, T.And(neg, T.Ult(t, T.Const(-(1<<53)&(1<<64-1), 64)))))
					} else {
						hints = append(hints, T.And(odd, big))
					}
				}
				v = m.sample(v, hints...)
			}
			var f float64
			if from.signed {
				f = float64(int64(signExt(v.N, v.W)))
			} else {
				f = float64(v.N)
			}
			if to.w == 32 {
				if from.signed {
					return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(int64(signExt(v.N, v.W)))))}
				}
				return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(v.N)))}
			}
			return mkF64(f)
		case KFloat:
			if v.W == to.w {
				return v
			}
			v = m.sample(v)
			if to.w == 32 {
				return Value{K: KFloat, W: 32, N: uint64(math.Float32bits(float32(math.Float64frombits(v.N))))}
			}
			return mkF64(float64(math.Float32frombits(uint32(v.N))))
		}
	case TString:
		switch from.kind {
		case TString:
			return v
		case TInt:
			return m.runeToStr(v, from)
		case TSlice:
			if from.elem.kind == TInt && from.elem.w == 8 {
				return m.bytesToStr(v)
			}
			if from.elem.kind == TInt && from.elem.w == 32 {
				out := mkStr("")
				if v.R != nil {
					s := v.R.(*Slice)
					for i := 0; i < s.len; i++ {
						out = T.concat(out, m.runeToStr(s.obj.get(s.off+i), from.elem))
					}
				}
				return out
			}
		}
	case TSlice:
		if from.kind == TSlice {
			return v
		}
		if v.K == KStr {
			if to.elem.w == 8 {
				return m.strToBytes(v, to.elem)
			}
			if to.elem.w == 32 {
				var rs []Value
				for i := 0; i < strLen(v); {
					r, n := m.decodeRune(v, i)
					rs = append(rs, r)
					i += n
				}
				o := m.alloc(to.elem, len(rs))
				o.cells = rs
				return Value{K: KSlice, R: &Slice{o, 0, len(rs), len(rs), 1}}
			}
		}
	case TPtr:
		if v.K == KPtr {
			// unsafe casts: *interface{} viewed as a raw two-word header
			if to.elem != nil && v.R != nil {
				if o, ok := v.R.(*Object); ok && to.elem.kind == TStruct && to.elem.cells == 2 && len(to.elem.fields) == 2 {
					c := o.get(int(v.N))
					if c.K == KIface && isWord(to.elem.fields[0]) && isWord(to.elem.fields[1]) {
						return Value{K: KPtr, R: &RawView{o, int(v.N), 0}}
					}
				}
			}
			return v
		}
		if v.K == KInt && v.R == nil && v.N == 0 {
			return Value{K: KPtr}
		}
		if v.K == KIface || v.K == KFunc || v.K == KMap || v.K == KChan {
			return v
		}
	default:
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s to %s", from, to)})
}

func isWord(t *TypeInfo) bool { return t.kind == TPtr || t.kind == TInt && t.w == 64 }

func (m *M) rawLoad(p *RawView) Value {
	c := p.obj.get(p.off)
	if p.fld == 0 {
		if c.R == nil {
			return mkIntW(0, 64)
		}
		return mkIntW(uint64(0x1000+c.R.(*Iface).t.id*16), 64)
	}
	if c.R == nil {
		return Value{K: KPtr}
	}
	i := c.R.(*Iface)
	switch i.v.K {
	case KPtr:
		return i.v
	case KMap, KFunc, KChan:
		panic(unsupported{"raw view of a pointer-shaped interface"})
	}
	// the data word points at a copy of the value; writes to it are candidates
	// for a violation (they would modify the boxed value in place)
	o := m.alloc(i.t, 1)
	o.tag = "box"
	o.cells = append([]Value(nil), i.t.toCells(i.v)...)
	return Value{K: KPtr, R: o}
}

func (m *M) bytesToStr(v Value) Value {
	if v.R == nil {
		return mkStr("")
	}
	s := v.R.(*Slice)
	return m.cellsToStr(s.obj, s.off, s.len)
}

func (m *M) cellsToStr(o *Object, off, n int) Value {
	b := make([]*Term, n)
	for i := range b {
		b[i] = m.T.of(o.get(off + i))
	}
	return mkSymStr(b)
}

func (m *M) strToBytes(v Value, elem *TypeInfo) Value {
	n := strLen(v)
	o := m.alloc(elem, n)
	o.cells = make([]Value, n)
	for i := range o.cells {
		o.cells[i] = strByte(v, i)
	}
	cp := n
	if n > 0 {
		cp = int(roundupsize(int64(n), true))
		o.n = cp
	}
	return Value{K: KSlice, R: &Slice{o, 0, n, cp, 1}}
}
