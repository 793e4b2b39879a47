package main

// Path exploration by re-execution: a path is a prefix of decisions; every undetermined branch condition is decided
// once, the other side is queued when the solver (or the per-byte domain) shows it feasible.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/ripemd160"
)

type Decision struct {
	taken bool
	isVal bool
	val   uint64
	site  uint32
}

type item struct {
	prefix []Decision
	model  *Model
}

type domSet [4]uint64

func fullDom(t *Term) *domSet {
	var d domSet
	for i := t.min; i <= t.max && i < 256; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return &d
}
func (d *domSet) has(i int) bool { return d[i>>6]>>(uint(i)&63)&1 != 0 }
func (d *domSet) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}

type input struct {
	name string
	kind string // u8,u16,u32,u64,bool,bytes,blob
	ts   []*Term
	blob string
	n    *Term
}

type hashApp struct {
	fn   string
	arg  *Rope
	out  *Rope
	real func([]byte) []byte
}

type Path struct {
	prefix   []Decision
	pos      int
	recs     []Decision
	conds    []*Term
	model    *Model
	dom      map[*Term]*domSet
	narrow   map[*Term]narrowed
	coupled  map[*Term]bool
	inputs   []input
	apps     []hashApp
	appKey   map[string]int
	names    map[string]int
	steps    int
	depth    int
	fresh    int
	covers   []string
	site     uint32
	uf       map[string]Value
	bigTexts map[string]bigText // decimal texts of symbolic integers
	eqs      map[*Term]*Term    // variables that the path fixes
	ub       map[*Term]uint64   // upper bounds that the path gives variables
	nmemo    map[*Term]*Term
	notes    []string
	stubbed  bool // passed through a stub that has no exact native counterpart value
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abCut
	abUnsupported
	abDone
	abDeadline
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func (w *Worker) abort(k abortKind, format string, a ...interface{}) {
	panic(pathAbort{k, fmt.Sprintf(format, a...)})
}
func (w *Worker) unsupported(format string, a ...interface{}) {
	w.abort(abUnsupported, "%s [in %s]", fmt.Sprintf(format, a...), w.where())
}

// ---- constraint handling ----------------------------------------------------

func (w *Worker) domOf(b *Term) *domSet {
	p := w.p
	d := p.dom[b]
	if d == nil {
		d = fullDom(b)
		p.dom[b] = d
	}
	return d
}

func (w *Worker) addCond(c *Term) {
	p := w.p
	if c.IsTrue() {
		return
	}
	if c.op == OBAnd {
		for _, a := range c.args {
			w.addCond(a)
		}
		return
	}
	p.conds = append(p.conds, c)
	if c.op == OEq {
		w.addFact(c.args[0], c.args[1])
	}
	if c.op == OUlt && c.args[1].op == OConst && c.args[1].c > 0 {
		w.addBound(c.args[0], c.args[1].c-1)
	}
	if c.op == OBNot && c.args[0].op == OUlt && c.args[0].args[0].op == OConst {
		w.addBound(c.args[0].args[1], c.args[0].args[0].c)
	}
	if c.op == OTable {
		b := c.args[0]
		d := w.domOf(b)
		nd := *d
		for i := range c.tab {
			if c.tab[i] == 0 {
				nd[i>>6] &^= 1 << (uint(i) & 63)
			}
		}
		p.dom[b] = &nd
		if b.op == OVar {
			return
		}
	}
	for _, v := range w.T.support(c) {
		p.coupled[v] = true
	}
}

// addFact remembers x = constant and x = y for the rewriting of later terms.
func (w *Worker) addFact(a, b *Term) {
	if a.w < 16 {
		return
	}
	a, b = w.norm(a), w.norm(b)
	if a.op == OLin || b.op == OLin {
		d := w.T.Sub(a, b)
		if d.op == OLin && len(d.args) == 2 && d.c&mask(d.w) == 0 && (d.coef[0]+d.coef[1])&mask(d.w) == 0 && (d.coef[0] == 1 || d.coef[1] == 1) {
			a, b = d.args[0], d.args[1]
		}
	}
	if a == b {
		return
	}
	if a.op != OVar {
		a, b = b, a
	}
	if a.op != OVar || b.op != OVar && b.op != OConst {
		return
	}
	if w.p.eqs == nil {
		w.p.eqs = map[*Term]*Term{}
	}
	w.p.eqs[a] = b
	w.p.nmemo = map[*Term]*Term{}
}

// addBound remembers that a variable is at most m on this path.
func (w *Worker) addBound(a *Term, m uint64) {
	if a.op == OExtract && a.lo == 0 && a.args[0].max <= mask(a.w) {
		a = a.args[0]
	}
	if a.op != OVar || a.w < 16 || m >= a.max {
		return
	}
	p := w.p
	if old, ok := p.ub[a]; ok && old <= m {
		return
	}
	if p.ub == nil {
		p.ub = map[*Term]uint64{}
	}
	p.ub[a] = m
	p.nmemo = map[*Term]*Term{}
}

// norm rewrites a term with the facts of the path.
func (w *Worker) norm(t *Term) *Term {
	p := w.p
	if p == nil || t.w < 16 {
		return t
	}
	if t.op == OTable {
		return w.narrow(t)
	}
	if len(p.eqs) == 0 && len(p.ub) == 0 {
		return t
	}
	return w.norm1(t)
}

type narrowed struct {
	d *domSet
	r *Term
}

// narrow: entries of a table that the path excludes take the value of an entry that it allows, so that the range of the
// term is that of the allowed ones.
func (w *Worker) narrow(t *Term) *Term {
	p := w.p
	d := p.dom[t.args[0]]
	if d == nil {
		return t
	}
	if m, ok := p.narrow[t]; ok && m.d == d {
		return m.r
	}
	var lo, hi, any uint64
	set := false
	out := false
	for i, v := range t.tab {
		if d[i>>6]>>(uint(i)&63)&1 == 0 {
			continue
		}
		if !set {
			lo, hi, any, set = v, v, v, true
		}
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	for _, v := range t.tab {
		if v < lo || v > hi {
			out = true
		}
	}
	r := t
	if set && out && !affine(t.tab, t.w) { // affine ones have a short definition
		nt := make([]uint64, len(t.tab))
		for i, v := range t.tab {
			nt[i] = v
			if v < lo || v > hi {
				nt[i] = any
			}
		}
		r = w.T.Table(t.w, nt, t.args[0])
	}
	if p.narrow == nil {
		p.narrow = map[*Term]narrowed{}
	}
	p.narrow[t] = narrowed{d, r}
	return r
}

// affine: tab[i] = tab[0] + i*k
func affine(tab []uint64, w uint8) bool {
	k := tab[1] - tab[0]
	for i, v := range tab {
		if (tab[0]+uint64(i)*k)&mask(w) != v {
			return false
		}
	}
	return true
}

func (w *Worker) norm1(t *Term) *Term {
	p, T := w.p, w.T
	switch t.op {
	case OVar:
		for {
			r := p.eqs[t]
			if r == nil {
				return t
			}
			t = r
		}
	case OLin, OConcat, OExtract:
	default:
		return t
	}
	if r, ok := p.nmemo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OLin:
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = w.norm1(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = T.lin(t.w, t.c, t.coef, args)
		}
	case OConcat:
		ch := false
		var ps []piece
		for _, a := range t.args {
			b := w.norm1(a)
			ch = ch || a != b
			ps = append(ps, T.pieces(b)...)
		}
		if ch {
			r = T.fromPieces(ps, t.w)
		}
		// the low bits of a variable whose high bits the path makes 0
		if ps = T.pieces(r); len(ps) == 2 && ps[0].t == nil && ps[0].c == 0 && ps[1].t != nil && ps[1].lo == 0 && ps[1].t.w == t.w {
			if m, ok := p.ub[ps[1].t]; ok && m <= mask(ps[1].w) {
				r = w.norm1(ps[1].t)
			}
		}
	case OExtract:
		if a := w.norm1(t.args[0]); a != t.args[0] {
			r = T.Extract(a, t.hi, t.lo)
		}
	}
	p.nmemo[t] = r
	return r
}

func (w *Worker) normV(v Value) Value {
	if t, ok := v.(*Term); ok {
		return w.norm(t)
	}
	return v
}

func (w *Worker) normS(s Slice) Slice {
	if s.a != nil && w.p != nil && len(w.p.eqs)+len(w.p.ub) > 0 {
		s.off, s.len, s.cap = w.norm(s.off), w.norm(s.len), w.norm(s.cap)
	}
	return s
}

func (w *Worker) newModel(m *Model) *Model {
	n := &Model{vars: map[string]uint64{}, blobs: map[string]map[uint64]byte{}}
	if old := w.p.model; old != nil {
		for k, v := range old.vars {
			n.vars[k] = v
		}
	}
	if m != nil {
		for k, v := range m.vars {
			n.vars[k] = v
		}
		n.blobs = m.blobs
	}
	return n
}

func (w *Worker) replaying() bool { return w.p.pos < len(w.p.prefix) }

// domVerdict: 1 always true, -1 always false, 0 mixed or unknown.
func (w *Worker) domVerdict(c *Term) (v int, free bool) {
	if c.op == OBNot {
		v, free = w.domVerdict(c.args[0])
		return -v, free
	}
	if c.op != OTable {
		return 0, false
	}
	b := c.args[0]
	d := w.domOf(b)
	t, f := false, false
	for i := range c.tab {
		if d.has(i) {
			if c.tab[i] != 0 {
				t = true
			} else {
				f = true
			}
			if t && f {
				break
			}
		}
	}
	if t && !f {
		return 1, false
	}
	if f && !t {
		return -1, false
	}
	return 0, b.op == OVar && !w.p.coupled[b]
}

// implied tells whether the path condition implies c. The answer is recorded with the decisions, so that a replayed
// prefix takes the same course without asking again.
func (w *Worker) implied(c *Term) bool {
	if c.op == OConst {
		return c.c != 0
	}
	p := w.p
	if p == nil || w.initDepth > 0 {
		return false
	}
	site := w.siteHash()
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.site != site {
			w.eng.note("replay divergence at " + w.where())
			w.abort(abUnsupported, "replay divergence at %s", w.where())
		}
		p.pos++
		p.recs = append(p.recs, d)
		return d.taken
	}
	res := false
	if v, _ := w.domVerdict(c); v != 0 {
		res = v > 0
	} else if p.model == nil || w.T.Eval(c, p.model) != 0 {
		r, _ := w.smt.Check(p.conds, []*Term{w.T.BNot(c)}, false)
		res = r == Unsat
	}
	p.recs = append(p.recs, Decision{res, false, 0, site})
	p.prefix = p.recs
	p.pos = len(p.recs)
	return res
}

// widen is the zero extension of v; where the path condition shows that a truncation lost nothing, the truncation
// is dropped.
func (w *Worker) widen(v *Term, tw uint8) *Term {
	T := w.T
	z := T.Zext(v, tw)
	if z.op == OConst {
		return z
	}
	// zero bits before the low bits of a full-width term
	if ps := T.pieces(v); len(ps) == 2 && ps[0].t == nil && ps[0].c == 0 && ps[1].t != nil && ps[1].lo == 0 && ps[1].t.w == tw {
		if c := ps[1].t; w.implied(T.Ule(c, T.Const(tw, mask(ps[1].w)))) {
			return c
		}
	}
	if c := w.wideForm(v, tw, 0); c != nil && c != z {
		if w.implied(T.Ule(c, T.Const(tw, mask(v.w)))) {
			return c
		}
	}
	return z
}

// wideForm: a term of width tw that is congruent to v modulo 2^v.w (nil: nothing better than the zero extension).
func (w *Worker) wideForm(v *Term, tw uint8, depth int) *Term {
	T := w.T
	switch v.op {
	case OExtract:
		if v.lo == 0 {
			if a := v.args[0]; a.w == tw {
				return a
			} else if a.w < tw {
				if f := w.wideForm(a, tw, depth); f != nil {
					return f
				}
			}
		}
	case OLin:
		if depth > 3 {
			return nil
		}
		c := v.c & mask(v.w)
		if c > mask(v.w)/2 {
			c |= ^mask(v.w)
		}
		r := T.Const(tw, c&mask(tw))
		any := false
		for i, a := range v.args {
			k := v.coef[i] & mask(v.w)
			if k > mask(v.w)/2 {
				k |= ^mask(v.w)
			}
			f := w.wideForm(a, tw, depth+1)
			if f != nil {
				any = true
			} else {
				f = T.Zext(a, tw)
			}
			r = T.Add(r, T.Mul(f, T.Const(tw, k&mask(tw))))
		}
		if any {
			return r
		}
	}
	return nil
}

func (w *Worker) decide(c *Term) bool { return w.decideV(c, false, 0) }

func (w *Worker) decideV(c *Term, isVal bool, val uint64) bool {
	if c.op == OConst {
		return c.c != 0
	}
	p := w.p
	if w.initDepth > 0 {
		w.unsupported("symbolic decision in package initialisation")
	}
	site := w.siteHash()
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.site != site || d.isVal != isVal || (isVal && d.val != val) {
			w.eng.note("replay divergence at " + w.where())
			w.abort(abUnsupported, "replay divergence at %s", w.where())
		}
		p.pos++
		p.recs = append(p.recs, d)
		if d.taken {
			w.addCond(c)
		} else {
			w.addCond(w.T.BNot(c))
		}
		return d.taken
	}
	atomic.AddInt64(&w.h.decisions, 1)
	nc := w.T.BNot(c)
	rec := func(t bool) []Decision {
		return append(append(make([]Decision, 0, len(p.recs)+1), p.recs...), Decision{t, isVal, val, site})
	}
	finish := func(t bool) bool {
		p.recs = append(p.recs, Decision{t, isVal, val, site})
		p.prefix = p.recs
		p.pos = len(p.recs)
		if len(p.recs) > w.eng.maxDecisions {
			w.abort(abCut, "more than %d decisions on a path", w.eng.maxDecisions)
		}
		return t
	}
	v, free := w.domVerdict(c)
	if v != 0 {
		return finish(v > 0)
	}
	if w.h.expired(w.eng) {
		w.abort(abDeadline, "time limit")
	}
	if forkSites != nil {
		forkMu.Lock()
		forkSites[fmt.Sprintf("%s %v %s", w.h.name, isVal, w.where())]++
		forkMu.Unlock()
	}
	if p.model != nil {
		side := w.T.Eval(c, p.model) != 0
		other := c
		if side {
			other = nc
		}
		var alt *Model
		feasible := true
		if free {
			tb := c
			neg := false
			for tb.op == OBNot {
				tb = tb.args[0]
				neg = !neg
			}
			d := w.domOf(tb.args[0])
			want := !side != neg
			for i := range tb.tab {
				if d.has(i) && (tb.tab[i] != 0) == want {
					alt = w.newModel(nil)
					alt.blobs = p.model.blobs
					alt.vars[tb.args[0].name] = uint64(i)
					break
				}
			}
		} else {
			r, m := w.smt.Check(p.conds, []*Term{other}, true)
			switch r {
			case Unsat:
				feasible = false
			case Sat:
				if m != nil {
					alt = w.newModel(m)
				}
			case Unknown:
				atomic.AddInt64(&w.h.unknown, 1)
			}
		}
		if feasible {
			w.push(rec(!side), alt)
		}
		if side {
			w.addCond(c)
		} else {
			w.addCond(nc)
		}
		return finish(side)
	}
	// no model
	r1, m1 := w.smt.Check(p.conds, []*Term{c}, true)
	if r1 == Unknown {
		atomic.AddInt64(&w.h.unknown, 1)
	}
	r2, m2 := w.smt.Check(p.conds, []*Term{nc}, true)
	if r2 == Unknown {
		atomic.AddInt64(&w.h.unknown, 1)
	}
	if r1 == Unsat && r2 == Unsat {
		w.abort(abInfeasible, "infeasible")
	}
	if r1 != Unsat {
		if r2 != Unsat {
			var alt *Model
			if m2 != nil {
				alt = w.newModel(m2)
			}
			w.push(rec(false), alt)
		}
		if m1 != nil {
			p.model = w.newModel(m1)
		}
		w.addCond(c)
		return finish(true)
	}
	if m2 != nil {
		p.model = w.newModel(m2)
	}
	w.addCond(nc)
	return finish(false)
}

// concretize forks over the feasible values of t (at most limit of them).
func (w *Worker) concretize(t *Term, limit int) uint64 {
	for n := 0; ; n++ {
		if t.op == OConst {
			return t.c
		}
		if n > limit {
			w.abort(abCut, "more than %d values at %s", limit, w.where())
		}
		var v uint64
		p := w.p
		if w.replaying() {
			v = p.prefix[p.pos].val
			if !p.prefix[p.pos].isVal {
				w.abort(abUnsupported, "replay divergence (value) at %s", w.where())
			}
		} else {
			if p.model == nil {
				r, m := w.smt.Check(p.conds, nil, true)
				if r == Unsat {
					w.abort(abInfeasible, "infeasible")
				}
				if m == nil {
					w.abort(abCut, "solver gave no value at %s", w.where())
				}
				p.model = w.newModel(m)
			}
			v = w.T.Eval(t, p.model)
		}
		c := w.T.Eq(t, w.T.Const(t.w, v))
		if w.decideV(c, true, v) {
			return v
		}
	}
}

func (w *Worker) assume(c *Term) {
	p := w.p
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		w.abort(abInfeasible, "assumption false")
	}
	if w.replaying() || len(p.prefix) > 0 && p.pos == len(p.prefix) && false {
		w.addCond(c)
		return
	}
	v, _ := w.domVerdict(c)
	if v > 0 {
		w.addCond(c)
		return
	}
	if v < 0 {
		w.abort(abInfeasible, "assumption false")
	}
	if p.model != nil && w.T.Eval(c, p.model) != 0 {
		w.addCond(c)
		return
	}
	r, m := w.smt.Check(p.conds, []*Term{c}, true)
	if r == Unsat {
		w.abort(abInfeasible, "assumption false")
	}
	if r == Unknown {
		atomic.AddInt64(&w.h.unknown, 1)
	}
	p.model = nil
	if m != nil {
		p.model = w.newModel(m)
	}
	w.addCond(c)
}

// assert checks that c holds on every input of this path.
func (w *Worker) assert(c *Term, label string) {
	p := w.p
	if w.replaying() {
		if c.IsFalse() {
			w.abort(abDone, "assertion failed earlier")
		}
		w.addCond(c)
		return
	}
	atomic.AddInt64(&w.h.asserts, 1)
	if c.IsTrue() {
		atomic.AddInt64(&w.h.discharged, 1)
		w.h.countLabel(label, 0)
		return
	}
	neg := w.T.BNot(c)
	var r SatRes
	var m *Model
	if v, _ := w.domVerdict(c); v > 0 {
		r = Unsat
	} else if p.model != nil && w.T.Eval(c, p.model) == 0 {
		r, m = Sat, p.model
	} else {
		r, m = w.smt.Check(p.conds, []*Term{neg}, true)
		if m != nil {
			m = w.newModel(m)
		}
	}
	switch r {
	case Unsat:
		atomic.AddInt64(&w.h.discharged, 1)
		w.h.countLabel(label, 1)
	case Unknown:
		w.h.addInconclusive("assertion " + label + ": solver gave no answer")
	case Sat:
		if w.candidate(label, []*Term{neg}, m) {
			atomic.AddInt64(&w.h.discharged, 1)
			w.h.countLabel(label, 1)
		}
	}
	if c.IsFalse() {
		w.abort(abDone, "assertion failed")
	}
	// continue under the assertion
	if p.model == nil || w.T.Eval(c, p.model) == 0 {
		r, m := w.smt.Check(p.conds, []*Term{c}, true)
		if r == Unsat {
			w.abort(abDone, "assertion failed on the whole path")
		}
		p.model = nil
		if m != nil {
			p.model = w.newModel(m)
		}
	}
	w.addCond(c)
}

// ---- counterexamples --------------------------------------------------------

func (w *Worker) evalRope(r *Rope, m *Model, limit uint64) ([]byte, bool) {
	memo := map[*Term]uint64{}
	n := evalT(r.n, m, memo)
	if n > limit {
		return nil, false
	}
	out := make([]byte, 0, n)
	for _, s := range r.segs {
		switch s.kind {
		case 0:
			for _, t := range s.lit {
				out = append(out, byte(evalT(t, m, memo)))
			}
		case 1:
			o := evalT(s.off, m, memo)
			k := evalT(s.n, m, memo)
			for i := uint64(0); i < k; i++ {
				out = append(out, m.blobs[s.blob][o+i])
			}
		case 2:
			k := evalT(s.n, m, memo)
			b := byte(evalT(s.fill, m, memo))
			for i := uint64(0); i < k; i++ {
				out = append(out, b)
			}
		}
	}
	return out, true
}

func (w *Worker) blobBounds(limit uint64) []*Term {
	var cs []*Term
	for _, in := range w.p.inputs {
		if in.kind == "blob" && in.n.op != OConst {
			cs = append(cs, w.T.Ule(in.n, w.T.Const(64, limit)))
		}
	}
	return cs
}

// hashFaithful: under m, does every hash application have its real value? returns the first that does not.
// Encodings of text come last when textLast: what they encode may hold hash values, which are to be found first.
func (w *Worker) hashMismatch(m *Model, textLast bool) (k int, arg []byte, realv []byte, ok bool) {
	var order []int
	for i := range w.p.apps {
		if !textLast || w.p.apps[i].fn != "b58" {
			order = append(order, i)
		}
	}
	for i := range w.p.apps {
		if textLast && w.p.apps[i].fn == "b58" {
			order = append(order, i)
		}
	}
	for _, i := range order {
		a := w.p.apps[i]
		if a.real == nil {
			continue
		}
		b, fits := w.evalRope(a.arg, m, 1<<22)
		if !fits {
			return -1, nil, nil, false
		}
		rv := a.real(b)
		ov, fits := w.evalRope(a.out, m, 1<<22)
		if !fits {
			return -1, nil, nil, false
		}
		if !bytes.Equal(ov, rv) {
			return i, b, rv, true
		}
	}
	return -1, nil, nil, true
}

const maxPin = 4096

// faithful: m with every hash application given its real value, one after the other, when path and extra still hold.
func (w *Worker) faithful(m *Model, extra []*Term) *Model {
	f := &Model{vars: map[string]uint64{}, blobs: map[string]map[uint64]byte{}}
	for k, v := range m.vars {
		f.vars[k] = v
	}
	for k, v := range m.blobs {
		f.blobs[k] = v
	}
	for _, a := range w.p.apps {
		if a.real == nil {
			continue
		}
		b, fits := w.evalRope(a.arg, f, 1<<22)
		if !fits {
			return nil
		}
		rv := a.real(b)
		for _, s := range a.out.segs {
			if s.kind == 0 {
				if len(s.lit) > len(rv) {
					return nil
				}
				for i, t := range s.lit {
					if t.op == OVar {
						f.vars[t.name] = uint64(rv[i])
					}
				}
				rv = rv[len(s.lit):]
				continue
			}
			if s.kind != 1 || s.off.op != OConst || s.off.c != 0 || s.n.op != OVar {
				return nil
			}
			f.vars[s.n.name] = uint64(len(rv))
			c := map[uint64]byte{}
			for i, x := range rv {
				c[uint64(i)] = x
			}
			f.blobs[s.blob] = c
			rv = nil
		}
		if len(rv) > 0 {
			return nil
		}
	}
	memo := map[*Term]uint64{}
	for _, c := range append(append([]*Term(nil), w.p.conds...), extra...) {
		if evalT(c, f, memo) == 0 {
			return nil
		}
	}
	return f
}

func (w *Worker) ackermann() []*Term {
	var cs []*Term
	for i := range w.p.apps {
		for j := 0; j < i; j++ {
			a, b := &w.p.apps[i], &w.p.apps[j]
			if a.fn != b.fn {
				continue
			}
			e, ok := w.ropeEq(a.arg, b.arg)
			if !ok || e.IsFalse() {
				continue
			}
			o, ok := w.ropeEq(a.out, b.out)
			if !ok {
				continue
			}
			cs = append(cs, w.T.BOr(w.T.BNot(e), o))
		}
	}
	return cs
}

// pinApp: the application's argument has the value it has in m, and its result the real hash of that value.
func (w *Worker) pinApp(k int, arg, rv []byte) (in, out []*Term) {
	a := w.p.apps[k]
	return w.pinRope(a.arg, arg), w.pinRope(a.out, rv)
}

func (w *Worker) pinRope(r *Rope, v []byte) []*Term {
	c := w.T.Eq(r.n, w.cint(len(v)))
	if c.IsFalse() {
		return []*Term{c}
	}
	cs := []*Term{c}
	for i := range v {
		cs = append(cs, w.T.Eq(w.byteAt(r, w.cint(i)), w.bytes[v[i]]))
	}
	return cs
}

// candidate: the path constraints plus extra are satisfiable by m. Make the model faithful to the real hash functions,
// replay it natively and record a violation if it reproduces. Returns true if the refined query is unsatisfiable (the
// assertion holds after all).
func (w *Worker) candidate(label string, extra []*Term, m *Model) (holds bool) {
	h := w.h
	if h.enough(label) {
		h.mu.Lock()
		if len(h.viol[label]) == 0 {
			h.inconcl["counterexample for "+label+" not pursued after others did not reproduce"]++
		}
		h.mu.Unlock()
		return false
	}
	defer func() {
		if holds {
			h.mu.Lock()
			h.attempts[label]-- // refuted with the help of the real hash values: costs nothing
			h.mu.Unlock()
		}
	}()
	p := w.p
	base := append([]*Term(nil), extra...)
	var tried []string
	try := func(m *Model) bool {
		a := w.assignment(m)
		if a == nil {
			return false
		}
		res, out := w.eng.replay(h.name, a)
		tried = append(tried, res)
		if res == "violation" || res == "panic" || res == "hang" {
			h.addViolation(label, res, out, a, w.eng)
			return true
		}
		return false
	}
	if m == nil {
		m = p.model
	}
	// prefer short blobs
	for _, lim := range []uint64{40, 600, 70000} {
		bs := w.blobBounds(lim)
		if len(bs) == 0 {
			break
		}
		r, m2 := w.smt.Check(p.conds, append(append([]*Term(nil), base...), bs...), true)
		if r == Sat && m2 != nil {
			m = w.newModel(m2)
			base = append(base, bs...)
			break
		}
	}
	if m == nil {
		h.addInconclusive("candidate for " + label + " without a model")
		return false
	}
	if f := w.faithful(m, extra); f != nil && try(f) {
		return false
	}
	acked := false
	var learned []*Term
	for round := 0; round < 8; round++ {
		textLast := round%2 == 0
		k, arg, rv, ok := w.hashMismatch(m, textLast)
		if !ok || len(arg) > maxPin {
			break // too large to pin
		}
		if k < 0 {
			if try(m) {
				return false
			}
			break
		}
		// pin applications one after the other
		pins := append(append([]*Term(nil), base...), learned...)
		cur := m
		good := true
		for n := 0; n < 4*len(p.apps)+4; n++ {
			if len(arg) > maxPin {
				good = false
				break
			}
			pi, po := w.pinApp(k, arg, rv)
			pins = append(append(pins, pi...), po...)
			r, m2 := w.smt.Check(p.conds, pins, true)
			if r != Sat || m2 == nil {
				good = false
				break
			}
			cur = w.newModel(m2)
			k, arg, rv, ok = w.hashMismatch(cur, textLast)
			if !ok || k < 0 {
				break
			}
		}
		if good && ok && k < 0 {
			if try(cur) {
				return false
			}
		}
		if !acked {
			acked = true
			learned = append(learned, w.ackermann()...)
		}
		// learn this instance
		k, arg, rv, ok = w.hashMismatch(m, textLast)
		if ok && k >= 0 && len(arg) <= maxPin {
			pi, po := w.pinApp(k, arg, rv)
			learned = append(learned, w.T.BOr(w.T.BNot(w.T.BAnd(pi...)), w.T.BAnd(po...)))
		}
		r, m2 := w.smt.Check(p.conds, append(append([]*Term(nil), base...), learned...), true)
		if r == Unsat {
			if len(w.blobBounds(1)) > 0 {
				// bounds were only a preference
				r, _ = w.smt.Check(p.conds, append(append([]*Term(nil), extra...), learned...), false)
			}
			if r == Unsat {
				return true
			}
			break
		}
		if r != Sat || m2 == nil {
			break
		}
		m = w.newModel(m2)
	}
	if len(tried) == 0 {
		try(m)
	}
	if len(tried) > 0 && (tried[len(tried)-1] == "violation" || tried[len(tried)-1] == "panic" || tried[len(tried)-1] == "hang") {
		return false
	}
	h.addInconclusive(fmt.Sprintf("counterexample for %s did not reproduce natively %v", label, tried))
	if w.eng.verbose {
		if a := w.assignment(m); a != nil {
			fmt.Printf("  not reproduced: %s %s\n    %s\n", h.name, label, a.brief(2000))
		}
	}
	return false
}

// ---- assignments --------------------------------------------------------------

type AssignEntry struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val,omitempty"`
	Hex  string `json:"hex,omitempty"`
	Len  uint64 `json:"len,omitempty"`
	Runs string `json:"-"`
}

type Assignment []AssignEntry

func (a *Assignment) brief(n int) string {
	s := ""
	for _, e := range *a {
		if e.Kind == "bytes" || e.Kind == "blob" {
			hx := e.Hex
			if len(hx) > 160 {
				hx = hx[:160] + fmt.Sprintf("…(%d bytes)", e.Len)
			}
			if e.Kind == "blob" {
				s += fmt.Sprintf("%s=(%d bytes)%s ", e.Name, e.Len, hx)
				continue
			}
			s += fmt.Sprintf("%s=%s ", e.Name, hx)
		} else {
			s += fmt.Sprintf("%s=%d ", e.Name, e.Val)
		}
		if len(s) > n {
			return s[:n] + "…"
		}
	}
	return s
}

func (w *Worker) assignment(m *Model) *Assignment {
	var a Assignment
	memo := map[*Term]uint64{}
	for _, in := range w.p.inputs {
		e := AssignEntry{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "bytes":
			b := make([]byte, len(in.ts))
			for i, t := range in.ts {
				b[i] = byte(evalT(t, m, memo))
			}
			e.Hex = fmt.Sprintf("%x", b)
			e.Len = uint64(len(b))
		case "blob":
			n := evalT(in.n, m, memo)
			if n > 1<<26 {
				return nil
			}
			b := make([]byte, n)
			for k, v := range m.blobs[in.blob] {
				if k < n {
					b[k] = v
				}
			}
			// trailing zero bytes are implied
			z := len(b)
			for z > 0 && b[z-1] == 0 {
				z--
			}
			e.Hex = fmt.Sprintf("%x", b[:z])
			e.Len = n
		default:
			e.Val = evalT(in.ts[0], m, memo)
		}
		a = append(a, e)
	}
	if a == nil {
		a = Assignment{}
	}
	return &a
}

// ---- harness state and work queue ---------------------------------------------

type violation struct {
	label, kind, out string
	assign           *Assignment
	file             string
}

type harness struct {
	name string
	mu   sync.Mutex
	cond *sync.Cond

	queue   []item
	active  int
	stopped bool

	paths, completed, infeasible, cut, unsup, panics int64
	decisions, unknown, asserts, discharged, steps   int64
	forks                                            int64
	labels                                           map[string]*[2]int64
	cutMsgs                                          map[string]int
	inconcl                                          map[string]int
	viol                                             map[string][]violation
	attempts                                         map[string]int
	covers                                           map[string]bool
	wantCov                                          map[string]bool
	samples                                          []string
	validated, otherHash                             int64
	validErr                                         []string
	deadline                                         time.Time
	timedOut                                         bool
	elapsed                                          time.Duration
	maxPaths                                         int64
	funcs                                            map[string]bool
	inputsMax                                        int
}

func newHarness(name string) *harness {
	h := &harness{name: name, labels: map[string]*[2]int64{}, cutMsgs: map[string]int{}, inconcl: map[string]int{},
		viol: map[string][]violation{}, attempts: map[string]int{}, covers: map[string]bool{}, wantCov: map[string]bool{},
		funcs: map[string]bool{}}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *harness) countLabel(l string, k int) {
	h.mu.Lock()
	x := h.labels[l]
	if x == nil {
		x = new([2]int64)
		h.labels[l] = x
	}
	x[k]++
	h.mu.Unlock()
}

func (h *harness) addInconclusive(s string) {
	h.mu.Lock()
	h.inconcl[s]++
	h.mu.Unlock()
}

func (h *harness) enough(label string) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.attempts[label]++
	return len(h.viol[label]) >= 1 || h.attempts[label] > 12
}

func (h *harness) addViolation(label, kind, out string, a *Assignment, e *Engine) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.viol[label]) >= 1 {
		return
	}
	h.viol[label] = append(h.viol[label], violation{label: label, kind: kind, out: out, assign: a})
	// a confirmed violation decides the check: look a little longer for others and stop
	if e.stopAt.Load() == 0 && (e.isKnown == nil || !e.isKnown(h, kind, out)) {
		e.stopAt.Store(time.Now().Add(8 * time.Second).UnixNano())
	}
}

func (h *harness) expired(e *Engine) bool {
	n := time.Now()
	if s := e.stopAt.Load(); s != 0 && n.UnixNano() > s {
		return true
	}
	return n.After(h.deadline)
}

func (w *Worker) push(pre []Decision, m *Model) {
	atomic.AddInt64(&w.h.forks, 1)
	h := w.h
	h.mu.Lock()
	h.queue = append(h.queue, item{pre, m})
	h.cond.Signal()
	h.mu.Unlock()
}

// run explores the harness with all workers.
func (e *Engine) run(h *harness) {
	t0 := time.Now()
	h.queue = []item{{nil, &Model{vars: map[string]uint64{}, blobs: map[string]map[uint64]byte{}}}}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.h = h
			for {
				h.mu.Lock()
				for len(h.queue) == 0 && h.active > 0 && !h.stopped {
					h.cond.Wait()
				}
				if h.stopped || len(h.queue) == 0 {
					h.stopped = true
					h.cond.Broadcast()
					h.mu.Unlock()
					return
				}
				if h.expired(e) || h.paths >= h.maxPaths {
					h.timedOut = true
					h.stopped = true
					h.cond.Broadcast()
					h.mu.Unlock()
					return
				}
				it := h.queue[len(h.queue)-1]
				h.queue = h.queue[:len(h.queue)-1]
				h.active++
				h.paths++
				h.mu.Unlock()
				w.runPath(it)
				h.mu.Lock()
				h.active--
				h.cond.Broadcast()
				h.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	h.elapsed = time.Since(t0)
}

func (h *harness) sortedLabels() []string {
	var ls []string
	for l := range h.labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

func realSha256(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
func realRipemd(b []byte) []byte { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }

// forkSites counts decisions per place (VERIF_FORKS=1, to see what a slow harness does).
var (
	forkSites map[string]int
	forkMu    sync.Mutex
)

func init() {
	if os.Getenv("VERIF_FORKS") != "" {
		forkSites = map[string]int{}
		if n, _ := strconv.Atoi(os.Getenv("VERIF_FORKS")); n > 1 {
			go func() {
				for range time.Tick(time.Duration(n) * time.Second) {
					printForks()
				}
			}()
		}
	}
}

func printForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	forkMu.Lock()
	defer forkMu.Unlock()
	for k, n := range forkSites {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 25; i++ {
		fmt.Printf("%8d %s\n", l[i].n, l[i].k)
	}
}
