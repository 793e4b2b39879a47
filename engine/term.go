package main

// Hash-consed SMT terms (Bool and bit-vectors of at most 64 bits) with an
// aggressive but purely local simplifier. Width 0 denotes Bool.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // c + sum coef_i*arg_i (mod 2^w)
	OMul
	OUDiv
	OURem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat // args[0] most significant
	OExtract
	OSext
	OIte
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	OSelect // blob select: name, args[0] = index (64 bit)
	OTable  // tab[args[0]], args[0].w <= 8
	OSDiv
	OSRem
)

var opNames = map[Op]string{OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OBNot: "not", OBAnd: "and", OBOr: "or", OSDiv: "bvsdiv", OSRem: "bvsrem"}

type Term struct {
	op     Op
	w      uint8
	hi, lo uint8 // extract
	c      uint64
	args   []*Term
	coef   []uint64
	tab    []uint64
	name   string
	id     int
	min    uint64
	max    uint64

	altOp   Op // structural form used when printing a table
	altArgs []*Term
	altHi   uint8
	altLo   uint8
	altCoef []uint64
	altC    uint64
	hasAlt  bool

	pcs      []piece // cached bit-piece decomposition
	pcsDone  bool
	sup      []*Term
	supDone  bool
	declared int // printed into solver generation
}

type piece struct { // w bits
	t  *Term // nil: constant c
	lo uint8
	w  uint8
	c  uint64
}

type TermTable struct {
	fp          bool // has floating-point terms
	tab         map[string]*Term
	n           int
	ints        map[[2]uint64]*Term
	True, False *Term
	keybuf      []byte
	vars        map[string]*Term
}

func NewTermTable() *TermTable {
	T := &TermTable{tab: map[string]*Term{}, ints: map[[2]uint64]*Term{}, vars: map[string]*Term{}}
	T.False = T.Const(0, 0)
	T.True = T.Const(0, 1)
	return T
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }

func (T *TermTable) Const(w uint8, c uint64) *Term {
	c &= mask(w)
	k := [2]uint64{uint64(w), c}
	if t, ok := T.ints[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, c: c, id: T.n, min: c, max: c}
	T.n++
	T.ints[k] = t
	return t
}

func (T *TermTable) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}

func (T *TermTable) intern(t *Term) *Term {
	b := T.keybuf[:0]
	b = append(b, byte(t.op), t.w, t.hi, t.lo)
	b = appU(b, t.c)
	for _, a := range t.args {
		b = appU(b, uint64(a.id))
	}
	for _, a := range t.coef {
		b = appU(b, a)
	}
	if t.op == OTable {
		b = append(b, '#')
		for _, a := range t.tab {
			b = appU(b, a)
		}
	}
	b = append(b, t.name...)
	T.keybuf = b
	if o, ok := T.tab[string(b)]; ok {
		return o
	}
	t.id = T.n
	T.n++
	T.tab[string(b)] = t
	T.setRange(t)
	return t
}

func appU(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (T *TermTable) Var(name string, w uint8) *Term {
	if t, ok := T.vars[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := T.intern(&Term{op: OVar, w: w, name: name})
	T.vars[name] = t
	return t
}

// RangedVar is a variable with a declared unsigned range; the caller must assert the range.
func (T *TermTable) RangedVar(name string, w uint8, lo, hi uint64) *Term {
	t := T.Var(name, w)
	t.min, t.max = lo, hi
	return t
}

// ---- int128-ish helper for exact ranges (signed, saturating via big floats is overkill: use two words)

type i128 struct {
	hi int64
	lo uint64
}

func mk128(v int64) i128   { return i128{v >> 63, uint64(v)} }
func mkU128(v uint64) i128 { return i128{0, v} }
func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(uint64(a.hi), uint64(b.hi), c)
	return i128{int64(hi), lo}
}
func mulS(c int64, v uint64) (i128, bool) { // exact c*v, ok if within i128 comfortably
	neg := c < 0
	uc := uint64(c)
	if neg {
		uc = uint64(-c)
	}
	h, l := bits.Mul64(uc, v)
	if h>>62 != 0 {
		return i128{}, false
	}
	r := i128{int64(h), l}
	if neg {
		r = i128{^r.hi, ^r.lo}.add(i128{0, 1})
	}
	return r, true
}
func (a i128) neg() bool          { return a.hi < 0 }
func (a i128) zero() bool         { return a.hi == 0 && a.lo == 0 }
func (a i128) fitsU(w uint8) bool { return a.hi == 0 && a.lo <= mask(w) }

// linRange returns the exact integer range of c + sum coef*arg with coefficients (and c) read as signed.
func linRange(w uint8, c uint64, coef []uint64, args []*Term) (lo, hi i128, ok bool) {
	lo = mk128(sext(c, w))
	hi = lo
	for i, a := range args {
		k := sext(coef[i], w)
		if k == 1 && a.op == OTable {
			// normalised tables (entry 0 is zero) hold differences: read them as signed
			mn, mx := sext(a.tab[0], w), sext(a.tab[0], w)
			for _, v := range a.tab[1:] {
				s := sext(v, w)
				mn, mx = min(mn, s), max(mx, s)
			}
			lo = lo.add(mk128(mn))
			hi = hi.add(mk128(mx))
			continue
		}
		x, ok1 := mulS(k, a.min)
		y, ok2 := mulS(k, a.max)
		if !ok1 || !ok2 {
			return lo, hi, false
		}
		if k < 0 {
			x, y = y, x
		}
		lo = lo.add(x)
		hi = hi.add(y)
	}
	return lo, hi, true
}

func (T *TermTable) setRange(t *Term) {
	t.min, t.max = 0, mask(t.w)
	switch t.op {
	case OLin:
		lo, hi, ok := linRange(t.w, t.c, t.coef, t.args)
		if ok && lo.fitsU(t.w) && hi.fitsU(t.w) {
			t.min, t.max = lo.lo, hi.lo
		} else {
			// try the constant read as unsigned
			if ok && sext(t.c, t.w) < 0 {
				add := mkU128(t.c)
				sub := mk128(sext(t.c, t.w))
				nsub := i128{^sub.hi, ^sub.lo}.add(i128{0, 1})
				lo2 := lo.add(nsub).add(add)
				hi2 := hi.add(nsub).add(add)
				if lo2.fitsU(t.w) && hi2.fitsU(t.w) {
					t.min, t.max = lo2.lo, hi2.lo
				}
			}
		}
	case OConcat:
		var lo, hi uint64
		for _, a := range t.args {
			lo = lo<<a.w | a.min
			hi = hi<<a.w | a.max
		}
		t.min, t.max = lo, hi
	case OExtract:
		a := t.args[0]
		if t.lo == 0 && a.max <= mask(t.w) {
			t.min, t.max = a.min, a.max
		} else if int(t.hi) == int(a.w)-1 {
			t.min, t.max = a.min>>t.lo, a.max>>t.lo
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		t.min, t.max = minU(a.min, b.min), maxU(a.max, b.max)
	case OTable:
		t.min, t.max = ^uint64(0), 0
		for _, v := range t.tab {
			t.min, t.max = minU(t.min, v), maxU(t.max, v)
		}
	case OAnd:
		t.min, t.max = 0, minU(t.args[0].max, t.args[1].max)
	case OOr, OXor:
		m := t.args[0].max | t.args[1].max
		if m != 0 {
			t.max = mask(uint8(bits.Len64(m)))
		} else {
			t.max = 0
		}
		if t.op == OOr {
			t.min = maxU(t.args[0].min, t.args[1].min)
		}
	case OUDiv:
		if t.args[1].min > 0 {
			t.min, t.max = t.args[0].min/t.args[1].max, t.args[0].max/t.args[1].min
		}
	case OURem:
		if t.args[1].min > 0 {
			t.max = minU(t.args[0].max, t.args[1].max-1)
		}
	case OLshr:
		t.max = t.args[0].max
	case OMul:
		h, l := bits.Mul64(t.args[0].max, t.args[1].max)
		if h == 0 && l <= mask(t.w) {
			t.min, t.max = t.args[0].min*t.args[1].min, l
		}
	}
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

// ---- table machinery -----------------------------------------------------

// baseOf: a term that can serve as (or already is over) an at most 8 bit wide index.
func baseOf(t *Term) *Term {
	if t.op == OTable {
		return t.args[0]
	}
	if t.w >= 1 && t.w <= 8 && t.op != OConst {
		return t
	}
	return nil
}

func commonBase(args []*Term) *Term {
	var b *Term
	for _, a := range args {
		if a.op == OConst {
			continue
		}
		x := baseOf(a)
		if x == nil {
			return nil
		}
		if b == nil {
			b = x
		} else if b != x {
			return nil
		}
	}
	return b
}

func tabVal(t *Term, i uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OTable:
		return t.tab[i]
	}
	return i
}

func evalOp(op Op, w uint8, hi, lo uint8, c uint64, coef []uint64, args []*Term, v []uint64) uint64 {
	m := mask(w)
	if isFP(op) {
		return evalFP(op, v)
	}
	switch op {
	case OLin:
		r := c
		for i := range v {
			r += coef[i] * v[i]
		}
		return r & m
	case OMul:
		return v[0] * v[1] & m
	case OUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OSDiv:
		a, b := sext(v[0], w), sext(v[1], w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(v[0], w), sext(v[1], w)
		if b == 0 {
			return v[0]
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return v[0] & v[1]
	case OOr:
		return v[0] | v[1]
	case OXor:
		return v[0] ^ v[1]
	case OShl:
		if v[1] >= uint64(w) {
			return 0
		}
		return v[0] << v[1] & m
	case OLshr:
		if v[1] >= uint64(w) {
			return 0
		}
		return v[0] >> v[1]
	case OAshr:
		s := v[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(v[0], w)>>s) & m
	case OConcat:
		var r uint64
		for i := range v {
			r = r<<args[i].w | v[i]
		}
		return r
	case OExtract:
		return v[0] >> lo & mask(hi-lo+1)
	case OSext:
		return uint64(sext(v[0], args[0].w)) & m
	case OIte:
		if v[0] != 0 {
			return v[1]
		}
		return v[2]
	case OEq:
		return b2u(v[0] == v[1])
	case OUlt:
		return b2u(v[0] < v[1])
	case OSlt:
		aw := args[0].w
		return b2u(sext(v[0], aw) < sext(v[1], aw))
	case OBNot:
		return v[0] ^ 1
	case OBAnd:
		for _, x := range v {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, x := range v {
			if x != 0 {
				return 1
			}
		}
		return 0
	}
	panic(fmt.Sprint("evalOp ", op))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// mk builds op(args) after op-specific simplification: constant folding, tabulation, interning.
func (T *TermTable) mk(op Op, w, hi, lo uint8, c uint64, coef []uint64, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.op != OConst {
			allc = false
			break
		}
	}
	if allc {
		v := make([]uint64, len(args))
		for i, a := range args {
			v[i] = a.c
		}
		return T.Const(w, evalOp(op, w, hi, lo, c, coef, args, v))
	}
	if b := commonBase(args); b != nil {
		n := 1 << b.w
		tab := make([]uint64, n)
		v := make([]uint64, len(args))
		for i := 0; i < n; i++ {
			for j, a := range args {
				v[j] = tabVal(a, uint64(i))
			}
			tab[i] = evalOp(op, w, hi, lo, c, coef, args, v)
		}
		n0 := T.n
		r := T.Table(w, tab, b)
		if r.op == OTable && !r.hasAlt && r.id >= n0 { // only fresh nodes: the arguments are older, so no cycles
			r.hasAlt = true
			r.altOp, r.altArgs, r.altHi, r.altLo, r.altCoef, r.altC = op, append([]*Term(nil), args...), hi, lo, coef, c
		}
		return r
	}
	return T.intern(&Term{op: op, w: w, hi: hi, lo: lo, c: c, coef: coef, args: args})
}

// Table builds tab[b].
func (T *TermTable) Table(w uint8, tab []uint64, b *Term) *Term {
	if b.op == OConst {
		return T.Const(w, tab[b.c])
	}
	if b.op == OTable {
		inner := b
		nt := make([]uint64, len(inner.tab))
		for i, v := range inner.tab {
			nt[i] = tab[v]
		}
		return T.Table(w, nt, inner.args[0])
	}
	same, ident := true, w == b.w
	for i, v := range tab {
		if v != tab[0] {
			same = false
		}
		if v != uint64(i) {
			ident = false
		}
	}
	// only indices in the base's range matter for constness
	if !same && (b.min > 0 || b.max < uint64(len(tab)-1)) {
		s := true
		for i := b.min; i <= b.max; i++ {
			if tab[i] != tab[b.min] {
				s = false
				break
			}
		}
		if s {
			return T.Const(w, tab[b.min])
		}
	}
	if same {
		return T.Const(w, tab[0])
	}
	if ident {
		return b
	}
	return T.intern(&Term{op: OTable, w: w, tab: tab, args: []*Term{b}})
}

// ---- pieces ----------------------------------------------------------------

// pieces returns the most-significant-first decomposition of t (w>0).
func (T *TermTable) pieces(t *Term) []piece {
	if t.pcsDone {
		return t.pcs
	}
	t.pcsDone = true
	self := []piece{{t: t, lo: 0, w: t.w}}
	switch t.op {
	case OConst:
		t.pcs = []piece{{w: t.w, c: t.c}}
	case OConcat:
		var r []piece
		for _, a := range t.args {
			r = append(r, T.pieces(a)...)
		}
		t.pcs = r
	case OExtract:
		t.pcs = []piece{{t: t.args[0], lo: t.lo, w: t.w}}
	case OTable:
		b := t.args[0]
		nb := int(b.w)
		var r []piece
		ok := true
		for j := int(t.w) - 1; j >= 0 && ok; j-- {
			// is bit j constant or equal to index bit p?
			first := t.tab[0] >> uint(j) & 1
			isC := true
			var okp [8]bool
			for p := 0; p < nb; p++ {
				okp[p] = true
			}
			for i, v := range t.tab {
				bit := v >> uint(j) & 1
				if bit != first {
					isC = false
				}
				for p := 0; p < nb; p++ {
					if uint64(i)>>uint(p)&1 != bit {
						okp[p] = false
					}
				}
			}
			if isC {
				r = append(r, piece{w: 1, c: first})
				continue
			}
			ok = false
			for p := 0; p < nb; p++ {
				if okp[p] {
					if b.op == OExtract {
						r = append(r, piece{t: b.args[0], lo: b.lo + uint8(p), w: 1})
					} else {
						r = append(r, piece{t: b, lo: uint8(p), w: 1})
					}
					ok = true
					break
				}
			}
		}
		if !ok {
			t.pcs = self
		} else {
			t.pcs = mergePieces(r)
		}
	default:
		t.pcs = self
	}
	return t.pcs
}

func mergePieces(in []piece) []piece {
	var r []piece
	for _, p := range in {
		if p.w == 0 {
			continue
		}
		if len(r) > 0 {
			q := &r[len(r)-1]
			if q.t == nil && p.t == nil && int(q.w)+int(p.w) <= 64 {
				q.c = q.c<<p.w | p.c
				q.w += p.w
				continue
			}
			if q.t != nil && q.t == p.t && q.lo == p.lo+p.w {
				q.lo = p.lo
				q.w += p.w
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func (T *TermTable) pieceTerm(p piece) *Term {
	if p.t == nil {
		return T.Const(p.w, p.c)
	}
	return T.extractRaw(p.t, p.lo+p.w-1, p.lo)
}

func (T *TermTable) extractRaw(t *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	return T.mk(OExtract, hi-lo+1, hi, lo, 0, nil, t)
}

// fromPieces builds the canonical term for a piece list.
func (T *TermTable) fromPieces(ps []piece, w uint8) *Term {
	ps = mergePieces(ps)
	if len(ps) == 1 {
		return T.pieceTerm(ps[0])
	}
	if len(ps) == 2 && ps[0].t == nil && ps[0].c == 0 && ps[1].t != nil && ps[1].lo == 0 && ps[1].t.w == w && ps[1].t.max <= mask(ps[1].w) {
		return ps[1].t
	}
	args := make([]*Term, len(ps))
	for i, p := range ps {
		args[i] = T.pieceTerm(p)
	}
	return T.mk(OConcat, w, 0, 0, 0, nil, args...)
}

func slicePieces(ps []piece, hi, lo uint8, w uint8) []piece {
	var r []piece
	pos := int(w) // msb+1 of current piece
	for _, p := range ps {
		ph, pl := pos-1, pos-int(p.w)
		pos = pl
		h, l := ph, pl
		if h > int(hi) {
			h = int(hi)
		}
		if l < int(lo) {
			l = int(lo)
		}
		if h < l {
			continue
		}
		q := piece{t: p.t, w: uint8(h - l + 1)}
		sh := uint8(l - pl)
		if p.t == nil {
			q.c = p.c >> sh & mask(q.w)
		} else {
			q.lo = p.lo + sh
		}
		r = append(r, q)
	}
	return r
}

// ---- constructors ----------------------------------------------------------

func (T *TermTable) Extract(t *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	if t.op == OConst {
		return T.Const(w, t.c>>lo)
	}
	if lo == 0 && t.op == OLin {
		r := T.Const(w, t.c)
		var ts []*Term
		var cs []uint64
		for i, a := range t.args {
			ts = append(ts, T.Extract(a, hi, 0))
			cs = append(cs, t.coef[i])
		}
		return T.lin(w, r.c, cs, ts)
	}
	if t.op == OIte {
		return T.Ite(t.args[0], T.Extract(t.args[1], hi, lo), T.Extract(t.args[2], hi, lo))
	}
	if lo == 0 && t.op == OSext && w <= t.args[0].w {
		return T.Extract(t.args[0], hi, 0)
	}
	if t.op == OTable {
		nt := make([]uint64, len(t.tab))
		for i, v := range t.tab {
			nt[i] = v >> lo & mask(w)
		}
		n0 := T.n
		r := T.Table(w, nt, t.args[0])
		if r.op == OTable && !r.hasAlt && r.id >= n0 {
			r.hasAlt = true
			r.altOp, r.altArgs, r.altHi, r.altLo = OExtract, []*Term{t}, hi, lo
		}
		return r
	}
	return T.fromPieces(slicePieces(T.pieces(t), hi, lo, t.w), w)
}

func (T *TermTable) Concat(a, b *Term) *Term {
	return T.fromPieces(append(append([]piece(nil), T.pieces(a)...), T.pieces(b)...), a.w+b.w)
}

func (T *TermTable) Zext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w == 0 {
		panic("zext of bool")
	}
	if t.op == OIte && (t.args[1].IsConst() || t.args[2].IsConst()) {
		return T.Ite(t.args[0], T.Zext(t.args[1], w), T.Zext(t.args[2], w))
	}
	return T.fromPieces(append([]piece{{w: w - t.w}}, T.pieces(t)...), w)
}

func (T *TermTable) Sext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.max < uint64(1)<<(t.w-1) {
		return T.Zext(t, w)
	}
	return T.mk(OSext, w, 0, 0, 0, nil, t)
}

// lin builds the normal form of c + sum coef*arg.
func (T *TermTable) lin(w uint8, c uint64, coef []uint64, args []*Term) *Term {
	m := mask(w)
	c0 := c & m
	type ent struct {
		t *Term
		k uint64
	}
	var es []ent
	idx := map[*Term]int{}
	tabs := map[*Term][]uint64{}
	var tabOrder []*Term
	var add func(t *Term, k uint64)
	add = func(t *Term, k uint64) {
		k &= m
		if k == 0 {
			return
		}
		switch {
		case t.op == OConst:
			c += k * t.c
		case t.op == OLin:
			c += k * t.c
			for i, a := range t.args {
				add(a, k*t.coef[i])
			}
		case baseOf(t) != nil:
			b := baseOf(t)
			tb, ok := tabs[b]
			if !ok {
				tb = make([]uint64, 1<<b.w)
				tabs[b] = tb
				tabOrder = append(tabOrder, b)
			}
			for i := range tb {
				tb[i] += k * tabVal(t, uint64(i))
			}
		default:
			if i, ok := idx[t]; ok {
				es[i].k += k
			} else {
				idx[t] = len(es)
				es = append(es, ent{t, k})
			}
		}
	}
	for i, a := range args {
		add(a, coef[i])
	}
	// single base only: a table (keeps tabulated form)
	nz := 0
	for _, e := range es {
		if e.k&m != 0 {
			nz++
		}
	}
	if nz == 0 && len(tabOrder) == 1 {
		b := tabOrder[0]
		tb := tabs[b]
		for i := range tb {
			tb[i] = (tb[i] + c) & m
		}
		n0 := T.n
		r := T.Table(w, tb, b)
		if r.op == OTable && !r.hasAlt && r.id >= n0 && len(args) > 0 {
			r.hasAlt = true
			r.altOp, r.altArgs, r.altCoef, r.altC = OLin, append([]*Term(nil), args...), append([]uint64(nil), coef...), c0
		}
		return r
	}
	for _, b := range tabOrder {
		tb := tabs[b]
		c += tb[0]
		z := tb[0]
		allz := true
		for i := range tb {
			tb[i] = (tb[i] - z) & m
			if tb[i] != 0 {
				allz = false
			}
		}
		if allz {
			continue
		}
		t := T.Table(w, tb, b)
		if t.op == OConst {
			c += t.c
			continue
		}
		es = append(es, ent{t, 1})
	}
	c &= m
	var fe []ent
	for _, e := range es {
		e.k &= m
		if e.k != 0 {
			fe = append(fe, e)
		}
	}
	if len(fe) == 0 {
		return T.Const(w, c)
	}
	if len(fe) == 1 && c == 0 && fe[0].k == 1 {
		return fe[0].t
	}
	sort.Slice(fe, func(i, j int) bool { return fe[i].t.id < fe[j].t.id })
	ks := make([]uint64, len(fe))
	ts := make([]*Term, len(fe))
	for i, e := range fe {
		ks[i], ts[i] = e.k, e.t
	}
	return T.intern(&Term{op: OLin, w: w, c: c, coef: ks, args: ts})
}

func (T *TermTable) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return T.Const(a.w, a.c+b.c)
	}
	if a.op == OConst && a.c == 0 {
		return b
	}
	if b.op == OConst && b.c == 0 {
		return a
	}
	return T.lin(a.w, 0, []uint64{1, 1}, []*Term{a, b})
}

func (T *TermTable) Sub(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return T.Const(a.w, a.c-b.c)
	}
	if a == b {
		return T.Const(a.w, 0)
	}
	if b.op == OConst && b.c == 0 {
		return a
	}
	return T.lin(a.w, 0, []uint64{1, mask(a.w)}, []*Term{a, b})
}

func (T *TermTable) Neg(a *Term) *Term { return T.Sub(T.Const(a.w, 0), a) }

func (T *TermTable) Not(a *Term) *Term { // bitwise
	if a.w == 0 {
		return T.BNot(a)
	}
	return T.lin(a.w, mask(a.w), []uint64{mask(a.w)}, []*Term{a})
}

func (T *TermTable) Mul(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.c != 0 && b.c&(b.c-1) == 0 {
			return T.Shl(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		return T.lin(a.w, 0, []uint64{b.c}, []*Term{a})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OMul, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return T.Lshr(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.max < b.c {
			return T.Const(a.w, 0)
		}
	}
	return T.mk(OUDiv, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) URem(a, b *Term) *Term {
	if b.op == OConst && b.c != 0 {
		if b.c&(b.c-1) == 0 {
			return T.And(a, T.Const(a.w, b.c-1))
		}
		if a.max < b.c {
			return a
		}
	}
	return T.mk(OURem, a.w, 0, 0, 0, nil, a, b)
}

func nonneg(t *Term) bool { return t.max < uint64(1)<<(t.w-1) }

func (T *TermTable) SDiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return T.UDiv(a, b)
	}
	return T.mk(OSDiv, a.w, 0, 0, 0, nil, a, b)
}
func (T *TermTable) SRem(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return T.URem(a, b)
	}
	return T.mk(OSRem, a.w, 0, 0, 0, nil, a, b)
}

func bitRuns(m uint64, w uint8) int {
	n := 0
	prev := uint64(2)
	for i := uint8(0); i < w; i++ {
		b := m >> i & 1
		if b != prev {
			n++
			prev = b
		}
	}
	return n
}

// bitwise merges two piece lists if every bit has at least one constant side (or equal sources).
func (T *TermTable) bitMerge(op Op, a, b *Term) *Term {
	pa, pb := T.pieces(a), T.pieces(b)
	w := a.w
	var r []piece
	pos := int(w)
	ia, ib := 0, 0
	ua, ub := uint8(0), uint8(0) // used msb bits of the current pieces
	for pos > 0 {
		x, y := pa[ia], pb[ib]
		n := x.w - ua
		if y.w-ub < n {
			n = y.w - ub
		}
		sub := func(p piece, used uint8) piece {
			l := p.w - used - n
			q := piece{t: p.t, w: n}
			if p.t == nil {
				q.c = p.c >> l & mask(n)
			} else {
				q.lo = p.lo + l
			}
			return q
		}
		sx, sy := sub(x, ua), sub(y, ub)
		if sx.t != nil && sy.t == nil {
			sx, sy = sy, sx
		}
		if sx.t != nil { // both symbolic
			if sx == sy && op != OXor {
				r = append(r, sx)
			} else if sx == sy {
				r = append(r, piece{w: n})
			} else {
				return nil
			}
		} else if sy.t == nil {
			var c uint64
			switch op {
			case OAnd:
				c = sx.c & sy.c
			case OOr:
				c = sx.c | sy.c
			case OXor:
				c = sx.c ^ sy.c
			}
			r = append(r, piece{w: n, c: c})
		} else {
			// sx constant, sy symbolic: bit runs of the constant
			for j := int(n) - 1; j >= 0; {
				bit := sx.c >> uint(j) & 1
				k := j
				for k > 0 && sx.c>>uint(k-1)&1 == bit {
					k--
				}
				ln := uint8(j - k + 1)
				switch {
				case op == OAnd && bit == 0:
					r = append(r, piece{w: ln})
				case op == OOr && bit == 1:
					r = append(r, piece{w: ln, c: mask(ln)})
				case op == OXor && bit == 1:
					return nil
				default:
					r = append(r, piece{t: sy.t, lo: sy.lo + uint8(k), w: ln})
				}
				j = k - 1
			}
		}
		ua += n
		ub += n
		pos -= int(n)
		if ua == x.w {
			ia++
			ua = 0
		}
		if ub == y.w {
			ib++
			ub = 0
		}
	}
	r = mergePieces(r)
	if len(r) > 10 {
		return nil
	}
	return T.fromPieces(r, w)
}

func (T *TermTable) bitop(op Op, a, b *Term) *Term {
	if commonBase([]*Term{a, b}) != nil || (a.op == OConst && b.op == OConst) {
		return T.mk(op, a.w, 0, 0, 0, nil, a, b)
	}
	if r := T.bitMerge(op, a, b); r != nil {
		return r
	}
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		a, b = b, a
	}
	return T.mk(op, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) And(a, b *Term) *Term {
	if a.w == 0 {
		return T.BAnd(a, b)
	}
	if a == b {
		return a
	}
	return T.bitop(OAnd, a, b)
}
func (T *TermTable) Or(a, b *Term) *Term {
	if a.w == 0 {
		return T.BOr(a, b)
	}
	if a == b {
		return a
	}
	return T.bitop(OOr, a, b)
}
func (T *TermTable) Xor(a, b *Term) *Term {
	if a.w == 0 {
		return T.BNot(T.Eq(a, b))
	}
	if a == b {
		return T.Const(a.w, 0)
	}
	if a.op == OConst && a.c == 0 {
		return b
	}
	if b.op == OConst && b.c == 0 {
		return a
	}
	return T.bitop(OXor, a, b)
}

// Shl/Lshr/Ashr: b has the same width as a.
func (T *TermTable) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if commonBase([]*Term{a}) != nil {
			return T.mk(OShl, a.w, 0, 0, 0, nil, a, b)
		}
		if a.op == OLin {
			return T.lin(a.w, 0, []uint64{uint64(1) << b.c}, []*Term{a})
		}
		k := uint8(b.c)
		ps := slicePieces(T.pieces(a), a.w-1-k, 0, a.w)
		return T.fromPieces(append(append([]piece(nil), ps...), piece{w: k}), a.w)
	}
	return T.mk(OShl, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if commonBase([]*Term{a}) != nil {
			return T.mk(OLshr, a.w, 0, 0, 0, nil, a, b)
		}
		k := uint8(b.c)
		ps := slicePieces(T.pieces(a), a.w-1, k, a.w)
		return T.fromPieces(append([]piece{{w: k}}, ps...), a.w)
	}
	return T.mk(OLshr, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) Ashr(a, b *Term) *Term {
	if nonneg(a) {
		return T.Lshr(a, b)
	}
	return T.mk(OAshr, a.w, 0, 0, 0, nil, a, b)
}

func (T *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return T.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return T.BOr(c, b)
		}
		if a.IsFalse() {
			return T.BAnd(T.BNot(c), b)
		}
		if b.IsTrue() {
			return T.BOr(T.BNot(c), a)
		}
		if b.IsFalse() {
			return T.BAnd(c, a)
		}
	}
	return T.mk(OIte, a.w, 0, 0, 0, nil, c, a, b)
}

func (T *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return T.Bool(a.c == b.c)
	}
	if a.max < b.min || b.max < a.min {
		return T.False
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.c == 1 {
				return a
			}
			return T.BNot(a)
		}
		if T.BNot(a) == b {
			return T.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return T.mk(OEq, 0, 0, 0, 0, nil, a, b)
	}
	if commonBase([]*Term{a, b}) != nil {
		return T.mk(OEq, 0, 0, 0, 0, nil, a, b)
	}
	if a.op == OTable && b.op == OTable && a.args[0].w == b.args[0].w && sameTab(a.tab, b.tab) {
		if hi, lo, ok := injective(a.tab, a.args[0].w); ok {
			x, y := T.Extract(a.args[0], hi, lo), T.Extract(b.args[0], hi, lo)
			if x.id > y.id {
				x, y = y, x
			}
			return T.mk(OEq, 0, 0, 0, 0, nil, x, y)
		}
	}
	// linear: move to one side
	if a.op == OLin || b.op == OLin {
		d := T.Sub(a, b)
		if d.op == OConst {
			return T.Bool(d.c == 0)
		}
		if d.op == OLin {
			// exact integer range of the signed-coefficient form excludes zero?
			if lo, hi, ok := linRange(d.w, d.c, d.coef, d.args); ok {
				// value = multiple of 2^w only if zero when |.| < 2^w
				if (!lo.neg() && !lo.zero() && hi.fitsU(d.w)) || (hi.neg() && lo.hi == -1 && negAbove(lo, d.w)) {
					return T.False
				}
			}
			if len(d.args) == 1 && d.coef[0] == 1 {
				return T.Eq(d.args[0], T.Const(d.w, -d.c))
			}
			if len(d.args) == 1 && d.coef[0] == mask(d.w) {
				return T.Eq(d.args[0], T.Const(d.w, d.c))
			}
		}
	}
	if b.op == OConst && a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return T.Ite(a.args[0], T.Eq(a.args[1], b), T.Eq(a.args[2], b))
	}
	// piecewise
	pa, pb := T.pieces(a), T.pieces(b)
	if (len(pa) > 1 || len(pb) > 1) && (b.op == OConst || len(pa) > 1 && len(pb) > 1 || len(pa)+len(pb) > 2) {
		return T.eqPieces(a, b, pa, pb)
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return T.mk(OEq, 0, 0, 0, 0, nil, a, b)
}

func sameTab(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 0 && &a[0] == &b[0] {
		return true
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// injective: the table is an injective function of bits hi..lo of its index.
func injective(tab []uint64, w uint8) (hi, lo uint8, ok bool) {
	if len(tab) != 1<<w {
		return 0, 0, false
	}
	for n := uint8(1); n <= w; n++ {
	next:
		for lo := uint8(0); lo+n <= w; lo++ {
			val := make([]uint64, 1<<n)
			set := make([]bool, 1<<n)
			seen := map[uint64]bool{}
			for i, v := range tab {
				k := uint64(i) >> lo & mask(n)
				if !set[k] {
					if seen[v] {
						continue next
					}
					set[k], val[k], seen[v] = true, v, true
				} else if val[k] != v {
					continue next
				}
			}
			return lo + n - 1, lo, true
		}
	}
	return 0, 0, false
}

func (T *TermTable) eqPieces(a, b *Term, pa, pb []piece) *Term {
	w := a.w
	res := T.True
	pos := int(w)
	ia, ib := 0, 0
	ua, ub := uint8(0), uint8(0)
	for pos > 0 {
		x, y := pa[ia], pb[ib]
		n := x.w - ua
		if y.w-ub < n {
			n = y.w - ub
		}
		hi := uint8(pos - 1)
		lo := uint8(pos - int(n))
		sx := T.fromPieces(slicePieces(pa, hi, lo, w), n)
		sy := T.fromPieces(slicePieces(pb, hi, lo, w), n)
		var e *Term
		if sx == sy {
			e = T.True
		} else if sx.op == OConst && sy.op == OConst {
			e = T.Bool(sx.c == sy.c)
		} else {
			if sx.op == OConst || (sy.op != OConst && sx.id > sy.id) {
				sx, sy = sy, sx
			}
			if sx.max < sy.min || sy.max < sx.min {
				e = T.False
			} else {
				e = T.mk(OEq, 0, 0, 0, 0, nil, sx, sy)
			}
		}
		res = T.BAnd(res, e)
		if res.IsFalse() {
			return res
		}
		ua += n
		ub += n
		pos -= int(n)
		if ua == x.w {
			ia++
			ua = 0
		}
		if ub == y.w {
			ib++
			ub = 0
		}
	}
	return res
}

func (T *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.max < b.min {
		return T.True
	}
	if a.min >= b.max {
		return T.False
	}
	if b.op == OConst && b.c == 1 {
		return T.Eq(a, T.Const(a.w, 0))
	}
	if commonBase([]*Term{a, b}) != nil {
		return T.mk(OUlt, 0, 0, 0, 0, nil, a, b)
	}
	// compare through the integer difference
	if (a.op == OLin || b.op == OLin) && nonneg(a) && nonneg(b) {
		d := T.Sub(b, a)
		if lo, hi, ok := signedRange(d); ok {
			half := uint64(1) << (a.w - 1)
			in := hi.neg() || (hi.hi == 0 && hi.lo < half)
			in = in && (!lo.neg() || (lo.hi == -1 && lo.lo > -half))
			if in {
				if !lo.neg() && !lo.zero() {
					return T.True
				}
				if hi.neg() || hi.zero() {
					return T.False
				}
			}
		}
	}
	// leading zero pieces
	if b.op == OConst || a.op == OConst {
		pa, pb := T.pieces(a), T.pieces(b)
		if pa[0].t == nil && pa[0].c == 0 && b.op == OConst && len(pa) > 1 {
			z := pa[0].w
			nw := a.w - z
			if b.c > mask(nw) {
				return T.True
			}
			return T.Ult(T.Extract(a, nw-1, 0), T.Const(nw, b.c))
		}
		if pb[0].t == nil && pb[0].c == 0 && a.op == OConst && len(pb) > 1 {
			z := pb[0].w
			nw := b.w - z
			if a.c > mask(nw) {
				return T.False
			}
			return T.Ult(T.Const(nw, a.c), T.Extract(b, nw-1, 0))
		}
	}
	return T.mk(OUlt, 0, 0, 0, 0, nil, a, b)
}

// signedRange: integer range of the expression read with signed constant, coefficients and table entries. The
// expression is congruent to t modulo 2^w.
func signedRange(t *Term) (lo, hi i128, ok bool) {
	w := t.w
	if t.op == OConst {
		v := mk128(sext(t.c, w))
		return v, v, true
	}
	one := func(a *Term, k int64) (i128, i128, bool) {
		if a.op == OTable && a.w == w {
			mn, mx := int64(1<<63-1), int64(-1<<63)
			for _, v := range a.tab {
				s := sext(v, w)
				if s < mn {
					mn = s
				}
				if s > mx {
					mx = s
				}
			}
			if k == 1 {
				return mk128(mn), mk128(mx), true
			}
		}
		x, ok1 := mulS(k, a.min)
		y, ok2 := mulS(k, a.max)
		if k < 0 {
			x, y = y, x
		}
		return x, y, ok1 && ok2
	}
	if t.op != OLin {
		return one(t, 1)
	}
	lo = mk128(sext(t.c, w))
	hi = lo
	for i, a := range t.args {
		x, y, ok := one(a, sext(t.coef[i], w))
		if !ok {
			return lo, hi, false
		}
		lo, hi = lo.add(x), hi.add(y)
	}
	return lo, hi, true
}

// negAbove: a (with high word -1) is > -2^w.
func negAbove(a i128, w uint8) bool {
	if w >= 64 {
		return a.lo != 0
	}
	return a.lo > -(uint64(1) << w)
}

func (T *TermTable) Ule(a, b *Term) *Term { return T.BNot(T.Ult(b, a)) }

func (T *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if nonneg(a) && nonneg(b) {
		return T.Ult(a, b)
	}
	if commonBase([]*Term{a, b}) == nil {
		// x < 0 style tests on values with known sign
		hb := uint64(1) << (a.w - 1)
		if a.min >= hb && nonneg(b) {
			return T.True
		}
		if nonneg(a) && b.min >= hb {
			return T.False
		}
	}
	if b.op == OConst && b.c == 0 && a.w > 1 {
		return T.Eq(T.Extract(a, a.w-1, a.w-1), T.Const(1, 1))
	}
	return T.mk(OSlt, 0, 0, 0, 0, nil, a, b)
}
func (T *TermTable) Sle(a, b *Term) *Term { return T.BNot(T.Slt(b, a)) }

func (T *TermTable) BNot(a *Term) *Term {
	if a.op == OConst {
		return T.Const(0, a.c^1)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return T.mk(OBNot, 0, 0, 0, 0, nil, a)
}

func (T *TermTable) BAnd(xs ...*Term) *Term { return T.nary(OBAnd, xs) }
func (T *TermTable) BOr(xs ...*Term) *Term  { return T.nary(OBOr, xs) }

func (T *TermTable) nary(op Op, xs []*Term) *Term {
	unit, zero := T.True, T.False
	if op == OBOr {
		unit, zero = T.False, T.True
	}
	var out []*Term
	seen := map[*Term]bool{}
	tabs := map[*Term]int{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if x.op == OBNot && seen[x.args[0]] {
			return false
		}
		if x.op == OTable {
			if i, ok := tabs[x.args[0]]; ok {
				m := T.mk(op, 0, 0, 0, 0, nil, out[i], x)
				if m == zero {
					return false
				}
				if m == unit {
					// drop
					out[i] = unit
					delete(tabs, x.args[0])
					return true
				}
				out[i] = m
				return true
			}
			tabs[x.args[0]] = len(out)
			out = append(out, x)
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	o2 := out[:0]
	for _, x := range out {
		if x != unit {
			o2 = append(o2, x)
		}
	}
	out = o2
	for _, x := range out {
		if x.op == OBNot && seen[x.args[0]] {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return T.intern(&Term{op: op, args: out})
}

func (T *TermTable) Select(blob string, idx *Term) *Term {
	return T.intern(&Term{op: OSelect, w: 8, name: blob, args: []*Term{idx}})
}

// ---- support and evaluation -------------------------------------------------

// support returns the variables and selects of t (selects also contribute their index variables).
func (T *TermTable) support(t *Term) []*Term {
	if t.supDone {
		return t.sup
	}
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OSelect {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	t.sup, t.supDone = out, true
	return out
}

type Model struct {
	vars  map[string]uint64
	blobs map[string]map[uint64]byte
}

func (T *TermTable) Eval(t *Term, m *Model) uint64 {
	memo := map[*Term]uint64{}
	return evalT(t, m, memo)
}

func evalT(t *Term, m *Model, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.c
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		if v, ok := m.vars[t.name]; ok {
			r = v
		} else {
			r = t.min
		}
	case OSelect:
		i := evalT(t.args[0], m, memo)
		r = uint64(m.blobs[t.name][i])
	case OTable:
		r = t.tab[evalT(t.args[0], m, memo)]
	case OIte:
		if evalT(t.args[0], m, memo) != 0 {
			r = evalT(t.args[1], m, memo)
		} else {
			r = evalT(t.args[2], m, memo)
		}
	default:
		v := make([]uint64, len(t.args))
		for i, a := range t.args {
			v[i] = evalT(a, m, memo)
		}
		r = evalOp(t.op, t.w, t.hi, t.lo, t.c, t.coef, t.args, v)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.c == 1)
		}
		return fmt.Sprintf("%d:%d", t.c, t.w)
	case OVar:
		return t.name
	case OSelect:
		return t.name + "[" + t.args[0].String() + "]"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(%d/%d", t.op, t.w)
	if t.op == OExtract {
		fmt.Fprintf(&b, "<%d,%d>", t.hi, t.lo)
	}
	if t.op == OLin {
		fmt.Fprintf(&b, " c=%d coef=%v", t.c, t.coef)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		s := a.String()
		if len(s) > 200 {
			s = s[:200] + "…"
		}
		b.WriteString(s)
	}
	b.WriteByte(')')
	return b.String()
}
