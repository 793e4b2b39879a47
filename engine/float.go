package main

// Symbolic float64: the IEEE bits as a 64-bit term; operations are exact (round to nearest even), in the solver as
// z3's floating-point theory.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

type SFloat struct{ t *Term }

const (
	OFAdd Op = 100 + iota
	OFSub
	OFMul
	OFDiv
	OFFromU
	OFFromS
	OFLt
	OFLe
	OFEq
)

var fpNames = map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

func isFP(op Op) bool { return op >= OFAdd && op <= OFEq }

func evalFP(op Op, v []uint64) uint64 {
	f := func(i int) float64 { return math.Float64frombits(v[i]) }
	switch op {
	case OFAdd:
		return math.Float64bits(f(0) + f(1))
	case OFSub:
		return math.Float64bits(f(0) - f(1))
	case OFMul:
		return math.Float64bits(f(0) * f(1))
	case OFDiv:
		return math.Float64bits(f(0) / f(1))
	case OFFromU:
		return math.Float64bits(float64(v[0]))
	case OFFromS:
		return math.Float64bits(float64(int64(v[0])))
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	}
	return b2u(f(0) == f(1))
}

func (s *Solver) emitFP(op Op, args []*Term) {
	f := func(t *Term) string { return "((_ to_fp 11 53) " + s.ref(t) + ")" }
	switch op {
	case OFFromU:
		fmt.Fprintf(s.in, "(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", s.ref(args[0]))
	case OFFromS:
		fmt.Fprintf(s.in, "(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", s.ref(args[0]))
	case OFLt, OFLe, OFEq:
		fmt.Fprintf(s.in, "(%s %s %s)", fpNames[op], f(args[0]), f(args[1]))
	default:
		fmt.Fprintf(s.in, "(fp.to_ieee_bv (%s RNE %s %s))", fpNames[op], f(args[0]), f(args[1]))
	}
}

// congruent: a condition on the operands that makes two results of the same operation equal.
func (T *TermTable) congruent(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if !isFP(a.op) || a.op != b.op {
		return T.Eq(a, b)
	}
	r := T.True
	for i := range a.args {
		r = T.BAnd(r, T.congruent(a.args[i], b.args[i]))
	}
	return r
}

// checkFP answers a query about the equality of two results through the equality of their operands where that is enough.
func (s *Solver) checkFP(conds []*Term, e *Term, wantModel bool) (SatRes, *Model, bool) {
	T := s.T
	c, neg := e, false
	if c.op == OBNot {
		c, neg = c.args[0], true
	}
	if c.op != OEq || !isFP(c.args[0].op) || !isFP(c.args[1].op) || c.args[0].op != c.args[1].op {
		return 0, nil, false
	}
	g := T.congruent(c.args[0], c.args[1])
	if !neg {
		if r, m := s.check(conds, []*Term{g}, wantModel, true); r == Sat {
			return r, m, true
		}
		return 0, nil, false
	}
	r, m := s.check(conds, []*Term{T.BNot(g)}, true, true)
	if r == Unsat {
		return r, nil, true
	}
	if r == Sat && m != nil && T.Eval(e, m) != 0 {
		return r, m, true
	}
	return 0, nil, false
}

// scaled: t as FromU(u) * 2^k.
func scaled(t *Term) (u *Term, k int, ok bool) {
	if t.op == OFFromU {
		return t.args[0], 0, true
	}
	if t.op == OFMul && t.args[0].op == OFFromU && t.args[1].op == OConst {
		if k, ok := pow2(t.args[1].c); ok {
			return t.args[0].args[0], k, true
		}
	}
	return nil, 0, false
}

func pow2(bits uint64) (int, bool) {
	e := int(bits >> 52)
	if bits<<12 != 0 || e <= 23 || e >= 2023 {
		return 0, false
	}
	return e - 1023, true
}

// mkScaled: FromU(u) * 2^k (exact, so that all ways to write it agree) with u odd as far as its pieces tell.
func (T *TermTable) mkScaled(u *Term, k int) *Term {
	ps := append([]piece(nil), T.pieces(u)...)
	z := 0
	for len(ps) > 0 && ps[len(ps)-1].t == nil && ps[len(ps)-1].c == 0 {
		z += int(ps[len(ps)-1].w)
		ps = ps[:len(ps)-1]
	}
	if z > 0 && z < 64 {
		u = T.Zext(T.fromPieces(ps, 64-uint8(z)), 64)
		k += z
	}
	f := T.mk(OFFromU, 64, 0, 0, 0, nil, u)
	if k == 0 {
		return f
	}
	return T.mk(OFMul, 64, 0, 0, 0, nil, f, T.Const(64, math.Float64bits(math.Ldexp(1, k))))
}

func (T *TermTable) FP(op Op, a ...*Term) *Term {
	T.fp = true
	if op == OFFromS && a[0].max < 1<<63 {
		op = OFFromU
	}
	if op == OFFromU && a[0].op != OConst {
		return T.mkScaled(a[0], 0)
	}
	if op == OFMul || op == OFDiv {
		x, y := a[0], a[1]
		if op == OFMul && x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if j, ok := pow2(y.c); ok {
				if op == OFDiv {
					j = -j
				}
				if j == 0 && x.op != OConst {
					return x
				}
				if u, k, ok := scaled(x); ok && k+j > -900 && k+j < 900 {
					return T.mkScaled(u, k+j)
				}
			}
		}
		if op == OFMul || op == OFAdd {
			if a[0].op == OConst || a[1].op != OConst && a[0].id > a[1].id {
				a = []*Term{a[1], a[0]}
			}
		}
	}
	w := uint8(64)
	if op == OFLt || op == OFLe || op == OFEq {
		w = 0
	}
	return T.mk(op, w, 0, 0, 0, nil, a...)
}

// floatTerm: the bits of a float value.
func (w *Worker) floatTerm(v Value) *Term {
	switch x := v.(type) {
	case Float:
		return w.T.Const(64, math.Float64bits(float64(x)))
	case SFloat:
		return x.t
	}
	w.unsupported("float value %T", v)
	return nil
}

func mkFloat(t *Term) Value {
	if t.op == OConst {
		return Float(math.Float64frombits(t.c))
	}
	return SFloat{t}
}

func (w *Worker) fpBinop(op token.Token, x, y Value) Value {
	a, b := w.floatTerm(x), w.floatTerm(y)
	T := w.T
	switch op {
	case token.ADD:
		return mkFloat(T.FP(OFAdd, a, b))
	case token.SUB:
		return mkFloat(T.FP(OFSub, a, b))
	case token.MUL:
		return mkFloat(T.FP(OFMul, a, b))
	case token.QUO:
		return mkFloat(T.FP(OFDiv, a, b))
	case token.LSS:
		return T.FP(OFLt, a, b)
	case token.LEQ:
		return T.FP(OFLe, a, b)
	case token.GTR:
		return T.FP(OFLt, b, a)
	case token.GEQ:
		return T.FP(OFLe, b, a)
	case token.EQL:
		return T.FP(OFEq, a, b)
	case token.NEQ:
		return T.BNot(T.FP(OFEq, a, b))
	}
	w.unsupported("binop %s on a symbolic float", op)
	return nil
}

// fmtFloat: the text of a symbolic float under one formatting verb, an unknown function of its bits.
func (w *Worker) fmtFloat(spec string, t *Term) *Rope {
	var l []*Term
	for i := 7; i >= 0; i-- {
		l = append(l, w.T.Extract(t, uint8(8*i+7), uint8(8*i)))
	}
	return w.appOut("fmt"+spec, w.litRope(l), func(b []byte) []byte {
		var u uint64
		for _, c := range b {
			u = u<<8 | uint64(c)
		}
		return []byte(fmt.Sprintf(spec, math.Float64frombits(u)))
	}, func(name string) *Rope { return w.opaqueStr(name, 1, 400) })
}

// known replaces the bytes that the path fixes by their values.
func (w *Worker) known(t *Term) *Term {
	ps := append([]piece(nil), w.T.pieces(w.norm(t))...)
	ch := false
	for i, p := range ps {
		if p.t == nil {
			continue
		}
		if d := w.p.dom[p.t]; d != nil {
			n, v := 0, 0
			for j, x := range d {
				n += bits.OnesCount64(x)
				if x != 0 {
					v = j<<6 + bits.TrailingZeros64(x)
				}
			}
			if n == 1 {
				ps[i] = piece{c: uint64(v) >> p.lo & mask(p.w), w: p.w}
				ch = true
			}
		}
	}
	if !ch {
		return t
	}
	return w.T.fromPieces(ps, t.w)
}

// natTerm: a multi-word natural number as a term of at most 64 bits times a power of two.
func (w *Worker) natTerm(words []*Term) (u *Term, k int, ok bool) {
	var ps []piece
	for i := len(words) - 1; i >= 0; i-- {
		ps = append(ps, w.T.pieces(w.known(words[i]))...)
	}
	zero := func(p piece) bool { return p.t == nil && p.c == 0 }
	for len(ps) > 0 && zero(ps[0]) {
		ps = ps[1:]
	}
	for len(ps) > 0 && zero(ps[len(ps)-1]) {
		k += int(ps[len(ps)-1].w)
		ps = ps[:len(ps)-1]
	}
	n := 0
	for i := range ps {
		if i == len(ps)-1 && ps[i].t == nil {
			z := bits.TrailingZeros64(ps[i].c)
			ps[i].c >>= uint(z)
			ps[i].w -= uint8(z)
			k += z
		}
		n += int(ps[i].w)
	}
	if n == 0 || n > 64 {
		return nil, 0, false
	}
	return w.T.Zext(w.T.fromPieces(ps, uint8(n)), 64), k, true
}

type bigText struct {
	neg bool
	u   *Term
	k   int
}

// bigOf reads a symbolic *big.Int.
func (w *Worker) bigOf(v Value) (bigText, bool) {
	var r bigText
	p, ok := v.(Ptr)
	if !ok {
		return r, false
	}
	o, ok := p.c.(*StructObj)
	if !ok || !p.whole || len(o.f) != 2 {
		return r, false
	}
	neg, ok1 := o.f[0].(*Term)
	s, ok2 := o.f[1].(Slice)
	if !ok1 || !ok2 || s.a == nil || s.len.op != OConst || s.off.op != OConst || neg.op != OConst {
		return r, false
	}
	a, ok := s.a.(*ArrObj)
	if !ok {
		return r, false
	}
	var words []*Term
	sym := false
	for i := uint64(0); i < s.len.c; i++ {
		t, ok := a.e[s.off.c+i].(*Term)
		if !ok {
			return r, false
		}
		sym = sym || t.op != OConst
		words = append(words, t)
	}
	if !sym {
		return r, false
	}
	r.neg = neg.c != 0
	r.u, r.k, ok = w.natTerm(words)
	return r, ok
}

// bigFloat: the float64 nearest to a number below 2^1024.
func (w *Worker) bigFloat(b bigText) Value {
	T := w.T
	f := T.FP(OFFromU, b.u)
	if b.k > 0 {
		f = T.FP(OFMul, f, T.Const(64, math.Float64bits(math.Ldexp(1, b.k))))
	}
	if b.neg {
		f = T.FP(OFMul, f, T.Const(64, math.Float64bits(-1)))
	}
	return mkFloat(f)
}

func bigString(w *Worker, a []Value) (Value, bool) {
	if len(a) == 2 {
		if t, ok := a[1].(*Term); !ok || t.op != OConst || t.c != 10 {
			return nil, false
		}
	}
	b, ok := w.bigOf(a[0])
	if !ok {
		return nil, false
	}
	var l []*Term
	for i := 7; i >= 0; i-- {
		l = append(l, w.T.Extract(b.u, uint8(8*i+7), uint8(8*i)))
	}
	k, neg := b.k, b.neg
	r := w.appOut(fmt.Sprintf("decimal<<%d,%v", k, neg), w.litRope(l), func(x []byte) []byte {
		n := new(big.Int).SetBytes(x)
		n.Lsh(n, uint(k))
		if neg {
			n.Neg(n)
		}
		return []byte(n.String())
	}, func(name string) *Rope {
		out := w.opaqueStr(name, 1, uint64(21+k*4/13))
		if w.p.bigTexts == nil {
			w.p.bigTexts = map[string]bigText{}
		}
		w.p.bigTexts[out.segs[0].blob] = b
		return out
	})
	return r, true
}

// parseFloat of the decimal text of a symbolic integer.
func parseFloat(w *Worker, a []Value) (Value, bool) {
	r, ok := a[0].(*Rope)
	if !ok || len(r.segs) != 1 || r.segs[0].kind != 1 || w.p == nil {
		return nil, false
	}
	b, ok := w.p.bigTexts[r.segs[0].blob]
	if !ok || !strings.HasPrefix(r.segs[0].blob, "decimal") || r.segs[0].off != w.zero || a[1].(*Term).op != OConst || a[1].(*Term).c != 64 {
		return nil, false
	}
	if b.k+64 > 900 {
		if b.u.max >= 1<<53 {
			w.unsupported("decimal text near the largest float64")
		}
		if b.k >= 1024 || w.decide(w.T.Ule(w.T.Const(64, 1<<uint(min(63, 1024-b.k))), b.u)) {
			inf := Float(math.Inf(1 - 2*int(b2u(b.neg))))
			return Tuple{inf, w.mkErr(w.strRope("value out of range"))}, true
		}
	}
	return Tuple{w.bigFloat(b), Iface{}}, true
}

func init() {
	preTab["(*math/big.Int).String"] = bigString
	preTab["(*math/big.Int).Text"] = bigString
	preTab["strconv.ParseFloat"] = parseFloat
	for n, signed := range map[string]bool{"FormatUint": false, "FormatInt": true} {
		signed := signed
		preTab["internal/strconv."+n] = func(w *Worker, a []Value) (Value, bool) {
			x, b := a[0].(*Term), a[1].(*Term)
			if w.p == nil || x.op == OConst || b.op != OConst || b.c != 10 && b.c != 16 {
				return nil, false
			}
			d, neg, ok := w.fmtInt(x, signed, b.c, false)
			if neg {
				d = append([]*Term{w.bytes['-']}, d...)
			}
			return w.litRope(d), ok
		}
	}
	preTab["math.Float64bits"] = func(w *Worker, a []Value) (Value, bool) { return w.floatTerm(a[0]), true }
	preTab["math.Float64frombits"] = func(w *Worker, a []Value) (Value, bool) { return mkFloat(a[0].(*Term)), true }
	preTab["internal/strconv.float64bits"] = preTab["math.Float64bits"]
	preTab["internal/strconv.float64frombits"] = preTab["math.Float64frombits"]
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2, "Sqrt": math.Sqrt,
		"Trunc": math.Trunc, "Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "RoundToEven": math.RoundToEven} {
		f := f
		preTab["math."+n] = func(w *Worker, a []Value) (Value, bool) {
			if x, ok := a[0].(Float); ok {
				return Float(f(float64(x))), true
			}
			w.unsupported("mathematical function of a symbolic float")
			return nil, false
		}
	}
	preTab["math.Pow"] = func(w *Worker, a []Value) (Value, bool) {
		x, ok1 := a[0].(Float)
		y, ok2 := a[1].(Float)
		if !ok1 || !ok2 {
			w.unsupported("power of a symbolic float")
		}
		return Float(math.Pow(float64(x), float64(y))), true
	}
	preTab["math.Ldexp"] = func(w *Worker, a []Value) (Value, bool) {
		x, ok := a[0].(Float)
		k := a[1].(*Term)
		if !ok || k.op != OConst {
			w.unsupported("scaling of a symbolic float")
		}
		return Float(math.Ldexp(float64(x), int(int64(k.c)))), true
	}
	preTab["math.IsNaN"] = func(w *Worker, a []Value) (Value, bool) {
		t := w.floatTerm(a[0])
		return w.T.BNot(w.T.FP(OFEq, t, t)), true
	}
	preTab["math.Abs"] = func(w *Worker, a []Value) (Value, bool) {
		return mkFloat(w.T.Concat(w.T.Const(1, 0), w.T.Extract(w.floatTerm(a[0]), 62, 0))), true
	}
}
