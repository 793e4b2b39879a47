package main

// Values of the interpreted program and its memory.
//
//   bool, integers, uintptr      *Term
//   float32/64                   Float, SFloat (symbolic float64)
//   string                       *Rope (immutable)
//   []T                          Slice
//   *T                           Ptr
//   struct                       *SVal (immutable copy)    memory: *StructObj
//   [N]T                         *AVal (immutable copy)    memory: *ArrObj or *ByteArr
//   interface                    Iface
//   map                          *MapObj
//   func                         *Func
//   tuple                        Tuple

import (
	"fmt"
	"go/types"
	"math/bits"

	"github.com/bitcoinsv/bsvutil/base58"
	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Float float64
type Complex complex128
type Tuple []Value

type Container interface{ hdr() *objHdr }

type objHdr struct {
	epoch int // path number that created it; 0: package initialisation
}

func (h *objHdr) hdr() *objHdr { return h }

type Cell struct {
	objHdr
	v Value
}

type StructObj struct {
	objHdr
	f []Value // nested aggregates are containers
	t *types.Struct
}

type ArrObj struct {
	objHdr
	e    []Value
	elem types.Type
}

// ByteArr: backing store of 8-bit elements. lit != nil: explicit bytes; otherwise r.
type ByteArr struct {
	objHdr
	lit []*Term
	r   *Rope
}

func (b *ByteArr) isLit() bool { return b.r == nil }

// Ptr: f indexes a struct field (c *StructObj), i an array element; whole: the aggregate itself. For a pointer to an
// array that starts inside another array (slice to array pointer conversion) off is the start.
type Ptr struct {
	c     Container
	f     int
	i     *Term
	whole bool
}

func (p Ptr) isNil() bool { return p.c == nil }

type Slice struct {
	a             Container // *ArrObj, *ByteArr or nil
	off, len, cap *Term
}

type SVal struct {
	f []Value
	t *types.Struct
}

type AVal struct {
	e    []Value // generic
	b    []*Term // bytes, when isB
	isB  bool
	elem types.Type
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Func struct {
	fn   *ssa.Function
	free []Value
	nat  func(w *Worker, args []Value) Value // engine-made function
	blt  *ssa.Builtin
}

type MapObj struct {
	objHdr
	keys []Value
	vals []Value
	kt   types.Type
	vt   types.Type
	idx  map[interface{}]int // concrete keys
}

type mapIter struct {
	m *MapObj
	i int
	n int
	// string iteration
	s   *Rope
	pos int
}

// ---- ropes -----------------------------------------------------------------

type Seg struct {
	kind uint8 // 0 literal, 1 blob, 2 fill
	lit  []*Term
	blob string
	off  *Term
	n    *Term
	fill *Term
}

type Rope struct {
	segs []Seg
	n    *Term
}

func (w *Worker) segLen(s *Seg) *Term {
	if s.kind == 0 {
		return w.cint(len(s.lit))
	}
	return w.norm(s.n)
}

func (w *Worker) litRope(b []*Term) *Rope {
	if len(b) == 0 {
		return w.emptyRope
	}
	return &Rope{segs: []Seg{{lit: b}}, n: w.cint(len(b))}
}

func (w *Worker) strRope(s string) *Rope {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = w.bytes[s[i]]
	}
	return w.litRope(b)
}

func (r *Rope) isLit() bool { return len(r.segs) == 0 || len(r.segs) == 1 && r.segs[0].kind == 0 }

func (r *Rope) lit() []*Term {
	if len(r.segs) == 0 {
		return nil
	}
	if len(r.segs) == 1 && r.segs[0].kind == 0 {
		return r.segs[0].lit
	}
	panic("lit of symbolic rope")
}

// concrete returns the Go string if every byte is constant.
func (r *Rope) concrete() (string, bool) {
	if !r.isLit() {
		return "", false
	}
	l := r.lit()
	b := make([]byte, len(l))
	for i, t := range l {
		if t.op != OConst {
			return "", false
		}
		b[i] = byte(t.c)
	}
	return string(b), true
}

func (w *Worker) concat(rs ...*Rope) *Rope {
	var segs []Seg
	n := w.zero
	for _, r := range rs {
		for _, s := range r.segs {
			l := w.segLen(&s)
			if l.op == OConst && l.c == 0 {
				continue
			}
			n = w.T.Add(n, l)
			if len(segs) > 0 {
				p := &segs[len(segs)-1]
				if p.kind == 0 && s.kind == 0 {
					nl := make([]*Term, 0, len(p.lit)+len(s.lit))
					nl = append(append(nl, p.lit...), s.lit...)
					p.lit = nl
					continue
				}
				if p.kind == 1 && s.kind == 1 && p.blob == s.blob && w.T.Add(p.off, p.n) == s.off {
					p.n = w.T.Add(p.n, s.n)
					continue
				}
				if p.kind == 2 && s.kind == 2 && p.fill == s.fill {
					p.n = w.T.Add(p.n, s.n)
					continue
				}
			}
			segs = append(segs, s)
		}
	}
	return &Rope{segs: segs, n: n}
}

// split cuts r at position p (0 <= p <= len, already checked by the caller); forks when the segment is not determined.
func (w *Worker) split(r *Rope, p *Term) (a, b *Rope) {
	p = w.norm(p)
	if p.op == OConst && p.c == 0 {
		return w.emptyRope, r
	}
	if p == r.n || p == w.norm(r.n) {
		return r, w.emptyRope
	}
	acc := w.zero
	for i := range r.segs {
		s := r.segs[i]
		l := w.segLen(&s)
		end := w.T.Add(acc, l)
		if end == p {
			return w.mkRope(r.segs[:i+1]), w.mkRope(r.segs[i+1:])
		}
		if i == len(r.segs)-1 || w.decide(w.T.Ule(p, end)) {
			d := w.T.Sub(p, acc)
			var s1, s2 Seg
			if d.op != OConst && s.kind == 0 && sameLit(s.lit) {
				s = Seg{kind: 2, fill: s.lit[0], n: l}
			}
			switch s.kind {
			case 0:
				k := int(w.concretize(d, len(s.lit)+1))
				s1, s2 = Seg{lit: s.lit[:k]}, Seg{lit: s.lit[k:]}
			case 1:
				s1, s2 = s, s
				s1.n = d
				s2.off = w.T.Add(s.off, d)
				s2.n = w.T.Sub(l, d)
			case 2:
				s1, s2 = s, s
				s1.n = d
				s2.n = w.T.Sub(l, d)
			}
			x := append(append([]Seg(nil), r.segs[:i]...), s1)
			y := append([]Seg{s2}, r.segs[i+1:]...)
			return w.mkRope(x), w.mkRope(y)
		}
		acc = end
	}
	return r, w.emptyRope
}

func sameLit(l []*Term) bool {
	for _, t := range l {
		if t != l[0] {
			return false
		}
	}
	return len(l) > 0
}

func (w *Worker) mkRope(segs []Seg) *Rope {
	return w.concat(&Rope{segs: segs})
}

func (w *Worker) ropeSlice(r *Rope, lo, hi *Term) *Rope {
	if r.isLit() && lo.op == OConst && hi.op == OConst {
		return w.litRope(r.lit()[lo.c:hi.c])
	}
	a, _ := w.split(r, hi)
	_, b := w.split(a, lo)
	return b
}

// byteAt: in-range index; no fork (conditional terms over the segments).
func (w *Worker) byteAt(r *Rope, i *Term) *Term {
	if r.isLit() {
		return w.litAt(r.lit(), i)
	}
	acc := w.zero
	i = w.norm(i)
	type part struct{ c, v *Term }
	var ps []part
	for k := range r.segs {
		s := &r.segs[k]
		end := w.T.Add(acc, w.segLen(s))
		var c *Term
		if k == len(r.segs)-1 {
			c = w.T.True
		} else {
			c = w.T.Ult(i, end)
		}
		if c.IsFalse() {
			acc = end
			continue
		}
		// skip if known to lie before this segment was already handled by c of the previous one
		d := w.T.Sub(i, acc)
		var v *Term
		switch s.kind {
		case 0:
			v = w.litAtAny(s.lit, d)
		case 1:
			v = w.T.Select(s.blob, w.T.Add(s.off, d))
		case 2:
			v = s.fill
		}
		ps = append(ps, part{c, v})
		if c.IsTrue() {
			break
		}
		acc = end
	}
	v := ps[len(ps)-1].v
	for k := len(ps) - 2; k >= 0; k-- {
		v = w.T.Ite(ps[k].c, ps[k].v, v)
	}
	return v
}

// litAtAny tolerates an out of range index (its value is then irrelevant).
func (w *Worker) litAtAny(l []*Term, i *Term) *Term {
	if i.op == OConst && i.c >= uint64(len(l)) {
		return l[0]
	}
	return w.litAt(l, i)
}

func (w *Worker) litAt(l []*Term, i *Term) *Term {
	if i.op == OConst {
		return l[i.c]
	}
	// constant table over a small base
	if i.w > 8 && i.op != OTable && i.max > 0 && i.max < 256 {
		i = w.T.Extract(i, uint8(bits.Len64(i.max))-1, 0)
		if i.op == OConst {
			return w.litAtAny(l, i)
		}
	}
	if b := baseOf(i); b != nil {
		allc := true
		for _, x := range l {
			if x.op != OConst {
				allc = false
				break
			}
		}
		if allc {
			nt := make([]uint64, 1<<b.w)
			for k := range nt {
				j := tabVal(i, uint64(k))
				if j < uint64(len(l)) {
					nt[k] = l[j].c
				}
			}
			return w.T.Table(l[0].w, nt, b)
		}
	}
	lo, hi := i.min, i.max
	if hi >= uint64(len(l)) {
		hi = uint64(len(l)) - 1
	}
	if lo > hi {
		return l[0]
	}
	v := l[hi]
	for k := int(hi) - 1; k >= int(lo); k-- {
		v = w.T.Ite(w.T.Eq(i, w.T.Const(i.w, uint64(k))), l[k], v)
	}
	return v
}

// ropeEq: the equality of two ropes as a term; ok=false if it cannot be expressed without quantifiers.
func (w *Worker) ropeEq(a, b *Rope) (*Term, bool) {
	if p := w.b58payload(a); p != nil {
		if q := w.b58payload(b); q != nil {
			return w.ropeEq(p, q)
		}
		if s, ok := b.concrete(); ok {
			return w.b58eq(p, s)
		}
	} else if q := w.b58payload(b); q != nil {
		if s, ok := a.concrete(); ok {
			return w.b58eq(q, s)
		}
	}
	le := w.T.Eq(a.n, b.n)
	if le.IsFalse() {
		return le, true
	}
	if a.isLit() && b.isLit() {
		x, y := a.lit(), b.lit()
		if len(x) != len(y) {
			return w.T.False, true
		}
		cs := make([]*Term, 0, len(x))
		for i := range x {
			c := w.T.Eq(x[i], y[i])
			if c.IsFalse() {
				return c, true
			}
			if !c.IsTrue() {
				cs = append(cs, c)
			}
		}
		return w.T.BAnd(cs...), true
	}
	res := []*Term{le}
	// walk both, trimming equal-length prefixes
	x, y := append([]Seg(nil), a.segs...), append([]Seg(nil), b.segs...)
	for len(x) > 0 && len(y) > 0 {
		s, t := x[0], y[0]
		ls, lt := w.segLen(&s), w.segLen(&t)
		if ls == lt {
			c, ok := w.segEq(&s, &t)
			if !ok {
				return nil, false
			}
			if c.IsFalse() && le.IsTrue() && ls.min > 0 {
				return c, true
			}
			res = append(res, c)
			x, y = x[1:], y[1:]
			continue
		}
		// cut the longer one
		var swap bool
		if w.T.Ule(ls, lt).IsTrue() {
		} else if w.T.Ule(lt, ls).IsTrue() {
			swap = true
		} else {
			return nil, false
		}
		if swap {
			x, y = y, x
			s, t = t, s
			ls, lt = lt, ls
		}
		// s shorter: split t at ls
		var t1, t2 Seg
		switch t.kind {
		case 0:
			if ls.op != OConst {
				return nil, false
			}
			t1, t2 = Seg{lit: t.lit[:ls.c]}, Seg{lit: t.lit[ls.c:]}
		case 1:
			t1, t2 = t, t
			t1.n = ls
			t2.off = w.T.Add(t.off, ls)
			t2.n = w.T.Sub(lt, ls)
		case 2:
			t1, t2 = t, t
			t1.n = ls
			t2.n = w.T.Sub(lt, ls)
		}
		c, ok := w.segEq(&s, &t1)
		if !ok {
			return nil, false
		}
		res = append(res, c)
		x = x[1:]
		y = append([]Seg{t2}, y[1:]...)
	}
	return w.T.BAnd(res...), true
}

// segEq: equal-length segments.
func (w *Worker) segEq(s, t *Seg) (*Term, bool) {
	if s.kind == 1 && t.kind == 1 && s.blob == t.blob && s.off == t.off {
		return w.T.True, true
	}
	if s.kind == 2 && t.kind == 2 {
		return w.T.BOr(w.T.Eq(s.fill, t.fill), w.T.Eq(s.n, w.zero)), true
	}
	n := w.segLen(s)
	if n.op != OConst || n.c > 4096 {
		return nil, false
	}
	cs := []*Term{}
	for i := uint64(0); i < n.c; i++ {
		cs = append(cs, w.T.Eq(w.segByte(s, i), w.segByte(t, i)))
	}
	return w.T.BAnd(cs...), true
}

func (w *Worker) segByte(s *Seg, i uint64) *Term {
	switch s.kind {
	case 0:
		return s.lit[i]
	case 1:
		return w.T.Select(s.blob, w.T.Add(s.off, w.T.Const(64, i)))
	}
	return s.fill
}

func (r *Rope) key() string {
	k := ""
	for _, s := range r.segs {
		switch s.kind {
		case 0:
			b := make([]byte, 0, len(s.lit)*3+4)
			b = append(b, 'L')
			b = appU(b, uint64(len(s.lit)))
			for _, t := range s.lit {
				b = appU(b, uint64(t.id))
			}
			k += string(b)
		case 1:
			k += fmt.Sprintf("B%s,%d,%d;", s.blob, s.off.id, s.n.id)
		case 2:
			k += fmt.Sprintf("F%d,%d;", s.fill.id, s.n.id)
		}
	}
	return k
}

// b58eq: is the encoding of payload p the text s?
func (w *Worker) b58eq(p *Rope, s string) (*Term, bool) {
	d := base58.Decode(s)
	if base58.Encode(d) != s {
		return w.T.False, true
	}
	return w.ropeEq(p, w.strRope(string(d)))
}
