package main

import (
	"go/types"
)

// ---- type helpers -------------------------------------------------------------

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo: width and signedness of integer-like basic types.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isByteType(t types.Type) bool {
	w, _, ok := intInfo(t)
	return ok && w == 8
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (w *Worker) zeroVal(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if wd, _, ok := intInfo(u); ok {
			return w.T.Const(wd, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return w.emptyRope
		case types.Float32, types.Float64, types.UntypedFloat:
			return Float(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return Complex(0)
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return w.nilSlice
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		s := &SVal{t: u, f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = w.zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := &AVal{elem: u.Elem()}
		if isByteType(u.Elem()) {
			a.isB = true
			a.b = make([]*Term, n)
			for i := range a.b {
				a.b[i] = w.bytes[0]
			}
			return a
		}
		a.e = make([]Value, n)
		for i := range a.e {
			a.e[i] = w.zeroVal(u.Elem())
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = w.zeroVal(u.At(i).Type())
		}
		return tu
	case *types.TypeParam:
	}
	w.unsupported("zero value of %v", t)
	return nil
}

func (w *Worker) epoch() int {
	if w.initDepth > 0 {
		return 0
	}
	return w.pathNo
}

// place: the in-memory form of a value (containers for aggregates).
func (w *Worker) place(v Value) Value {
	switch v := v.(type) {
	case *SVal:
		o := &StructObj{objHdr: objHdr{w.epoch()}, t: v.t, f: make([]Value, len(v.f))}
		for i, x := range v.f {
			o.f[i] = w.place(x)
		}
		return o
	case *AVal:
		if v.isB {
			return &ByteArr{objHdr: objHdr{w.epoch()}, lit: append(make([]*Term, 0, len(v.b)), v.b...)}
		}
		o := &ArrObj{objHdr: objHdr{w.epoch()}, elem: v.elem, e: make([]Value, len(v.e))}
		for i, x := range v.e {
			o.e[i] = w.place(x)
		}
		return o
	}
	return v
}

func isAgg(v Value) bool {
	switch v.(type) {
	case *StructObj, *ArrObj, *ByteArr:
		return true
	}
	return false
}

// snap: the immutable value form of in-memory content.
func (w *Worker) snap(v Value) Value {
	switch v := v.(type) {
	case *StructObj:
		s := &SVal{t: v.t, f: make([]Value, len(v.f))}
		for i, x := range v.f {
			s.f[i] = w.snap(x)
		}
		return s
	case *ByteArr:
		if !v.isLit() {
			w.unsupported("array value of symbolic content")
		}
		return &AVal{isB: true, b: append(make([]*Term, 0, len(v.lit)), v.lit...)}
	case *ArrObj:
		a := &AVal{elem: v.elem, e: make([]Value, len(v.e))}
		for i, x := range v.e {
			a.e[i] = w.snap(x)
		}
		return a
	}
	return v
}

// alloc returns a pointer to fresh memory of type t holding v.
func (w *Worker) alloc(v Value) Ptr {
	p := w.place(v)
	if isAgg(p) {
		return Ptr{c: p.(Container), whole: true}
	}
	return Ptr{c: &Cell{objHdr: objHdr{w.epoch()}, v: p}}
}

func (w *Worker) touch(c Container, undo func()) {
	if c.hdr().epoch == 0 && w.initDepth == 0 {
		w.undo = append(w.undo, undo)
	}
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) load(p Ptr, t types.Type) Value {
	switch c := p.c.(type) {
	case nil:
		w.nilDeref()
	case *Cell:
		return c.v
	case *StructObj:
		if p.whole {
			return w.snap(c)
		}
		return w.snap(c.f[p.f])
	case *ArrObj:
		if p.whole {
			if at, ok := under(t).(*types.Array); ok && (p.i != nil || int(at.Len()) != len(c.e)) {
				o := 0
				if p.i != nil {
					o = int(p.i.c)
				}
				a := &AVal{elem: c.elem}
				for i := 0; i < int(at.Len()); i++ {
					a.e = append(a.e, w.snap(c.e[o+i]))
				}
				return a
			}
			return w.snap(c)
		}
		if p.i.op == OConst {
			return w.snap(c.e[p.i.c])
		}
		return w.selectVal(c, p.i)
	case *ByteArr:
		if p.whole {
			if at, ok := under(t).(*types.Array); ok {
				o := uint64(0)
				if p.i != nil {
					o = w.concretize(p.i, 300)
				}
				if !c.isLit() {
					a := &AVal{isB: true}
					for i := int64(0); i < at.Len(); i++ {
						a.b = append(a.b, w.byteAt(c.r, w.T.Const(64, o+uint64(i))))
					}
					return a
				}
				return &AVal{isB: true, b: append(make([]*Term, 0, at.Len()), c.lit[o:o+uint64(at.Len())]...)}
			}
			return w.snap(c)
		}
		if c.isLit() {
			return w.litAt(c.lit, p.i)
		}
		return w.byteAt(c.r, p.i)
	}
	w.unsupported("load from %T", p.c)
	return nil
}

func (w *Worker) selectVal(c *ArrObj, i *Term) Value {
	lo, hi := i.min, i.max
	if hi >= uint64(len(c.e)) {
		hi = uint64(len(c.e)) - 1
	}
	allT := true
	for k := lo; k <= hi; k++ {
		if _, ok := c.e[k].(*Term); !ok {
			allT = false
			break
		}
	}
	if allT && hi-lo < 1024 {
		l := make([]*Term, len(c.e))
		for k := range c.e {
			l[k], _ = c.e[k].(*Term)
		}
		return w.litAt(l, i)
	}
	return w.snap(c.e[w.concretize(i, 600)])
}

func (w *Worker) store(p Ptr, v Value) {
	switch c := p.c.(type) {
	case nil:
		w.nilDeref()
	case *Cell:
		old := c.v
		w.touch(c, func() { c.v = old })
		c.v = v
	case *StructObj:
		if p.whole {
			sv, ok := v.(*SVal)
			if !ok {
				w.unsupported("store %T into struct", v)
			}
			for i := range c.f {
				w.storeField(c, i, sv.f[i])
			}
			return
		}
		w.storeField(c, p.f, v)
	case *ArrObj:
		if p.whole {
			av := v.(*AVal)
			o := 0
			if p.i != nil {
				o = int(p.i.c)
			}
			for i := range av.e {
				w.storeElem(c, o+i, av.e[i])
			}
			return
		}
		w.storeElem(c, int(w.concretize(p.i, 600)), v)
	case *ByteArr:
		if p.whole {
			av := v.(*AVal)
			o := w.zero
			if p.i != nil {
				o = p.i
			}
			w.writeBytes(c, o, w.litRope(av.b))
			return
		}
		t := v.(*Term)
		if c.isLit() {
			if p.i.op != OConst {
				// conditional update of every candidate byte
				lo, hi := p.i.min, p.i.max
				if hi >= uint64(len(c.lit)) {
					hi = uint64(len(c.lit)) - 1
				}
				if hi-lo <= 256 {
					w.cowBytes(c)
					for k := lo; k <= hi; k++ {
						c.lit[k] = w.T.Ite(w.T.Eq(p.i, w.T.Const(64, k)), t, c.lit[k])
					}
					return
				}
			}
			i := w.concretize(p.i, 600)
			w.cowBytes(c)
			c.lit[i] = t
			return
		}
		w.writeBytes(c, p.i, w.litRope([]*Term{t}))
	default:
		w.unsupported("store to %T", p.c)
	}
}

// cowBytes prepares in-place modification of a literal byte array.
func (w *Worker) cowBytes(c *ByteArr) {
	if c.epoch == 0 && w.initDepth == 0 {
		old := c.lit
		w.undo = append(w.undo, func() { c.lit = old; c.r = nil })
		c.lit = append(make([]*Term, 0, len(old)), old...)
	}
}

func (w *Worker) storeField(c *StructObj, i int, v Value) {
	if isAgg(c.f[i]) {
		w.store(Ptr{c: c.f[i].(Container), whole: true}, v)
		return
	}
	old := c.f[i]
	w.touch(c, func() { c.f[i] = old })
	c.f[i] = v
}

func (w *Worker) storeElem(c *ArrObj, i int, v Value) {
	if isAgg(c.e[i]) {
		w.store(Ptr{c: c.e[i].(Container), whole: true}, v)
		return
	}
	old := c.e[i]
	w.touch(c, func() { c.e[i] = old })
	c.e[i] = v
}

// arrRope: bytes [off, off+n) of the array as an immutable rope.
func (w *Worker) arrRope(c *ByteArr, off, n *Term) *Rope {
	if n.op == OConst && n.c == 0 {
		return w.emptyRope
	}
	if c.isLit() {
		if off.op == OConst && n.op == OConst {
			return w.litRope(append(make([]*Term, 0, n.c), c.lit[off.c:off.c+n.c]...))
		}
		o := w.concretize(off, 600)
		k := w.concretize(n, 600)
		return w.litRope(append(make([]*Term, 0, k), c.lit[o:o+k]...))
	}
	return w.ropeSlice(c.r, off, w.T.Add(off, n))
}

func (w *Worker) full(c *ByteArr) *Rope {
	if c.isLit() {
		return w.litRope(append(make([]*Term, 0, len(c.lit)), c.lit...))
	}
	return c.r
}

func (w *Worker) arrLen(c *ByteArr) *Term {
	if c.isLit() {
		return w.cint(len(c.lit))
	}
	return c.r.n
}

// writeBytes stores r at offset off (in range).
func (w *Worker) writeBytes(c *ByteArr, off *Term, r *Rope) {
	if r.n.op == OConst && r.n.c == 0 {
		return
	}
	if c.isLit() && off.op == OConst && r.isLit() {
		w.cowBytes(c)
		copy(c.lit[off.c:], r.lit())
		return
	}
	if c.isLit() && r.isLit() {
		o := w.concretize(off, 600)
		w.cowBytes(c)
		copy(c.lit[o:], r.lit())
		return
	}
	f := w.full(c)
	a, rest := w.split(f, off)
	_, b := w.split(rest, r.n)
	nr := w.concat(a, r, b)
	oldLit, oldR := c.lit, c.r
	w.touch(c, func() { c.lit, c.r = oldLit, oldR })
	w.setRope(c, nr)
}

func (w *Worker) setRope(c *ByteArr, r *Rope) {
	if r.isLit() {
		c.lit, c.r = append(make([]*Term, 0, 8), r.lit()...), nil
		return
	}
	c.lit, c.r = nil, r
}

func (w *Worker) newBytes(r *Rope) *ByteArr {
	c := &ByteArr{objHdr: objHdr{w.epoch()}}
	w.setRope(c, r)
	return c
}

// sliceRope: contents of a byte slice.
func (w *Worker) sliceRope(s Slice) *Rope {
	switch a := s.a.(type) {
	case nil:
		return w.emptyRope
	case *ByteArr:
		return w.arrRope(a, s.off, s.len)
	}
	w.unsupported("byte view of %T", s.a)
	return nil
}

// byteSlice makes a slice over a fresh copy of r with capacity = length.
func (w *Worker) byteSlice(r *Rope) Slice {
	return Slice{a: w.newBytes(r), off: w.zero, len: r.n, cap: r.n}
}

// sliceElems: the elements of a non-byte slice as values (concrete length).
func (w *Worker) sliceElems(s Slice) []Value {
	if s.a == nil {
		return nil
	}
	n := int(w.concretize(s.len, 600))
	switch a := s.a.(type) {
	case *ArrObj:
		o := int(w.concretize(s.off, 600))
		out := make([]Value, n)
		for i := range out {
			out[i] = w.snap(a.e[o+i])
		}
		return out
	case *ByteArr:
		r := w.sliceRope(s)
		out := make([]Value, n)
		for i := range out {
			out[i] = w.byteAt(r, w.cint(i))
		}
		return out
	}
	w.unsupported("elements of %T", s.a)
	return nil
}

// ---- append, copy, make ---------------------------------------------------------

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(newLen, oldCap, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	return roundSize(nc*esz) / esz
}

func (w *Worker) appendSlice(s Slice, elem types.Type, src Value) Value {
	isB := isByteType(elem)
	if isB {
		var r *Rope
		switch x := src.(type) {
		case *Rope:
			r = x
		case Slice:
			r = w.sliceRope(x)
		}
		if r.n.op == OConst && r.n.c == 0 {
			return s
		}
		if r.n.op != OConst && r.n.min == 0 {
			if w.decide(w.T.Eq(r.n, w.zero)) {
				return s
			}
		}
		nl := w.T.Add(s.len, r.n)
		if s.a != nil && w.decide(w.T.Ule(nl, s.cap)) {
			w.writeBytes(s.a.(*ByteArr), w.T.Add(s.off, s.len), r)
			return Slice{a: s.a, off: s.off, len: nl, cap: s.cap}
		}
		c := w.concat(w.sliceRope(s), r)
		if nl.op == OConst && s.cap.op == OConst {
			nc := growCap(int(nl.c), int(s.cap.c), 1)
			if !c.isLit() {
				return Slice{a: w.newBytes(c), off: w.zero, len: nl, cap: nl}
			}
			b := make([]*Term, nc)
			copy(b, c.lit())
			for i := int(nl.c); i < nc; i++ {
				b[i] = w.bytes[0]
			}
			return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: b}, off: w.zero, len: nl, cap: w.cint(nc)}
		}
		return Slice{a: w.newBytes(c), off: w.zero, len: nl, cap: nl}
	}
	ss, ok := src.(Slice)
	if !ok {
		w.unsupported("append of %T", src)
	}
	add := w.sliceElems(ss)
	if len(add) == 0 {
		return s
	}
	n := int(w.concretize(s.len, 600))
	cp := int(w.concretize(s.cap, 600))
	nl := n + len(add)
	if s.a != nil && nl <= cp {
		a := s.a.(*ArrObj)
		o := int(s.off.c)
		for i, v := range add {
			w.storeElem(a, o+n+i, v)
		}
		return Slice{a: a, off: s.off, len: w.cint(nl), cap: s.cap}
	}
	old := w.sliceElems(s)
	esz := int(w.eng.sizes.Sizeof(elem))
	nc := growCap(nl, cp, esz)
	a := &ArrObj{objHdr: objHdr{w.epoch()}, elem: elem, e: make([]Value, nc)}
	for i := range a.e {
		switch {
		case i < n:
			a.e[i] = w.place(old[i])
		case i < nl:
			a.e[i] = w.place(add[i-n])
		default:
			a.e[i] = w.place(w.zeroVal(elem))
		}
	}
	return Slice{a: a, off: w.zero, len: w.cint(nl), cap: w.cint(nc)}
}

func (w *Worker) copySlice(dst Slice, src Value) *Term {
	if sr, ok := src.(*Rope); ok {
		return w.copyRope(dst, sr)
	}
	s := src.(Slice)
	_, db := dst.a.(*ByteArr)
	_, sb := s.a.(*ByteArr)
	if db || sb || dst.a == nil && s.a == nil {
		if dst.a == nil || s.a == nil {
			return w.zero
		}
		return w.copyRope(dst, w.sliceRope(s))
	}
	if dst.a == nil || s.a == nil {
		return w.zero
	}
	e := w.sliceElems(s)
	n := int(w.concretize(dst.len, 600))
	if len(e) < n {
		n = len(e)
	}
	a := dst.a.(*ArrObj)
	o := int(dst.off.c)
	for i := 0; i < n; i++ {
		w.storeElem(a, o+i, e[i])
	}
	return w.cint(n)
}

func (w *Worker) copyRope(dst Slice, r *Rope) *Term {
	if dst.a == nil {
		return w.zero
	}
	n := r.n
	if dst.len != r.n {
		if w.decide(w.T.Ult(dst.len, r.n)) {
			n = dst.len
			r = w.ropeSlice(r, w.zero, n)
		}
	}
	w.writeBytes(dst.a.(*ByteArr), dst.off, r)
	return n
}

func (w *Worker) makeSlice(elem types.Type, n, c *Term) Value {
	lim := w.T.Const(64, 1<<40)
	if !w.decide(w.T.Ult(n, lim)) {
		w.rtPanic("makeslice: len out of range")
	}
	if c != n {
		if !w.decide(w.T.BAnd(w.T.Ult(c, lim), w.T.Ule(n, c))) {
			w.rtPanic("makeslice: cap out of range")
		}
	}
	if isByteType(elem) {
		if c.op != OConst && c.max <= 80 {
			c = w.T.Const(64, w.concretize(c, 100))
		}
		if c.op == OConst {
			if c.c > 1<<22 {
				return Slice{a: w.newBytes(&Rope{segs: []Seg{{kind: 2, fill: w.bytes[0], n: c}}, n: c}), off: w.zero, len: n, cap: c}
			}
			if n.op != OConst {
				n = w.T.Const(64, w.concretize(n, 600))
			}
			b := make([]*Term, c.c)
			for i := range b {
				b[i] = w.bytes[0]
			}
			return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: b}, off: w.zero, len: n, cap: c}
		}
		return Slice{a: w.newBytes(&Rope{segs: []Seg{{kind: 2, fill: w.bytes[0], n: c}}, n: c}), off: w.zero, len: n, cap: c}
	}
	cc := w.concretize(c, 600)
	nn := w.concretize(n, 600)
	if cc > 1<<20 {
		w.abort(abCut, "make of %d elements", cc)
	}
	a := &ArrObj{objHdr: objHdr{w.epoch()}, elem: elem, e: make([]Value, cc)}
	for i := range a.e {
		a.e[i] = w.place(w.zeroVal(elem))
	}
	return Slice{a: a, off: w.zero, len: w.T.Const(64, nn), cap: w.T.Const(64, cc)}
}
