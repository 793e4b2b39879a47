package main

// bytes.Buffer with symbolic sizes: its contents are exact; its spare capacity, which would otherwise make every write
// fork, is none. Buffers of concrete sizes are executed from source.

var preTab = map[string]func(w *Worker, args []Value) (Value, bool){
	"(*bytes.Buffer).Write":            bufWrite,
	"(*bytes.Buffer).WriteString":      bufWrite,
	"(*bytes.Buffer).tryGrowByReslice": bufTryGrow,
	"(*bytes.Buffer).grow":             bufGrow,
}

func (w *Worker) bufOf(v Value) (*StructObj, Slice, *Term, bool) {
	p, ok := v.(Ptr)
	if !ok {
		return nil, Slice{}, nil, false
	}
	o, ok := p.c.(*StructObj)
	if !ok || !p.whole || len(o.f) < 2 {
		return nil, Slice{}, nil, false
	}
	s, ok1 := o.f[0].(Slice)
	off, ok2 := o.f[1].(*Term)
	return o, s, off, ok1 && ok2
}

func concreteBuf(s Slice, off *Term) bool {
	return s.len.op == OConst && s.cap.op == OConst && off.op == OConst
}

// bufRest is the unread contents.
func (w *Worker) bufRest(s Slice, off *Term) *Rope {
	if s.a == nil {
		return w.emptyRope
	}
	return w.ropeSlice(w.sliceRope(s), off, s.len)
}

func (w *Worker) bufSet(o *StructObj, r *Rope) {
	w.storeField(o, 0, Slice{a: w.newBytes(r), off: w.zero, len: r.n, cap: r.n})
	w.storeField(o, 1, w.zero)
}

func bufWrite(w *Worker, a []Value) (Value, bool) {
	o, s, off, ok := w.bufOf(a[0])
	if !ok {
		return nil, false
	}
	r := w.rope(a[1])
	if concreteBuf(s, off) && r.n.op == OConst {
		return nil, false
	}
	for i := 2; i < len(o.f); i++ {
		if t, ok := o.f[i].(*Term); ok { // lastRead = opInvalid
			w.storeField(o, i, w.T.Const(t.w, 0))
		}
	}
	w.bufSet(o, w.concat(w.bufRest(s, off), r))
	return Tuple{r.n, Iface{}}, true
}

func bufTryGrow(w *Worker, a []Value) (Value, bool) {
	_, s, off, ok := w.bufOf(a[0])
	n := a[1].(*Term)
	if !ok || concreteBuf(s, off) && n.op == OConst {
		return nil, false
	}
	return Tuple{w.zero, w.T.False}, true
}

func bufGrow(w *Worker, a []Value) (Value, bool) {
	o, s, off, ok := w.bufOf(a[0])
	n := a[1].(*Term)
	if !ok || concreteBuf(s, off) && n.op == OConst {
		return nil, false
	}
	m := w.T.Sub(s.len, off)
	w.bufSet(o, w.concat(w.bufRest(s, off), &Rope{segs: []Seg{{kind: 2, fill: w.bytes[0], n: n}}, n: n}))
	return m, true
}
