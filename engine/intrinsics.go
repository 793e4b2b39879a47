package main

// Functions executed by the engine itself: the harness interface (vsym), cryptographic primitives as uninterpreted
// functions, assembly-backed byte searches, formatting, and runtime services.

import (
	"fmt"
	"go/types"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/bitcoinsv/bsvutil/hdkeychain"
	"golang.org/x/tools/go/ssa"
)

type intrFn func(w *Worker, call *ssa.CallCommon, args []Value) Value

var intrTab map[string]intrFn

func init() {
	intrTab = map[string]intrFn{}
	regVsym()
	regBytes()
	regHash()
	regKeys()
	regRuntime()
	regFmt()
	regRegexp()
}

const vs = "verif/harness/vsym."

func findIntrinsic(e *Engine, fn *ssa.Function, name string) func(w *Worker, call *ssa.CallCommon, args []Value) Value {
	f, ok := intrTab[name]
	if !ok {
		f = patternIntrinsic(e, fn, name)
		if f == nil {
			return nil
		}
	}
	if !strings.HasPrefix(name, vs) && !strings.HasPrefix(name, "sync") && !strings.HasPrefix(name, "(*sync") {
		e.stub(name)
	}
	return f
}

func patternIntrinsic(e *Engine, fn *ssa.Function, name string) intrFn {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg {
	case "sync/atomic":
		return atomicIntr(fn)
	case "log":
		n := fn.Name()
		if strings.HasPrefix(n, "Panic") {
			return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
				panic(&goPanic{v: Iface{t: types.Typ[types.String], v: w.strRope("log.Panic")}, msg: "log.Panic", where: w.where()})
			}
		}
		if strings.HasPrefix(n, "Fatal") {
			return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
				panic(&goPanic{v: Iface{t: types.Typ[types.String], v: w.strRope("log.Fatal")}, msg: "log.Fatal (process exit)", where: w.where()})
			}
		}
		return zeroIntr(fn)
	case "internal/godebug":
		if fn.Name() == "New" {
			return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
				return w.alloc(w.zeroVal(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
			}
		}
		return zeroIntr(fn)
	case "crypto/internal/fips140only", "internal/race", "internal/msan", "internal/asan", "crypto/internal/boring":
		return zeroIntr(fn)
	case "crypto/internal/rand", "crypto/internal/sysrand", "crypto/internal/fips140/drbg":
		if fn.Name() == "Read" {
			return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
				s := a[len(a)-1].(Slice)
				w.fillRandom(s)
				if fn.Signature.Results().Len() == 2 {
					return Tuple{s.len, Iface{}}
				}
				return nil
			}
		}
	case "os":
		if fn.Name() == "Exit" {
			return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
				panic(&goPanic{v: Iface{t: types.Typ[types.String], v: w.strRope("exit")}, msg: "os.Exit", where: w.where()})
			}
		}
	}
	return nil
}

func zeroIntr(fn *ssa.Function) intrFn {
	return func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.zeroResult(fn) }
}

func (w *Worker) fillRandom(s Slice) {
	n := int(w.concretize(s.len, 4096))
	b := make([]*Term, n)
	k := w.p.fresh
	w.p.fresh++
	for i := range b {
		b[i] = w.T.Var(fmt.Sprintf("rand#%d.%d", k, i), 8)
	}
	w.p.stubbed = true
	if n > 0 {
		w.writeBytes(s.a.(*ByteArr), s.off, w.litRope(b))
	}
}

// ---- helpers ------------------------------------------------------------------------

func (w *Worker) rope(v Value) *Rope {
	switch x := v.(type) {
	case *Rope:
		return x
	case Slice:
		return w.sliceRope(x)
	}
	w.unsupported("byte contents of %T", v)
	return nil
}

func (w *Worker) conStr(v Value) string {
	s, ok := w.rope(v).concrete()
	if !ok {
		w.unsupported("constant text expected")
	}
	return s
}

func (w *Worker) conInt(v Value) int64 {
	t := v.(*Term)
	if t.op != OConst {
		return sext(w.concretize(t, 600), t.w)
	}
	return sext(t.c, t.w)
}

func (w *Worker) inputName(n string) string {
	p := w.p
	p.names[n]++
	if k := p.names[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (w *Worker) addInput(in input) { w.p.inputs = append(w.p.inputs, in) }

// ranged: a variable with lo <= v <= hi (unsigned).
func (w *Worker) ranged(name string, wd uint8, lo, hi uint64) *Term {
	if lo == hi {
		return w.T.Const(wd, lo)
	}
	if lo == 0 && hi == mask(wd) {
		return w.T.Var(name, wd)
	}
	v := w.T.RangedVar(fmt.Sprintf("%s@%d-%d:%d", name, lo, hi, wd), wd, lo, hi)
	raw := func(a, b *Term) *Term { // not (a < b)
		l := w.T.intern(&Term{op: OUlt, w: 0, args: []*Term{a, b}})
		return w.T.intern(&Term{op: OBNot, w: 0, args: []*Term{l}})
	}
	if lo > 0 {
		w.p.conds = append(w.p.conds, raw(v, w.T.Const(wd, lo)))
	}
	if hi < mask(wd) {
		w.p.conds = append(w.p.conds, raw(w.T.Const(wd, hi), v))
	}
	return v
}

func (w *Worker) mkErr(r *Rope) Iface {
	t := w.eng.typeByName("errors", "errorString")
	st := under(t).(*types.Struct)
	return Iface{t: types.NewPointer(t), v: w.alloc(&SVal{t: st, f: []Value{r}})}
}

func (w *Worker) opaqueStr(what string, lo, hi uint64) *Rope {
	k := w.p.fresh
	w.p.fresh++
	name := fmt.Sprintf("%s#%d", what, k)
	n := w.ranged(name+".len", 64, lo, hi)
	if n.op == OConst && n.c == 0 {
		return w.emptyRope
	}
	return &Rope{segs: []Seg{{kind: 1, blob: name, off: w.zero, n: n}}, n: n}
}

// app: application of an uninterpreted function to bytes, giving n bytes.
func (w *Worker) app(fn string, arg *Rope, n int, real func([]byte) []byte, ranges func(i int) (uint64, uint64)) *Rope {
	if r := w.appTable(fn, arg, n, real); r != nil {
		return r
	}
	return w.appOut(fn, arg, real, func(name string) *Rope {
		out := make([]*Term, n)
		for i := range out {
			if ranges != nil {
				lo, hi := ranges(i)
				out[i] = w.ranged(fmt.Sprintf("%s.%d", name, i), 8, lo, hi)
			} else {
				out[i] = w.T.Var(fmt.Sprintf("%s.%d", name, i), 8)
			}
		}
		return w.litRope(out)
	})
}

// tabulate computes a function of bytes that depend on one symbolic byte only for each of its values; one path per
// length of the result (a nil result counts as a length of its own).
func (w *Worker) tabulate(arg *Rope, real func([]byte) []byte) *Rope {
	if !arg.isLit() {
		return nil
	}
	l := arg.lit()
	b := commonBase(l)
	if b == nil {
		return nil
	}
	n := uint64(1) << b.w
	res := make([][]byte, n)
	in := make([]byte, len(l))
	lens := map[int]bool{}
	var order []int
	for v := uint64(0); v < n; v++ {
		for i, t := range l {
			in[i] = byte(tabVal(t, v))
		}
		res[v] = real(in)
		if k := len(res[v]); !lens[k] {
			lens[k] = true
			order = append(order, k)
		}
	}
	for j, k := range order {
		tab := make([]uint64, n)
		for v := range tab {
			if len(res[v]) == k {
				tab[v] = 1
			}
		}
		if j < len(order)-1 && !w.decide(w.T.Eq(w.T.Table(8, tab, b), w.bytes[1])) {
			continue
		}
		out := make([]*Term, k)
		for i := range out {
			t := make([]uint64, n)
			for v := range t {
				if len(res[v]) == k {
					t[v] = uint64(res[v][i])
				} else if v > 0 {
					t[v] = t[v-1]
				}
			}
			out[i] = w.T.Table(8, t, b)
		}
		return w.litRope(out)
	}
	return nil
}

// appTable: the hash of bytes that depend on one symbolic byte only is computed for each of its values.
func (w *Worker) appTable(fn string, arg *Rope, n int, real func([]byte) []byte) *Rope {
	if real == nil || fn != "sha256" && fn != "ripemd160" || !arg.isLit() {
		return nil
	}
	l := arg.lit()
	b := commonBase(l)
	if b == nil {
		return nil
	}
	tabs := make([][]uint64, n)
	for i := range tabs {
		tabs[i] = make([]uint64, 1<<b.w)
	}
	in := make([]byte, len(l))
	for v := uint64(0); v < 1<<b.w; v++ {
		for i, t := range l {
			in[i] = byte(tabVal(t, v))
		}
		for i, x := range real(in) {
			tabs[i][v] = uint64(x)
		}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = w.T.Table(8, tabs[i], b)
	}
	return w.litRope(out)
}

func (w *Worker) appOut(fn string, arg *Rope, real func([]byte) []byte, mk func(name string) *Rope) *Rope {
	if s, ok := arg.concrete(); ok && real != nil {
		return w.strRope(string(real([]byte(s))))
	}
	if w.p == nil || w.initDepth > 0 {
		w.unsupported("%s of a symbolic value in package initialisation", fn)
	}
	k := fn + "|" + arg.key()
	if i, ok := w.p.appKey[k]; ok {
		return w.p.apps[i].out
	}
	i := len(w.p.apps)
	out := mk(fmt.Sprintf("%s#%d", fn, i))
	w.p.apps = append(w.p.apps, hashApp{fn: fn, arg: arg, out: out, real: real})
	w.p.appKey[k] = i
	return out
}

// freshBytes makes a new slice (capacity = length) holding r.
func (w *Worker) freshBytes(r *Rope) Slice {
	if r.n == w.zero {
		return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: []*Term{}}, off: w.zero, len: w.zero, cap: w.zero}
	}
	return w.byteSlice(r)
}

// ---- vsym -----------------------------------------------------------------------------

func regVsym() {
	num := func(kind string, wd uint8) intrFn {
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			n := w.inputName(w.conStr(a[0]))
			t := w.T.Var(n, wd)
			w.addInput(input{name: n, kind: kind, ts: []*Term{t}})
			return t
		}
	}
	intrTab[vs+"U8"] = num("u8", 8)
	intrTab[vs+"U16"] = num("u16", 16)
	intrTab[vs+"U32"] = num("u32", 32)
	intrTab[vs+"U64"] = num("u64", 64)
	intrTab[vs+"Int"] = num("u64", 64)
	intrTab[vs+"Bool"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		t := w.ranged(n, 8, 0, 1)
		w.addInput(input{name: n, kind: "bool", ts: []*Term{t}})
		return w.T.Eq(t, w.bytes[1])
	}
	intrTab[vs+"Range"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		lo, hi := w.conInt(a[1]), w.conInt(a[2])
		t := w.ranged(n, 64, uint64(lo), uint64(hi))
		w.addInput(input{name: n, kind: "u64", ts: []*Term{t}})
		return t
	}
	// Choose: a concrete value, one path per value
	intrTab[vs+"Choose"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		lo, hi := w.conInt(a[1]), w.conInt(a[2])
		t := w.ranged(n, 64, uint64(lo), uint64(hi))
		w.addInput(input{name: n, kind: "u64", ts: []*Term{t}})
		return w.T.Const(64, w.concretize(t, 100000))
	}
	bytesIn := func(w *Worker, name string, n int) []*Term {
		b := make([]*Term, n)
		for i := range b {
			b[i] = w.T.Var(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		w.addInput(input{name: name, kind: "bytes", ts: append([]*Term(nil), b...)}) // b becomes memory, which may be written
		return b
	}
	intrTab[vs+"Bytes"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		k := int(w.conInt(a[1]))
		return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: bytesIn(w, n, k)}, off: w.zero, len: w.cint(k), cap: w.cint(k)}
	}
	// BytesCap: n bytes with spare extra capacity of arbitrary content
	intrTab[vs+"BytesCap"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		k, sp := int(w.conInt(a[1])), int(w.conInt(a[2]))
		return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: bytesIn(w, n, k+sp)}, off: w.zero, len: w.cint(k), cap: w.cint(k + sp)}
	}
	intrTab[vs+"Str"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		return w.litRope(bytesIn(w, n, int(w.conInt(a[1]))))
	}
	intrTab[vs+"Blob"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		lo, hi := w.conInt(a[1]), w.conInt(a[2])
		l := w.ranged(n+".len", 64, uint64(lo), uint64(hi))
		w.addInput(input{name: n, kind: "blob", blob: n, n: l})
		r := &Rope{segs: []Seg{{kind: 1, blob: n, off: w.zero, n: l}}, n: l}
		return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, r: r}, off: w.zero, len: l, cap: l}
	}
	intrTab[vs+"Assume"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		w.assume(a[0].(*Term))
		return nil
	}
	intrTab[vs+"Assert"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		w.assert(a[0].(*Term), w.conStr(a[1]))
		return nil
	}
	eq := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		w.assertEq(w.rope(a[0]), w.rope(a[1]), w.conStr(a[2]))
		return nil
	}
	intrTab[vs+"EqBytes"] = eq
	intrTab[vs+"EqStr"] = eq
	intrTab[vs+"Cover"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		w.p.covers = append(w.p.covers, w.conStr(a[0]))
		return nil
	}
	intrTab[vs+"WantCover"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		w.h.mu.Lock()
		w.h.wantCov[w.conStr(a[0])] = true
		w.h.mu.Unlock()
		return nil
	}
	intrTab[vs+"Thorough"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.T.Bool(w.eng.thorough)
	}
	intrTab[vs+"Panics"] = func(w *Worker, _ *ssa.CallCommon, a []Value) (res Value) {
		depth := w.p.depth
		cur, fr := w.cur, w.curFr
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*goPanic); !ok {
					panic(r)
				}
				w.p.depth = depth
				w.cur, w.curFr = cur, fr
				res = w.T.True
			}
		}()
		w.callValue(w.curFr, a[0], nil)
		return w.T.False
	}
	intrTab[vs+"PrivKey"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := w.inputName(w.conStr(a[0]))
		key := w.litRope(bytesIn(w, n, 32))
		return w.newPriv(key)
	}
	intrTab[vs+"blockUF"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.freshBytes(w.app("block", w.rope(a[0]), 16, realBlock, nil))
	}
	intrTab[vs+"SameMemory"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return w.overlap(x.a, x.off, x.cap, y.a, y.off, y.cap)
	}
	intrTab[vs+"IsSymbolic"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.T.True }
}

func (w *Worker) overlap(a Container, ao, al *Term, b Container, bo, bl *Term) *Term {
	if a == nil || a != b {
		return w.T.False
	}
	T := w.T
	return T.BAnd(T.Ult(ao, T.Add(bo, bl)), T.Ult(bo, T.Add(ao, al)))
}

// assertEq asserts byte-wise equality of two ropes.
func (w *Worker) assertEq(a, b *Rope, label string) {
	if e, ok := w.ropeEq(a, b); ok {
		w.assert(e, label)
		return
	}
	w.assert(w.T.Eq(a.n, b.n), label)
	if e, ok := w.ropeEq(a, b); ok {
		w.assert(e, label)
		return
	}
	// every index
	k := w.p.fresh
	w.p.fresh++
	i := w.T.Var(fmt.Sprintf("index#%d", k), 64)
	c := w.T.Ult(i, a.n)
	if c.IsFalse() {
		return
	}
	w.assert(w.T.BOr(w.T.BNot(c), w.T.Eq(w.byteAt(a, i), w.byteAt(b, i))), label)
}

// ---- hashes ---------------------------------------------------------------------------

type digest struct {
	buf  *Rope
	fn   string
	size int
	blk  int
	real func([]byte) []byte
}

func (w *Worker) newDigest(fn string, size, blk int, real func([]byte) []byte) Value {
	d := &digest{buf: w.emptyRope, fn: fn, size: size, blk: blk, real: real}
	n := &NativeObj{objHdr: objHdr{w.epoch()}, kind: fn, data: d}
	n.methods = map[string]func(w *Worker, args []Value) Value{
		"Write": func(w *Worker, a []Value) Value {
			r := w.rope(a[0])
			d.buf = w.concat(d.buf, r)
			return Tuple{r.n, Iface{}}
		},
		"WriteString": func(w *Worker, a []Value) Value {
			r := w.rope(a[0])
			d.buf = w.concat(d.buf, r)
			return Tuple{r.n, Iface{}}
		},
		"Sum": func(w *Worker, a []Value) Value {
			h := w.app(d.fn, d.buf, d.size, d.real, nil)
			return w.appendSlice(a[0].(Slice), types.Typ[types.Uint8], h)
		},
		"Reset":     func(w *Worker, a []Value) Value { d.buf = w.emptyRope; return nil },
		"Size":      func(w *Worker, a []Value) Value { return w.cint(d.size) },
		"BlockSize": func(w *Worker, a []Value) Value { return w.cint(d.blk) },
	}
	return Iface{t: types.NewPointer(types.Typ[types.UntypedNil]), v: n}
}

func regHash() {
	intrTab["crypto/sha256.Sum256"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return &AVal{isB: true, b: w.app("sha256", w.rope(a[0]), 32, realSha256, nil).lit()}
	}
	intrTab["crypto/sha256.New"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.newDigest("sha256", 32, 64, realSha256)
	}
	intrTab["golang.org/x/crypto/ripemd160.New"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.newDigest("ripemd160", 20, 64, realRipemd)
	}
}

// ---- keys -----------------------------------------------------------------------------

// tag identifies the abstract value behind a big.Int pointer of a key or signature.
type tag struct {
	objHdr
	kind string // priv, hd, sig
	r    *Rope
}

func fixKey(b []byte) []byte {
	k := append([]byte(nil), b...)
	if len(k) == 32 {
		k[0] &= 0x7f
		k[31] |= 1
	}
	return k
}

func realPubC(b []byte) []byte {
	_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), fixKey(b))
	return pub.SerializeCompressed()
}

func realPubU(b []byte) []byte {
	_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), fixKey(b))
	return pub.SerializeUncompressed()
}

func realSign(b []byte) []byte {
	priv, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), fixKey(b[:32]))
	s, err := priv.Sign(b[32:])
	if err != nil {
		return nil
	}
	return s.Serialize()
}

const bsvecP = "github.com/bitcoinsv/bsvd/bsvec."
const b58P = "github.com/bitcoinsv/bsvutil/base58."
const hdP = "github.com/bitcoinsv/bsvutil/hdkeychain."

func fieldIndex(t types.Type, name string) int {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (w *Worker) tagPtr(kind string, r *Rope) Ptr {
	return Ptr{c: &tag{objHdr: objHdr{w.epoch()}, kind: kind, r: r}, whole: true}
}

func (w *Worker) newPub(kind string, r *Rope) Ptr {
	t := w.eng.typeByName("github.com/bitcoinsv/bsvd/bsvec", "PublicKey")
	v := w.zeroVal(t).(*SVal)
	v.f[fieldIndex(t, "X")] = w.tagPtr(kind, r)
	return w.alloc(v)
}

func (w *Worker) newPriv(key *Rope) Ptr {
	t := w.eng.typeByName("github.com/bitcoinsv/bsvd/bsvec", "PrivateKey")
	v := w.zeroVal(t).(*SVal)
	v.f[fieldIndex(t, "D")] = w.tagPtr("priv", key)
	pt := w.eng.typeByName("github.com/bitcoinsv/bsvd/bsvec", "PublicKey")
	pub := v.f[fieldIndex(t, "PublicKey")].(*SVal)
	pub.f[fieldIndex(pt, "X")] = w.tagPtr("priv", key)
	return w.alloc(v)
}

func (w *Worker) tagOf(p Ptr, t string, field string) *tag {
	if p.c == nil {
		w.nilDeref()
	}
	o, ok := p.c.(*StructObj)
	if ok {
		tt := w.eng.typeByName("github.com/bitcoinsv/bsvd/bsvec", t)
		if fp, ok := o.f[fieldIndex(tt, field)].(Ptr); ok {
			if tg, ok := fp.c.(*tag); ok {
				return tg
			}
			if fp.c == nil {
				w.nilDeref()
			}
		}
	}
	w.unsupported("key that does not come from the harness")
	return nil
}

func pubRange(i int) (uint64, uint64) {
	if i == 0 {
		return 2, 3
	}
	return 0, 255
}

func regKeys() {
	intrTab["(*"+bsvecP+"PublicKey).SerializeCompressed"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		tg := w.tagOf(a[0].(Ptr), "PublicKey", "X")
		if tg.kind == "hd" {
			return w.freshBytes(w.app("hdpub", tg.r, 33, realHdPub, pubRange))
		}
		return w.freshBytes(w.app("pubkey", tg.r, 33, realPubC, pubRange))
	}
	intrTab["(*"+bsvecP+"PublicKey).SerializeUncompressed"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		tg := w.tagOf(a[0].(Ptr), "PublicKey", "X")
		if tg.kind == "hd" {
			w.unsupported("uncompressed derived key")
		}
		return w.freshBytes(w.app("pubkeyU", tg.r, 65, realPubU, func(i int) (uint64, uint64) {
			if i == 0 {
				return 4, 4
			}
			return 0, 255
		}))
	}
	intrTab["(*"+bsvecP+"PrivateKey).Sign"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		tg := w.tagOf(a[0].(Ptr), "PrivateKey", "D")
		r := w.concat(tg.r, w.rope(a[1]))
		t := w.eng.typeByName("github.com/bitcoinsv/bsvd/bsvec", "Signature")
		v := w.zeroVal(t).(*SVal)
		v.f[fieldIndex(t, "R")] = w.tagPtr("sig", r)
		return Tuple{w.alloc(v), Iface{}}
	}
	intrTab["(*"+bsvecP+"Signature).Serialize"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		tg := w.tagOf(a[0].(Ptr), "Signature", "R")
		out := w.appOut("sign", tg.r, realSign, func(name string) *Rope {
			n := w.ranged(name+".len", 64, 8, 72)
			return &Rope{segs: []Seg{{kind: 1, blob: name, off: w.zero, n: n}}, n: n}
		})
		return w.freshBytes(out)
	}
	// base58 of the third-party library: an injective function with inverse Decode
	intrTab[b58P+"Encode"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.b58enc(w.rope(a[0]))
	}
	intrTab[b58P+"Decode"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		r := w.rope(a[0])
		if s, ok := r.concrete(); ok {
			return w.freshBytes(w.strRope(string(base58.Decode(s))))
		}
		if p := w.b58payload(r); p != nil {
			return w.freshBytes(p)
		}
		if t := w.tabulate(r, func(b []byte) []byte { return base58.Decode(string(b)) }); t != nil {
			return w.freshBytes(t)
		}
		if !r.isLit() || len(r.lit()) > 12 {
			w.unsupported("base58 decoding of a long symbolic string")
		}
		return w.b58decodeSym(r)
	}
	// BIP32 derivation: uninterpreted
	intrTab[hdP+"NewKeyFromString"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		r := w.rope(a[0])
		key := r
		if p := w.b58payload(r); p != nil {
			key = p
		} else if s, ok := r.concrete(); ok {
			if d := base58.Decode(s); len(d) == 82 {
				key = w.strRope(string(d))
			}
		}
		okT := w.app("hdkey", key, 1, realHdKey, func(int) (uint64, uint64) { return 0, 1 }).lit()[0]
		if !w.decide(w.T.Eq(okT, w.bytes[1])) {
			return Tuple{Ptr{}, w.mkErr(w.strRope("invalid extended key"))}
		}
		return Tuple{w.tagPtr("xkey", key), Iface{}}
	}
	intrTab["(*"+hdP+"ExtendedKey).Child"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		p := a[0].(Ptr)
		if p.c == nil {
			w.nilDeref()
		}
		tg, ok := p.c.(*tag)
		if !ok {
			w.unsupported("extended key that does not come from a string")
		}
		i := a[1].(*Term)
		ib := []*Term{w.T.Extract(i, 31, 24), w.T.Extract(i, 23, 16), w.T.Extract(i, 15, 8), w.T.Extract(i, 7, 0)}
		r := w.concat(tg.r, w.litRope(ib))
		okT := w.app("hdchild", r, 1, realHdChild, func(int) (uint64, uint64) { return 0, 1 }).lit()[0]
		if !w.decide(w.T.Eq(okT, w.bytes[1])) {
			return Tuple{Ptr{}, w.mkErr(w.strRope("invalid child"))}
		}
		return Tuple{w.tagPtr("xkey", r), Iface{}}
	}
	intrTab["(*"+hdP+"ExtendedKey).ECPubKey"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		p := a[0].(Ptr)
		if p.c == nil {
			w.nilDeref()
		}
		tg, ok := p.c.(*tag)
		if !ok {
			w.unsupported("extended key that does not come from a string")
		}
		return Tuple{w.newPub("hd", tg.r), Iface{}}
	}
}

// hdWalk: key data = 82 byte payload (with checksum) followed by 4-byte big-endian indices.
func hdWalk(b []byte) *hdkeychain.ExtendedKey {
	if len(b) < 82 {
		return nil
	}
	k, err := hdkeychain.NewKeyFromString(base58.Encode(b[:82]))
	if err != nil {
		return nil
	}
	for p := b[82:]; len(p) >= 4; p = p[4:] {
		k, err = k.Child(uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3]))
		if err != nil {
			return nil
		}
	}
	return k
}

func b2b(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

func realHdKey(b []byte) []byte {
	if len(b) != 82 {
		_, err := hdkeychain.NewKeyFromString(string(b))
		return b2b(err == nil)
	}
	return b2b(hdWalk(b) != nil)
}
func realHdChild(b []byte) []byte { return b2b(hdWalk(b) != nil) }
func realHdPub(b []byte) []byte {
	k := hdWalk(b)
	if k == nil {
		return make([]byte, 33)
	}
	p, err := k.ECPubKey()
	if err != nil {
		return make([]byte, 33)
	}
	return p.SerializeCompressed()
}

func realB58(b []byte) []byte { return []byte(base58.Encode(b)) }

func (w *Worker) b58enc(r *Rope) *Rope {
	if t := w.tabulate(r, realB58); t != nil {
		return t
	}
	out := w.appOut("b58", r, realB58, func(name string) *Rope {
		var lo, hi uint64 = 0, 1 << 20
		if r.isLit() {
			lo = uint64(len(r.lit()))
			hi = lo*138/100 + 1
		}
		n := w.ranged(name+".len", 64, lo, hi)
		if n.op == OConst && n.c == 0 {
			return w.emptyRope
		}
		return &Rope{segs: []Seg{{kind: 1, blob: name, off: w.zero, n: n}}, n: n}
	})
	return out
}

// b58payload: the bytes whose encoding r is, if r is the result of an Encode application.
func (w *Worker) b58payload(r *Rope) *Rope {
	if w.p == nil || len(r.segs) != 1 || r.segs[0].kind != 1 {
		return nil
	}
	for i := range w.p.apps {
		a := &w.p.apps[i]
		if a.fn == "b58" && len(a.out.segs) == 1 && a.out.segs[0].blob == r.segs[0].blob && a.out.segs[0].off == r.segs[0].off && a.out.n == r.n {
			return a.arg
		}
	}
	return nil
}

var b58alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// b58decodeSym models base58.Decode on a short symbolic string: value by Horner's rule in 128 bits, bytes by length.
func (w *Worker) b58decodeSym(r *Rope) Value {
	T := w.T
	tab := make([]uint64, 256)
	bad := make([]uint64, 256)
	for i := range tab {
		k := strings.IndexByte(b58alpha, byte(i))
		if k < 0 {
			bad[i] = 1
		} else {
			tab[i] = uint64(k)
		}
	}
	l := r.lit()
	if len(l) > 10 {
		w.unsupported("base58 decoding of more than 10 symbolic characters")
	}
	for _, c := range l {
		if w.decide(T.Eq(T.Table(8, bad, c), w.bytes[1])) {
			return w.freshBytes(w.emptyRope)
		}
	}
	zeros := 0
	for zeros < len(l) && w.decide(T.Eq(l[zeros], w.bytes['1'])) {
		zeros++
	}
	v := w.zero
	for _, c := range l {
		v = T.Add(T.Mul(v, T.Const(64, 58)), T.Table(64, tab, c))
	}
	n := 0
	for n < 8 && !w.decide(T.Ult(v, T.Const(64, uint64(1)<<(8*uint(n))))) {
		n++
	}
	b := make([]*Term, 0, zeros+n)
	for i := 0; i < zeros; i++ {
		b = append(b, w.bytes[0])
	}
	for i := n - 1; i >= 0; i-- {
		b = append(b, T.Extract(v, uint8(8*i+7), uint8(8*i)))
	}
	return w.freshBytes(w.litRope(b))
}

// ---- bytes and strings -----------------------------------------------------------------

// indexByte: first position of c in r as a term (-1: none).
func (w *Worker) indexByte(r *Rope, c *Term) *Term {
	T := w.T
	if !r.isLit() {
		w.unsupported("search in a symbolic-length string")
	}
	l := r.lit()
	none := T.Const(64, ^uint64(0))
	allc := true
	for _, x := range l {
		if x.op != OConst {
			allc = false
			break
		}
	}
	if allc {
		if b := baseOf(c); b != nil {
			tab := make([]uint64, 256)
			for i := range tab {
				tab[i] = none.c
				for k, x := range l {
					if x.c == uint64(i) {
						tab[i] = uint64(k)
						break
					}
				}
			}
			return T.Table(64, tab, c)
		}
	}
	for i, x := range l {
		if w.decide(T.Eq(x, c)) {
			return w.cint(i)
		}
	}
	return none
}

func (w *Worker) lastIndexByte(r *Rope, c *Term) *Term {
	if !r.isLit() {
		w.unsupported("search in a symbolic-length string")
	}
	l := r.lit()
	for i := len(l) - 1; i >= 0; i-- {
		if w.decide(w.T.Eq(l[i], c)) {
			return w.cint(i)
		}
	}
	return w.T.Const(64, ^uint64(0))
}

func (w *Worker) indexRope(s, sub *Rope) *Term {
	if !s.isLit() || !sub.isLit() {
		w.unsupported("search in a symbolic-length string")
	}
	n, m := len(s.lit()), len(sub.lit())
	for i := 0; i+m <= n; i++ {
		e, _ := w.ropeEq(w.litRope(s.lit()[i:i+m]), sub)
		if w.decide(e) {
			return w.cint(i)
		}
	}
	return w.T.Const(64, ^uint64(0))
}

func regBytes() {
	ib := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.indexByte(w.rope(a[0]), a[1].(*Term)) }
	lib := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.lastIndexByte(w.rope(a[0]), a[1].(*Term))
	}
	ix := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.indexRope(w.rope(a[0]), w.rope(a[1])) }
	cmp := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.T.Const(64, uint64(int64(w.cmpRope(w.rope(a[0]), w.rope(a[1])))))
	}
	cnt := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		r := w.rope(a[0])
		if !r.isLit() {
			w.unsupported("count in a symbolic-length string")
		}
		n := 0
		for _, x := range r.lit() {
			if w.decide(w.T.Eq(x, a[1].(*Term))) {
				n++
			}
		}
		return w.cint(n)
	}
	const ba = "internal/bytealg."
	intrTab[ba+"IndexByte"], intrTab[ba+"IndexByteString"] = ib, ib
	intrTab[ba+"LastIndexByte"], intrTab[ba+"LastIndexByteString"] = lib, lib
	intrTab[ba+"Index"], intrTab[ba+"IndexString"] = ix, ix
	intrTab["strings.Index"], intrTab["bytes.Index"], intrTab["internal/stringslite.Index"] = ix, ix, ix
	intrTab[ba+"Compare"], intrTab[ba+"CompareString"] = cmp, cmp
	intrTab["strings.Compare"], intrTab["bytes.Compare"] = cmp, cmp
	intrTab["runtime.cmpstring"] = cmp
	intrTab[ba+"Count"], intrTab[ba+"CountString"] = cnt, cnt
	eq := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.eqVal(nil, w.rope(a[0]), w.rope(a[1])) }
	intrTab[ba+"Equal"], intrTab["bytes.Equal"] = eq, eq
	intrTab[ba+"MakeNoZero"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		n := a[0].(*Term)
		return w.makeSlice(types.Typ[types.Uint8], n, n)
	}
	none := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return nil }
	intrTab["(*strings.Builder).copyCheck"] = none
	intrTab["crypto/subtle.XORBytes"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		d, x, y := a[0].(Slice), w.rope(a[1]), w.rope(a[2])
		nx, ny := int(w.concretize(x.n, 4096)), int(w.concretize(y.n, 4096))
		n := nx
		if ny < n {
			n = ny
		}
		if n == 0 {
			return w.zero
		}
		if int(w.concretize(d.len, 4096)) < n {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: w.strRope("subtle.XORBytes: dst too short")}, msg: "subtle.XORBytes: dst too short", where: w.where()})
		}
		out := make([]*Term, n)
		for i := range out {
			out[i] = w.T.Xor(w.byteAt(x, w.cint(i)), w.byteAt(y, w.cint(i)))
		}
		w.writeBytes(d.a.(*ByteArr), d.off, w.litRope(out))
		return w.cint(n)
	}
	inexact := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.a == nil || x.a != y.a {
			return w.T.False
		}
		T := w.T
		return T.BAnd(T.BNot(T.Eq(x.off, y.off)), w.overlap(x.a, x.off, x.len, y.a, y.off, y.len))
	}
	anyo := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return w.overlap(x.a, x.off, x.len, y.a, y.off, y.len)
	}
	for _, p := range []string{"crypto/internal/fips140/alias.", "crypto/internal/alias."} {
		intrTab[p+"InexactOverlap"] = inexact
		intrTab[p+"AnyOverlap"] = anyo
	}
}

// ---- runtime services -------------------------------------------------------------------

func atomicIntr(fn *ssa.Function) intrFn {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil // methods run from source on top of the functions
	}
	rt := func() types.Type {
		return under(fn.Signature.Params().At(0).Type()).(*types.Pointer).Elem()
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.load(a[0].(Ptr), rt()) }
	case strings.HasPrefix(n, "Store"):
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value { w.store(a[0].(Ptr), a[1]); return nil }
	case strings.HasPrefix(n, "Add"):
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			v := w.T.Add(w.load(a[0].(Ptr), rt()).(*Term), a[1].(*Term))
			w.store(a[0].(Ptr), v)
			return v
		}
	case strings.HasPrefix(n, "Swap"):
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			v := w.load(a[0].(Ptr), rt())
			w.store(a[0].(Ptr), a[1])
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			v := w.load(a[0].(Ptr), rt())
			if w.decide(w.eqVal(rt(), v, a[1])) {
				w.store(a[0].(Ptr), a[2])
				return w.T.True
			}
			return w.T.False
		}
	}
	return nil
}

func regRuntime() {
	none := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched",
		"runtime.SetFinalizer"} {
		intrTab[n] = none
	}
	intrTab["(*sync.Mutex).TryLock"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.T.True }
	intrTab["(*sync.Pool).Get"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		p := a[0].(Ptr)
		t := w.eng.typeByName("sync", "Pool")
		f := w.load(Ptr{c: p.c, f: fieldIndex(t, "New")}, nil)
		if fn, ok := f.(*Func); ok && fn != nil {
			return w.callValue(w.curFr, fn, nil)
		}
		return Iface{}
	}
	intrTab["(*sync.Once).Do"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		p := a[0].(Ptr)
		if p.c == nil {
			w.nilDeref()
		}
		o := p.c.(*StructObj)
		k := fmt.Sprintf("once%p", o)
		if o.epoch == 0 {
			if w.onces[o] {
				return nil
			}
			w.onces[o] = true
		} else {
			if w.p.uf[k] != nil {
				return nil
			}
			w.p.uf[k] = w.T.True
		}
		init := o.epoch == 0
		if init {
			w.initDepth++
		}
		defer func() {
			if init {
				w.initDepth--
			}
		}()
		w.callValue(w.curFr, a[1], nil)
		return nil
	}
	swapper := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &Func{nat: func(w *Worker, b []Value) Value {
			i, j := int(w.conInt(b[0])), int(w.conInt(b[1]))
			pi := w.elemPtr(s.a, w.T.Add(s.off, w.cint(i))).(Ptr)
			pj := w.elemPtr(s.a, w.T.Add(s.off, w.cint(j))).(Ptr)
			x, y := w.load(pi, nil), w.load(pj, nil)
			w.store(pi, y)
			w.store(pj, x)
			return nil
		}}
	}
	intrTab["internal/reflectlite.Swapper"] = swapper
	intrTab["reflect.Swapper"] = swapper
	intrTab["internal/reflectlite.ValueOf"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		t := w.eng.typeByName("internal/reflectlite", "Value")
		v := w.zeroVal(t).(*SVal)
		v.f[1] = Ptr{c: &Cell{v: a[0]}}
		return v
	}
	intrTab["(internal/reflectlite.Value).Len"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		c := a[0].(*SVal).f[1].(Ptr).c.(*Cell)
		switch x := c.v.(Iface).v.(type) {
		case Slice:
			return x.len
		case *Rope:
			return x.n
		}
		w.unsupported("reflect Len")
		return nil
	}
	intrTab["reflect.DeepEqual"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return w.T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.T.False
		}
		return w.deepEq(x.t, x.v, y.v, 0)
	}
	intrTab["internal/bytealg.abigen_runtime_memequal"] = none
}

func (w *Worker) deepEq(t types.Type, x, y Value, depth int) *Term {
	if depth > 50 {
		w.unsupported("DeepEqual of deep values")
	}
	T := w.T
	switch u := under(t).(type) {
	case *types.Pointer:
		a, b := x.(Ptr), y.(Ptr)
		if a.c == nil || b.c == nil {
			return T.Bool(a.c == nil && b.c == nil)
		}
		if a.c == b.c && a.f == b.f && a.i == b.i {
			return T.True
		}
		return w.deepEq(u.Elem(), w.load(a, u.Elem()), w.load(b, u.Elem()), depth+1)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a.a == nil) != (b.a == nil) {
			return T.False
		}
		if isByteType(u.Elem()) {
			return w.eqVal(nil, w.sliceRope(a), w.sliceRope(b))
		}
		if !w.decide(T.Eq(a.len, b.len)) {
			return T.False
		}
		ea, eb := w.sliceElems(a), w.sliceElems(b)
		r := T.True
		for i := range ea {
			r = T.BAnd(r, w.deepEq(u.Elem(), ea[i], eb[i], depth+1))
		}
		return r
	case *types.Struct:
		a, b := x.(*SVal), y.(*SVal)
		r := T.True
		for i := range a.f {
			r = T.BAnd(r, w.deepEq(u.Field(i).Type(), a.f[i], b.f[i], depth+1))
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return T.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return T.False
		}
		return w.deepEq(a.t, a.v, b.v, depth+1)
	}
	return w.eqVal(t, x, y)
}
