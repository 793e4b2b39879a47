package main

// Formatting and regular expressions over symbolic text.

import (
	"crypto/aes"
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// realBlock: the block cipher behind vsym's uninterpreted one.
func realBlock(b []byte) []byte {
	if len(b) != 16 {
		return make([]byte, 16)
	}
	c, err := aes.NewCipher([]byte("verif-block-key!"))
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	c.Encrypt(out, b)
	return out
}

// ---- fmt ------------------------------------------------------------------------------

// nativeArg converts a fully concrete value of a simple type.
func (w *Worker) nativeArg(v Iface) (interface{}, bool) {
	if v.t == nil {
		return nil, true
	}
	if ms := types.NewMethodSet(v.t); ms.Len() > 0 {
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "Error", "String", "Format", "GoString":
				return nil, false
			}
		}
	}
	switch x := v.v.(type) {
	case *Term:
		if x.op != OConst {
			return nil, false
		}
		b, ok := under(v.t).(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.c != 0, true
		case types.Int:
			return int(x.c), true
		case types.Int8:
			return int8(x.c), true
		case types.Int16:
			return int16(x.c), true
		case types.Int32:
			return int32(x.c), true
		case types.Int64:
			return int64(x.c), true
		case types.Uint:
			return uint(x.c), true
		case types.Uint8:
			return uint8(x.c), true
		case types.Uint16:
			return uint16(x.c), true
		case types.Uint32:
			return uint32(x.c), true
		case types.Uint64, types.Uintptr:
			return x.c, true
		}
	case *Rope:
		s, ok := x.concrete()
		return s, ok
	case Float:
		if b, ok := under(v.t).(*types.Basic); ok && b.Kind() == types.Float32 {
			return float32(x), true
		}
		return float64(x), true
	case Slice:
		st, ok := under(v.t).(*types.Slice)
		if !ok || !isByteType(st.Elem()) {
			return nil, false
		}
		if x.a == nil {
			return []byte(nil), true
		}
		if x.len.op != OConst {
			return nil, false
		}
		s, ok := w.sliceRope(x).concrete()
		return []byte(s), ok
	}
	return nil, false
}

func (w *Worker) hexDigits(b *Term, upper bool) []*Term {
	tab := make([]uint64, 16)
	d := "0123456789abcdef"
	if upper {
		d = "0123456789ABCDEF"
	}
	for i := range tab {
		tab[i] = uint64(d[i])
	}
	if bs := baseOf(b); bs != nil && bs.w == 8 && b.w == 8 {
		hi, lo := make([]uint64, 256), make([]uint64, 256)
		for i := 0; i < 256; i++ {
			hi[i], lo[i] = uint64(d[i>>4]), uint64(d[i&15])
		}
		return []*Term{w.T.Table(8, hi, b), w.T.Table(8, lo, b)}
	}
	h := w.T.Zext(w.T.Extract(b, 7, 4), 8)
	l := w.T.Zext(w.T.Extract(b, 3, 0), 8)
	f := func(n *Term) *Term {
		a := uint64('a' - 10)
		if upper {
			a = 'A' - 10
		}
		return w.T.Ite(w.T.Ult(n, w.bytes[10]), w.T.Add(n, w.bytes['0']), w.T.Add(n, w.T.Const(8, a)))
	}
	return []*Term{f(h), f(l)}
}

// fmtInt: digits of an integer (without sign handling of width).
func (w *Worker) fmtInt(x *Term, signed bool, base uint64, upper bool) (digits []*Term, neg bool, ok bool) {
	T := w.T
	if signed && !nonneg(x) {
		if w.decide(T.Slt(x, T.Const(x.w, 0))) {
			neg = true
			x = T.Neg(x)
		}
	}
	if x.op == OConst {
		s := strconv.FormatUint(x.c, int(base))
		if upper {
			s = strings.ToUpper(s)
		}
		for i := range s {
			digits = append(digits, w.bytes[s[i]])
		}
		return digits, neg, true
	}
	if base == 16 {
		n := 1
		for 4*n < int(x.w) && !w.decide(T.Ult(x, T.Const(x.w, uint64(1)<<(4*uint(n))))) {
			n++
		}
		y := x
		if y.w < 8 {
			y = T.Zext(y, 8)
		}
		for i := (n+1)/2 - 1; i >= 0; i-- {
			b := T.Extract(y, uint8(8*i+7), uint8(8*i))
			d := w.hexDigits(b, upper)
			if n%2 == 1 && i == (n+1)/2-1 {
				d = d[1:]
			}
			digits = append(digits, d...)
		}
		return digits, neg, true
	}
	if base == 10 {
		n, p := 1, uint64(10)
		for p <= x.max && !w.decide(T.Ult(x, T.Const(x.w, p))) {
			n++
			if p > mask(x.w)/10 {
				break
			}
			p *= 10
		}
		p = 1
		ds := make([]*Term, n)
		for i := n - 1; i >= 0; i-- {
			d := T.URem(T.UDiv(x, T.Const(x.w, p)), T.Const(x.w, 10))
			var b *Term
			if d.w > 8 {
				b = T.Extract(d, 7, 0)
			} else {
				b = d
			}
			ds[i] = T.Add(b, w.bytes['0'])
			p *= 10
		}
		return ds, neg, true
	}
	return nil, false, false
}

// formatSym formats with exact symbolic text; ok=false if a verb cannot be expressed. fork=false forbids branching.
func (w *Worker) formatSym(f string, args []Iface, fork bool) (res *Rope, ok bool) {
	nat := make([]interface{}, len(args))
	all := true
	for i, a := range args {
		v, ok := w.nativeArg(a)
		if !ok {
			all = false
			break
		}
		nat[i] = v
	}
	if all && !strings.Contains(f, "%T") && !strings.Contains(f, "%w") {
		return w.strRope(fmt.Sprintf(f, nat...)), true
	}
	var out []*Rope
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, w.strRope(f[i:]))
			break
		}
		out = append(out, w.strRope(f[i:i+j]))
		i += j + 1
		start := i
		zero, minus, plain := false, false, true
		for i < len(f) && strings.IndexByte("0-+# ", f[i]) >= 0 {
			switch f[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			default:
				plain = false
			}
			i++
		}
		width, prec := -1, -1
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) || f[i] == '*' || f[i] == '[' {
			return nil, false
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, w.strRope("%"))
			continue
		}
		if k >= len(args) {
			return nil, false
		}
		a := args[k]
		k++
		if n, ok := w.nativeArg(a); ok && verb != 'T' && verb != 'w' {
			out = append(out, w.strRope(fmt.Sprintf("%"+f[start:i], n)))
			continue
		}
		if a.t == nil || !plain {
			return nil, false
		}
		// errors and stringers
		if verb == 's' || verb == 'v' || verb == 'w' {
			if s := w.textOf(a); s != nil {
				a = Iface{t: types.Typ[types.String], v: s}
			}
		} else if ms := types.NewMethodSet(a.t); ms.Len() > 0 && ms.Lookup(nil, "Format") != nil {
			return nil, false
		}
		if x, ok := a.v.(SFloat); ok {
			if verb == 's' || verb == 'd' || verb == 'x' || verb == 'X' {
				return nil, false
			}
			out = append(out, w.fmtFloat("%"+f[start:i], x.t))
			continue
		}
		var r *Rope
		switch x := a.v.(type) {
		case *Rope:
			r = x
		case Slice:
			st, ok := under(a.t).(*types.Slice)
			if !ok || !isByteType(st.Elem()) || verb == 'v' || verb == 'd' {
				return nil, false
			}
			r = w.sliceRope(x)
		case *Term:
			wd, signed, ok := intInfo(a.t)
			if !ok || wd == 0 || !fork {
				return nil, false
			}
			base := uint64(10)
			switch verb {
			case 'd', 'v':
			case 'x', 'X':
				base = 16
			default:
				return nil, false
			}
			d, neg, ok := w.fmtInt(x, signed, base, verb == 'X')
			if !ok {
				return nil, false
			}
			m := prec
			if prec < 0 && zero && !minus && width > 0 {
				m = width
				if neg {
					m--
				}
			}
			for len(d) < m {
				d = append([]*Term{w.bytes['0']}, d...)
			}
			if prec == 0 {
				return nil, false
			}
			if neg {
				d = append([]*Term{w.bytes['-']}, d...)
			}
			for len(d) < width {
				if minus {
					d = append(d, w.bytes[' '])
				} else {
					d = append([]*Term{w.bytes[' ']}, d...)
				}
			}
			out = append(out, w.litRope(d))
			continue
		default:
			return nil, false
		}
		switch verb {
		case 's', 'v', 'w':
			if prec >= 0 || width > 0 && !r.isLit() {
				return nil, false
			}
		case 'x', 'X':
			if !r.isLit() || prec >= 0 {
				return nil, false
			}
			var d []*Term
			for _, b := range r.lit() {
				d = append(d, w.hexDigits(b, verb == 'X')...)
			}
			r = w.litRope(d)
		default:
			return nil, false
		}
		if width > 0 && r.isLit() {
			l := r.lit()
			if len(l) < width {
				for _, b := range l {
					if b.max >= 0x80 {
						return nil, false
					}
				}
				pad := w.bytes[' ']
				if zero && !minus {
					pad = w.bytes['0']
				}
				l = append([]*Term(nil), l...)
				for len(l) < width {
					if minus {
						l = append(l, pad)
					} else {
						l = append([]*Term{pad}, l...)
					}
				}
				r = w.litRope(l)
			}
		}
		out = append(out, r)
	}
	if k != len(args) {
		return nil, false
	}
	return w.concat(out...), true
}

// textOf: the result of Error or String, nil if the value has neither.
func (w *Worker) textOf(a Iface) *Rope {
	if n, ok := a.v.(*NativeObj); ok {
		if m := n.methods["Error"]; m != nil {
			return m(w, nil).(*Rope)
		}
		return nil
	}
	for _, name := range []string{"Error", "String"} {
		w.eng.mmu.Lock()
		sel := types.NewMethodSet(a.t).Lookup(nil, name)
		var fn *ssa.Function
		if sel != nil {
			fn = w.eng.prog.MethodValue(sel)
		}
		w.eng.mmu.Unlock()
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
			continue
		}
		if p, ok := a.v.(Ptr); ok && p.c == nil {
			return w.strRope("<nil>")
		}
		r, _ := w.call(w.curFr, fn, []Value{a.v}, nil).(*Rope)
		return r
	}
	return nil
}

func (w *Worker) ifaces(v Value) []Iface {
	var out []Iface
	for _, e := range w.sliceElems(v.(Slice)) {
		out = append(out, e.(Iface))
	}
	return out
}

func regFmt() {
	sprintf := func(w *Worker, f Value, args Value, fork bool, what string) *Rope {
		if fs, ok := w.rope(f).concrete(); ok {
			if r, ok := w.formatSym(fs, w.ifaces(args), fork); ok {
				return r
			}
		}
		w.p.stubbed = true
		return w.opaqueStr(what, 0, 1<<16)
	}
	intrTab["fmt.Sprintf"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return sprintf(w, a[0], a[1], true, "sprintf")
	}
	intrTab["fmt.Errorf"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		var msg *Rope
		fs, ok := w.rope(a[0]).concrete()
		if w.p == nil || w.initDepth > 0 {
			r, ok2 := w.formatSym(fs, w.ifaces(a[1]), false)
			if !ok2 {
				w.unsupported("Errorf in initialisation")
			}
			msg = r
		} else {
			msg = sprintf(w, a[0], a[1], false, "errorf")
		}
		if ok && strings.Count(fs, "%w") == 1 {
			// position of the wrapped operand
			n := strings.Count(strings.ReplaceAll(fs[:strings.Index(fs, "%w")], "%%", ""), "%")
			args := w.ifaces(a[1])
			if n < len(args) && args[n].t != nil {
				t := w.eng.typeByName("fmt", "wrapError")
				return Iface{t: types.NewPointer(t), v: w.alloc(&SVal{t: under(t).(*types.Struct), f: []Value{msg, args[n]}})}
			}
		}
		return w.mkErr(msg)
	}
	sprint := func(ln bool) intrFn {
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			args := w.ifaces(a[0])
			nat := make([]interface{}, len(args))
			for i, x := range args {
				v, ok := w.nativeArg(x)
				if !ok {
					if r := w.textOf(x); r != nil && len(args) == 1 && !ln {
						return r
					}
					if r, ok := x.v.(*Rope); ok && len(args) == 1 && !ln {
						return r
					}
					if t, ok := x.v.(*Term); ok && len(args) == 1 && !ln {
						if wd, s, ok := intInfo(x.t); ok && wd > 0 {
							if d, neg, ok := w.fmtInt(t, s, 10, false); ok {
								if neg {
									d = append([]*Term{w.bytes['-']}, d...)
								}
								return w.litRope(d)
							}
						}
					}
					w.p.stubbed = true
					return w.opaqueStr("sprint", 0, 1<<16)
				}
				nat[i] = v
			}
			if ln {
				return w.strRope(fmt.Sprintln(nat...))
			}
			return w.strRope(fmt.Sprint(nat...))
		}
	}
	intrTab["fmt.Sprint"] = sprint(false)
	intrTab["fmt.Sprintln"] = sprint(true)
	out := func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return Tuple{w.zero, Iface{}} }
	for _, n := range []string{"Printf", "Print", "Println"} {
		intrTab["fmt."+n] = out
	}
	fp := func(mk func(w *Worker, a []Value) *Rope) intrFn {
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			r := mk(w, a[1:])
			dst := a[0].(Iface)
			if dst.t == nil {
				w.nilDeref()
			}
			if n, ok := dst.v.(*NativeObj); ok && n.methods["Write"] != nil {
				return n.methods["Write"](w, []Value{w.freshBytes(r)})
			}
			if strings.HasPrefix(dst.t.String(), "*os.") {
				return Tuple{r.n, Iface{}}
			}
			w.eng.mmu.Lock()
			sel := types.NewMethodSet(dst.t).Lookup(nil, "Write")
			var fn *ssa.Function
			if sel != nil {
				fn = w.eng.prog.MethodValue(sel)
			}
			w.eng.mmu.Unlock()
			if fn == nil {
				w.unsupported("writer %s", dst.t)
			}
			return w.call(w.curFr, fn, []Value{dst.v, w.freshBytes(r)}, nil)
		}
	}
	intrTab["fmt.Fprintf"] = fp(func(w *Worker, a []Value) *Rope { return sprintf(w, a[0], a[1], true, "sprintf") })
	intrTab["fmt.Fprint"] = fp(func(w *Worker, a []Value) *Rope { return sprint(false)(w, nil, a).(*Rope) })
	intrTab["fmt.Fprintln"] = fp(func(w *Worker, a []Value) *Rope { return sprint(true)(w, nil, a).(*Rope) })
	app := func(mk func(w *Worker, a []Value) *Rope) intrFn {
		return func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
			return w.appendSlice(a[0].(Slice), types.Typ[types.Uint8], mk(w, a[1:]))
		}
	}
	intrTab["fmt.Appendf"] = app(func(w *Worker, a []Value) *Rope { return sprintf(w, a[0], a[1], true, "sprintf") })
	intrTab["fmt.Append"] = app(func(w *Worker, a []Value) *Rope { return sprint(false)(w, nil, a).(*Rope) })
}

// ---- regexp -----------------------------------------------------------------------------

type reData struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

func (w *Worker) reOf(v Value) *reData {
	p := v.(Ptr)
	if p.c == nil {
		w.nilDeref()
	}
	n, ok := p.c.(*NativeObj)
	if !ok {
		w.unsupported("regexp value")
	}
	return n.data.(*reData)
}

func compileRe(s string) (*reData, error) {
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	t, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	nc := t.MaxCap()
	p, err := syntax.Compile(t.Simplify())
	if err != nil {
		return nil, err
	}
	return &reData{src: s, re: re, prog: p, ncap: nc}, nil
}

// runeAt: the rune at position pos (pos < len) and its width; ASCII bytes stay symbolic.
func (w *Worker) runeAt(l []*Term, pos int, cache map[int][2]int64) (r *Term, width int) {
	b := l[pos]
	if w.decide(w.T.Ult(b, w.bytes[0x80])) {
		return w.T.Zext(b, 32), 1
	}
	f := w.eng.fnByName("unicode/utf8", "DecodeRuneInString")
	t := w.call(w.curFr, f, []Value{w.litRope(l[pos:])}, nil).(Tuple)
	return t[0].(*Term), int(w.concretize(t[1].(*Term), 8))
}

// reMatch finds the leftmost-first match; returns capture positions or nil.
func (w *Worker) reMatch(re *reData, r *Rope) []int {
	if s, ok := r.concrete(); ok {
		return re.re.FindStringSubmatchIndex(s)
	}
	if !r.isLit() {
		w.unsupported("regular expression on a symbolic-length string")
	}
	l := r.lit()
	for _, in := range re.prog.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			w.unsupported("regular expression with line or word anchors")
		}
	}
	cap := make([]int, 2*(re.ncap+1))
	for i := range cap {
		cap[i] = -1
	}
	var visited map[[2]int]bool
	var run func(pc uint32, pos int) bool
	run = func(pc uint32, pos int) bool {
		for {
			k := [2]int{int(pc), pos}
			if visited[k] {
				return false
			}
			visited[k] = true
			in := &re.prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				cap[1] = pos
				return true
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstAlt, syntax.InstAltMatch:
				if run(in.Out, pos) {
					return true
				}
				pc = in.Arg
			case syntax.InstCapture:
				if int(in.Arg) < len(cap) {
					old := cap[in.Arg]
					cap[in.Arg] = pos
					if run(in.Out, pos) {
						return true
					}
					cap[in.Arg] = old
					return false
				}
				pc = in.Out
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				if e&syntax.EmptyBeginText != 0 && pos != 0 || e&syntax.EmptyEndText != 0 && pos != len(l) {
					return false
				}
				pc = in.Out
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(l) {
					return false
				}
				b := l[pos]
				var ok bool
				var wd int
				if w.decide(w.T.Ult(b, w.bytes[0x80])) {
					tab := make([]uint64, 256)
					for i := 0; i < 128; i++ {
						if in.MatchRune(rune(i)) {
							tab[i] = 1
						}
					}
					wd = 1
					if b.op == OConst {
						ok = tab[b.c] != 0
					} else if baseOf(b) != nil {
						ok = w.decide(w.T.Eq(w.T.Table(8, tab, b), w.bytes[1]))
					} else {
						var cs []*Term
						for i := 0; i < 128; i++ {
							if tab[i] == 0 {
								continue
							}
							j := i
							for j < 127 && tab[j+1] != 0 {
								j++
							}
							cs = append(cs, w.T.BAnd(w.T.Ule(w.bytes[i], b), w.T.Ule(b, w.bytes[j])))
							i = j
						}
						ok = w.decide(w.T.BOr(cs...))
					}
				} else {
					ru, n := w.runeAt(l, pos, nil)
					wd = n
					switch in.Op {
					case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						ok = true
					default:
						any, all := false, true
						for x := rune(0x80); x <= 0x10ffff; x += 0x155 {
							if in.MatchRune(x) {
								any = true
							} else {
								all = false
							}
						}
						if any != all {
							ok = in.MatchRune(rune(sext(w.concretize(ru, 300), 32)))
						} else {
							// no class of these expressions distinguishes non-ASCII runes
							mx := in.Rune[len(in.Rune)-1]
							if !all && mx >= 0x80 {
								ok = in.MatchRune(rune(sext(w.concretize(ru, 300), 32)))
							} else {
								ok = all
							}
						}
					}
				}
				if !ok {
					return false
				}
				pos += wd
				pc = in.Out
			}
		}
	}
	anch := re.prog.StartCond()&syntax.EmptyBeginText != 0
	visited = map[[2]int]bool{}
	for st := 0; st <= len(l); {
		cap[0] = st
		if run(uint32(re.prog.Start), st) {
			return cap
		}
		if anch || st >= len(l) {
			break
		}
		_, n := w.runeAt(l, st, nil)
		st += n
	}
	return nil
}

func regRegexp() {
	const P = "regexp."
	const M = "(*regexp.Regexp)."
	mk := func(w *Worker, d *reData) Value {
		return Ptr{c: &NativeObj{objHdr: objHdr{w.epoch()}, kind: "regexp", data: d}, whole: true}
	}
	intrTab[P+"MustCompile"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		d, err := compileRe(w.conStr(a[0]))
		if err != nil {
			panic(&goPanic{v: Iface{t: types.Typ[types.String], v: w.strRope(err.Error())}, msg: err.Error(), where: w.where()})
		}
		return mk(w, d)
	}
	intrTab[P+"Compile"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		d, err := compileRe(w.conStr(a[0]))
		if err != nil {
			return Tuple{Ptr{}, w.mkErr(w.strRope(err.Error()))}
		}
		return Tuple{mk(w, d), Iface{}}
	}
	intrTab[P+"MatchString"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		d, err := compileRe(w.conStr(a[0]))
		if err != nil {
			return Tuple{w.T.False, w.mkErr(w.strRope(err.Error()))}
		}
		return Tuple{w.T.Bool(w.reMatch(d, w.rope(a[1])) != nil), Iface{}}
	}
	match := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return w.T.Bool(w.reMatch(w.reOf(a[0]), w.rope(a[1])) != nil)
	}
	intrTab[M+"MatchString"], intrTab[M+"Match"] = match, match
	intrTab[M+"String"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.strRope(w.reOf(a[0]).src) }
	intrTab[M+"NumSubexp"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value { return w.cint(w.reOf(a[0]).ncap) }
	intrTab[M+"FindString"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		r := w.rope(a[1])
		c := w.reMatch(w.reOf(a[0]), r)
		if c == nil {
			return w.emptyRope
		}
		return w.litRope(r.lit()[c[0]:c[1]])
	}
	ints := func(w *Worker, c []int) Value {
		if c == nil {
			return w.nilSlice
		}
		o := &ArrObj{objHdr: objHdr{w.epoch()}, elem: types.Typ[types.Int]}
		for _, x := range c {
			o.e = append(o.e, w.T.Const(64, uint64(int64(x))))
		}
		n := w.cint(len(c))
		return Slice{a: o, off: w.zero, len: n, cap: n}
	}
	fsi := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		c := w.reMatch(w.reOf(a[0]), w.rope(a[1]))
		if c != nil {
			c = c[:2]
		}
		return ints(w, c)
	}
	intrTab[M+"FindStringIndex"], intrTab[M+"FindIndex"] = fsi, fsi
	fssi := func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		return ints(w, w.reMatch(w.reOf(a[0]), w.rope(a[1])))
	}
	intrTab[M+"FindStringSubmatchIndex"], intrTab[M+"FindSubmatchIndex"] = fssi, fssi
	intrTab[M+"FindStringSubmatch"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		r := w.rope(a[1])
		c := w.reMatch(w.reOf(a[0]), r)
		if c == nil {
			return w.nilSlice
		}
		o := &ArrObj{objHdr: objHdr{w.epoch()}, elem: types.Typ[types.String]}
		for i := 0; i+1 < len(c); i += 2 {
			if c[i] < 0 {
				o.e = append(o.e, w.emptyRope)
			} else {
				o.e = append(o.e, w.litRope(r.lit()[c[i]:c[i+1]]))
			}
		}
		n := w.cint(len(o.e))
		return Slice{a: o, off: w.zero, len: n, cap: n}
	}
	intrTab[M+"FindSubmatch"] = func(w *Worker, _ *ssa.CallCommon, a []Value) Value {
		s := a[1].(Slice)
		c := w.reMatch(w.reOf(a[0]), w.rope(a[1]))
		if c == nil {
			return w.nilSlice
		}
		o := &ArrObj{objHdr: objHdr{w.epoch()}, elem: types.NewSlice(types.Typ[types.Uint8])}
		for i := 0; i+1 < len(c); i += 2 {
			if c[i] < 0 {
				o.e = append(o.e, w.nilSlice)
			} else {
				n := w.cint(c[i+1] - c[i])
				o.e = append(o.e, Slice{a: s.a, off: w.T.Add(s.off, w.cint(c[i])), len: n, cap: n})
			}
		}
		n := w.cint(len(o.e))
		return Slice{a: o, off: w.zero, len: n, cap: n}
	}
}
