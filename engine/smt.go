package main

// One z3 process per worker, driven over a pipe. Every DAG node is defined once (global declarations); the assertion
// stack mirrors the current path constraint and is popped to the common prefix when the path changes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	T     *TermTable
	cmd   *exec.Cmd
	in    *bufio.Writer
	inc   io.WriteCloser
	out   *bufio.Reader
	gen   int
	stack []*Term // one push level per entry
	blobs map[string]bool
	tmo   int  // ms
	fp    bool // started for floating-point terms

	queries, sats, unsats, unknowns int
	errs                            []string
	time                            time.Duration
	bin                             []string
}

func NewSolver(T *TermTable, tmo int) *Solver {
	return &Solver{T: T, tmo: tmo, bin: []string{"z3-new", "-in", "-smt2"}}
}

func (s *Solver) start() {
	s.gen++
	s.stack = nil
	s.blobs = map[string]bool{}
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.fp = s.T.fp
	logic := "(set-logic QF_UFBV)\n"
	if s.fp {
		logic = ""
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n%s", s.tmo, logic)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return bvConst(t.w, t.c)
	case OVar:
		return "|" + t.name + "|"
	}
	return "n" + strconv.Itoa(t.id)
}

func bvConst(w uint8, c uint64) string {
	c &= mask(w)
	if w%4 == 0 {
		h := strconv.FormatUint(c, 16)
		return "#x" + strings.Repeat("0", int(w/4)-len(h)) + h
	}
	b := strconv.FormatUint(c, 2)
	return "#b" + strings.Repeat("0", int(w)-len(b)) + b
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// define prints definitions for all nodes below t (iterative, arguments first).
func (s *Solver) define(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	if t.op == OConst || t.declared == s.gen {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		args := f.t.args
		if f.t.hasAlt {
			args = f.t.altArgs
		}
		if f.i < len(args) {
			a := args[f.i]
			f.i++
			if a.op != OConst && a.declared != s.gen {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if f.t.declared != s.gen {
			s.emit(f.t)
			f.t.declared = s.gen
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit(t *Term) {
	w := s.in
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-fun |%s| () %s)\n", t.name, sortOf(t.w))
		return
	}
	if t.op == OSelect && !s.blobs[t.name] {
		s.blobs[t.name] = true
		fmt.Fprintf(w, "(declare-fun |%s| ((_ BitVec 64)) (_ BitVec 8))\n", t.name)
	}
	fmt.Fprintf(w, "(define-fun n%d () %s ", t.id, sortOf(t.w))
	if t.op == OTable && !t.hasAlt {
		s.emitTable(t)
	} else {
		op, args, hi, lo, coef, c := t.op, t.args, t.hi, t.lo, t.coef, t.c
		if t.hasAlt {
			op, args, hi, lo, coef, c = t.altOp, t.altArgs, t.altHi, t.altLo, t.altCoef, t.altC
		}
		s.emitOp(t.w, op, args, hi, lo, coef, c, t.name)
	}
	w.WriteString(")\n")
}

func (s *Solver) emitOp(wd uint8, op Op, args []*Term, hi, lo uint8, coef []uint64, c uint64, name string) {
	w := s.in
	if isFP(op) {
		s.emitFP(op, args)
		return
	}
	switch op {
	case OLin:
		var parts []string
		for i, a := range args {
			k := coef[i] & mask(wd)
			r := s.ref(a)
			switch {
			case k == 0:
			case k == 1:
				parts = append(parts, r)
			case k == mask(wd):
				parts = append(parts, "(bvneg "+r+")")
			default:
				parts = append(parts, "(bvmul "+bvConst(wd, k)+" "+r+")")
			}
		}
		if c&mask(wd) != 0 || len(parts) == 0 {
			parts = append(parts, bvConst(wd, c))
		}
		if len(parts) == 1 {
			w.WriteString(parts[0])
		} else {
			w.WriteString("(bvadd " + strings.Join(parts, " ") + ")")
		}
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", hi, lo, s.ref(args[0]))
	case OSext:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", wd-args[0].w, s.ref(args[0]))
	case OSelect:
		fmt.Fprintf(w, "(|%s| %s)", name, s.ref(args[0]))
	default:
		n, ok := opNames[op]
		if !ok {
			panic(fmt.Sprint("emitOp ", op))
		}
		w.WriteString("(" + n)
		for _, a := range args {
			w.WriteByte(' ')
			w.WriteString(s.ref(a))
		}
		w.WriteByte(')')
	}
}

func (s *Solver) emitTable(t *Term) {
	w := s.in
	b := t.args[0]
	br := s.ref(b)
	n := len(t.tab)
	if t.w == 0 {
		w.WriteString("(or false")
		for i := 0; i < n; {
			if t.tab[i] == 0 {
				i++
				continue
			}
			j := i
			for j+1 < n && t.tab[j+1] != 0 {
				j++
			}
			if i == j {
				fmt.Fprintf(w, " (= %s %s)", br, bvConst(b.w, uint64(i)))
			} else if i == 0 {
				fmt.Fprintf(w, " (bvule %s %s)", br, bvConst(b.w, uint64(j)))
			} else if j == n-1 {
				fmt.Fprintf(w, " (bvule %s %s)", bvConst(b.w, uint64(i)), br)
			} else {
				fmt.Fprintf(w, " (and (bvule %s %s) (bvule %s %s))", bvConst(b.w, uint64(i)), br, br, bvConst(b.w, uint64(j)))
			}
			i = j + 1
		}
		w.WriteByte(')')
		return
	}
	// runs: constant, or index plus constant
	base := br
	if t.w > b.w {
		base = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-b.w, br)
	} else if t.w < b.w {
		base = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, br)
	}
	m := mask(t.w)
	if n > 2 {
		k, lin := (t.tab[1]-t.tab[0])&m, true
		for i := range t.tab {
			if (t.tab[0]+k*uint64(i))&m != t.tab[i]&m {
				lin = false
				break
			}
		}
		if lin {
			switch k {
			case 1:
			case m:
				base = "(bvneg " + base + ")"
			default:
				base = "(bvmul " + base + " " + bvConst(t.w, k) + ")"
			}
			if t.tab[0]&m != 0 {
				base = "(bvadd " + base + " " + bvConst(t.w, t.tab[0]) + ")"
			}
			w.WriteString(base)
			return
		}
	}
	close := 0
	for i := 0; i < n; {
		j := i
		for j+1 < n && t.tab[j+1] == t.tab[i] {
			j++
		}
		k := i
		for k+1 < n && (t.tab[k+1]-uint64(k+1))&m == (t.tab[i]-uint64(i))&m {
			k++
		}
		var e string
		if k > j {
			d := (t.tab[i] - uint64(i)) & m
			e = base
			if d != 0 {
				e = "(bvadd " + base + " " + bvConst(t.w, d) + ")"
			}
			j = k
		} else {
			e = bvConst(t.w, t.tab[i])
		}
		if j == n-1 {
			w.WriteString(e)
		} else {
			fmt.Fprintf(w, "(ite (bvule %s %s) %s ", br, bvConst(b.w, uint64(j)), e)
			close++
		}
		i = j + 1
	}
	w.WriteString(strings.Repeat(")", close))
}

func (s *Solver) sync(conds []*Term) {
	if s.T.fp && !s.fp && s.cmd != nil {
		s.Close()
	}
	if s.cmd == nil {
		s.start()
	}
	k := 0
	for k < len(s.stack) && k < len(conds) && s.stack[k] == conds[k] {
		k++
	}
	if k < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(conds); k++ {
		s.define(conds[k])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(conds[k]))
		s.stack = append(s.stack, conds[k])
	}
}

// Check decides conds ∧ extra. With Sat the model assigns every variable and select in the support.
func (s *Solver) Check(conds []*Term, extra []*Term, wantModel bool) (SatRes, *Model) {
	if s.T.fp && len(extra) == 1 {
		if r, m, ok := s.checkFP(conds, extra[0], wantModel); ok {
			return r, m
		}
	}
	return s.check(conds, extra, wantModel, true)
}

var slowMS, _ = strconv.Atoi(os.Getenv("VERIF_SLOW_MS"))
var slowN int

func (s *Solver) check(conds []*Term, extra []*Term, wantModel, retry bool) (res SatRes, m *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
			slowN++
			fmt.Fprintf(os.Stderr, "slow query %d: %v %v\n", slowN, d, res)
			s.dump(fmt.Sprintf("/tmp/slow-%d.smt2", slowN), conds, extra)
		}
	}()
	for _, e := range extra {
		if e.IsFalse() {
			return Unsat, nil
		}
	}
	s.sync(conds)
	s.queries++
	for _, e := range extra {
		s.define(e)
	}
	s.in.WriteString("(push 1)\n")
	for _, e := range extra {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(e))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	r, err := s.readSexp()
	for err == nil && strings.HasPrefix(r, "(error") {
		s.errs = append(s.errs, r)
		r2, e2 := s.readSexp()
		if e2 != nil {
			err = e2
			break
		}
		if !strings.HasPrefix(r2, "(error") {
			r = "unknown" // an error before the answer makes the answer worthless
		} else {
			r = r2
		}
	}
	if err != nil {
		s.Close()
		if retry {
			return s.check(conds, extra, wantModel, false)
		}
		s.unknowns++
		return Unknown, nil
	}
	switch r {
	case "sat":
		res = Sat
		s.sats++
		if wantModel {
			m = s.getModel(conds, extra)
		}
	case "unsat":
		res = Unsat
		s.unsats++
	default:
		res = Unknown
		s.unknowns++
	}
	if s.cmd != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) getModel(conds, extra []*Term) *Model {
	m := &Model{vars: map[string]uint64{}, blobs: map[string]map[uint64]byte{}}
	seen := map[*Term]bool{}
	var list []*Term
	add := func(c *Term) {
		for _, v := range s.T.support(c) {
			if !seen[v] {
				seen[v] = true
				list = append(list, v)
				if v.op == OSelect && v.args[0].op != OConst && v.args[0].op != OVar {
					if !seen[v.args[0]] {
						seen[v.args[0]] = true
						list = append(list, v.args[0])
					}
				}
			}
		}
	}
	for _, c := range conds {
		add(c)
	}
	for _, c := range extra {
		add(c)
	}
	if len(list) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range list {
		s.in.WriteString(s.ref(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	r, err := s.readSexp()
	if err != nil {
		s.Close()
		return nil
	}
	if strings.HasPrefix(r, "(error") {
		s.errs = append(s.errs, r)
		return nil
	}
	vals := parseValues(r, len(list))
	if vals == nil {
		s.errs = append(s.errs, "cannot parse "+r)
		return nil
	}
	byTerm := map[*Term]uint64{}
	for i, v := range list {
		byTerm[v] = vals[i]
		if v.op == OVar {
			m.vars[v.name] = vals[i]
		}
	}
	memo := map[*Term]uint64{}
	for i, v := range list {
		if v.op != OSelect {
			continue
		}
		ix, ok := byTerm[v.args[0]]
		if !ok {
			ix = evalT(v.args[0], m, memo)
		}
		bm := m.blobs[v.name]
		if bm == nil {
			bm = map[uint64]byte{}
			m.blobs[v.name] = bm
		}
		bm[ix] = byte(vals[i])
	}
	return m
}

// parseValues reads ((expr val) ...) where val is #x.., #b.., true, false; the expression is skipped.
func parseValues(r string, n int) []uint64 {
	var out []uint64
	i := 0
	skipWS := func() {
		for i < len(r) && (r[i] == ' ' || r[i] == '\n' || r[i] == '\t' || r[i] == '\r') {
			i++
		}
	}
	atom := func() string {
		skipWS()
		st := i
		if i < len(r) && r[i] == '|' {
			i++
			for i < len(r) && r[i] != '|' {
				i++
			}
			i++
			return r[st:i]
		}
		if i < len(r) && r[i] == '(' {
			d := 0
			for i < len(r) {
				if r[i] == '|' {
					i++
					for i < len(r) && r[i] != '|' {
						i++
					}
				} else if r[i] == '(' {
					d++
				} else if r[i] == ')' {
					d--
					if d == 0 {
						i++
						break
					}
				}
				i++
			}
			return r[st:i]
		}
		for i < len(r) && r[i] != ' ' && r[i] != ')' && r[i] != '\n' {
			i++
		}
		return r[st:i]
	}
	skipWS()
	if i >= len(r) || r[i] != '(' {
		return nil
	}
	i++
	for k := 0; k < n; k++ {
		skipWS()
		if i >= len(r) || r[i] != '(' {
			return nil
		}
		i++
		atom()
		v := atom()
		skipWS()
		if i >= len(r) || r[i] != ')' {
			return nil
		}
		i++
		switch {
		case v == "true":
			out = append(out, 1)
		case v == "false":
			out = append(out, 0)
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
		default:
			return nil
		}
	}
	return out
}

// readSexp reads one atom or balanced expression.
func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar, inStr := false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if inBar {
			b.WriteByte(c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		if inStr {
			b.WriteByte(c)
			if c == '"' {
				inStr = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
			b.WriteByte(c)
		case '"':
			inStr = true
			b.WriteByte(c)
		case '(':
			depth++
			b.WriteByte(c)
		case ')':
			depth--
			b.WriteByte(c)
			if depth == 0 {
				return b.String(), nil
			}
		case ' ', '\n', '\r', '\t':
			if depth > 0 {
				b.WriteByte(' ')
			} else if b.Len() > 0 {
				return b.String(), nil
			}
		default:
			b.WriteByte(c)
		}
	}
}

// dump writes a query as a stand-alone file (debugging aid; the solver is restarted).
func (s *Solver) dump(file string, conds, extra []*Term) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	defer f.Close()
	s.Close()
	d := &Solver{T: s.T, gen: s.gen + 1, blobs: map[string]bool{}, in: bufio.NewWriter(f)}
	s.gen++
	fmt.Fprintf(d.in, "(set-logic QF_UFBV)\n")
	for _, c := range append(append([]*Term{}, conds...), extra...) {
		d.define(c)
		fmt.Fprintf(d.in, "(assert %s)\n", d.ref(c))
	}
	fmt.Fprintf(d.in, "(check-sat)\n")
	d.in.Flush()
}
