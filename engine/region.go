package main

// If-conversion: a branch over blocks that only compute booleans and small integers is executed on both sides at once,
// its results becoming if-then-else terms, instead of forking the path.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	blocks []int // in topological order, without the entry
	exits  []int // one or two
}

func scalarType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// mergeable: values that may become if-then-else terms. Lengths and indices stay apart.
func mergeable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool, types.Uint8, types.Int8, types.Int32, types.Uint16, types.Int16:
		return true
	}
	return false
}

func pureInstr(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.BinOp:
		if !scalarType(i.X.Type()) || !scalarType(i.Y.Type()) {
			return false
		}
		switch i.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			c, ok := i.Y.(*ssa.Const)
			return ok && c.Value != nil && constant.Sign(c.Value) >= 0
		}
		return true
	case *ssa.UnOp:
		return i.Op != token.MUL && i.Op != token.ARROW && scalarType(i.X.Type())
	case *ssa.Convert:
		return scalarType(i.X.Type()) && scalarType(i.Type())
	case *ssa.ChangeType:
		return scalarType(i.X.Type())
	case *ssa.DebugRef, *ssa.Jump, *ssa.If:
		return true
	case *ssa.Phi:
		return mergeable(i.Type())
	}
	return false
}

func pureBlock(s *ssa.BasicBlock) bool {
	if len(s.Instrs) > 12 {
		return false
	}
	for _, i := range s.Instrs {
		if !pureInstr(i) {
			return false
		}
	}
	return true
}

func findRegion(fn *ssa.Function, b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{b: true}
	var order []int
	// cand: the pure blocks that can be reached through pure blocks. A block joins the region after its predecessors
	// among them; the branch is entered from b, so other predecessors do not matter.
	cand := map[*ssa.BasicBlock]bool{b: true}
	for todo := []*ssa.BasicBlock{b}; len(todo) > 0; {
		x := todo[0]
		todo = todo[1:]
		for _, s := range x.Succs {
			if !cand[s] && pureBlock(s) {
				cand[s] = true
				todo = append(todo, s)
			}
		}
	}
	pure := func(s *ssa.BasicBlock) bool {
		if s == b || !cand[s] {
			return false
		}
		for _, p := range s.Preds {
			if !in[p] && cand[p] {
				return false
			}
		}
		return true
	}
	valid := func() []int {
		var exits []int
		seen := map[*ssa.BasicBlock]bool{}
		for x := range in {
			if len(x.Succs) == 2 && x.Succs[0] == x.Succs[1] {
				return nil
			}
			for _, s := range x.Succs {
				if s == b || in[s] {
					if s == b {
						return nil
					}
					continue
				}
				if !seen[s] {
					seen[s] = true
				}
			}
		}
		if len(seen) > 2 {
			return nil
		}
		for s := range seen {
			for _, i := range s.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				var first ssa.Value
				same := true
				for k, p := range s.Preds {
					if in[p] {
						v := phi.Edges[k]
						if first == nil {
							first = v
						} else if !sameValue(first, v) {
							same = false
						}
					}
				}
				if !same && !mergeable(phi.Type()) {
					return nil
				}
			}
			exits = append(exits, s.Index)
		}
		if len(exits) == 2 && exits[0] > exits[1] {
			exits[0], exits[1] = exits[1], exits[0]
		}
		return exits
	}
	var best *region
	for len(order) < 12 {
		var next *ssa.BasicBlock
		for _, x := range append([]int{b.Index}, order...) {
			for _, s := range fn.Blocks[x].Succs {
				if !in[s] && pure(s) {
					next = s
					break
				}
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			break
		}
		in[next] = true
		order = append(order, next.Index)
		if e := valid(); len(e) > 0 && (best == nil || len(e) <= len(best.exits)) {
			best = &region{append([]int(nil), order...), e}
		}
	}
	return best
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && types.Identical(x.Type(), y.Type()) && (x.Value == y.Value || x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value))
}

type edge struct{ from, to int }

// runRegion executes the region behind the branch on c, decides the exit and sets the values of its phis.
func (w *Worker) runRegion(fr *frame, r *region, c *Term) {
	code := fr.code
	conds := map[edge]*Term{}
	term := func(b int, c *Term) {
		ss := code.fn.Blocks[b].Succs
		reach := w.T.True
		if b != fr.block {
			reach = w.reach(code, b, conds)
		}
		if c == nil {
			conds[edge{b, ss[0].Index}] = reach
			return
		}
		conds[edge{b, ss[0].Index}] = w.T.BAnd(reach, c)
		conds[edge{b, ss[1].Index}] = w.T.BAnd(reach, w.T.BNot(c))
	}
	term(fr.block, c)
	for _, b := range r.blocks {
		if w.reach(code, b, conds).IsFalse() {
			for _, s := range code.fn.Blocks[b].Succs {
				conds[edge{b, s.Index}] = w.T.False
			}
			continue
		}
		w.mergePhis(fr, b, conds)
		for k := range code.blocks[b] {
			in := &code.blocks[b][k]
			switch i := in.i.(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				term(b, nil)
			case *ssa.If:
				term(b, w.norm(w.get(fr, &in.ops[0]).(*Term)))
			default:
				v := w.exec(fr, in, i)
				if in.dst >= 0 {
					fr.slots[in.dst] = v
				}
			}
		}
	}
	e := r.exits[0]
	if len(r.exits) == 2 && !w.decide(w.reach(code, e, conds)) {
		e = r.exits[1]
	}
	w.mergePhis(fr, e, conds)
	fr.block = e
	fr.prev = -1
}

func (w *Worker) reach(code *fnCode, b int, conds map[edge]*Term) *Term {
	var cs []*Term
	for _, p := range code.fn.Blocks[b].Preds {
		if c, ok := conds[edge{p.Index, b}]; ok {
			cs = append(cs, c)
		}
	}
	return w.T.BOr(cs...)
}

func (w *Worker) mergePhis(fr *frame, b int, conds map[edge]*Term) {
	code := fr.code
	preds := code.fn.Blocks[b].Preds
	type set struct {
		dst int32
		v   Value
	}
	var out []set
	for k := range code.blocks[b] {
		in := &code.blocks[b][k]
		if _, ok := in.i.(*ssa.Phi); !ok {
			break
		}
		var v Value
		for j, p := range preds {
			c, ok := conds[edge{p.Index, b}]
			if !ok || c.IsFalse() {
				continue
			}
			x := w.get(fr, &in.ops[j])
			if v == nil {
				v = x
				continue
			}
			a, ok1 := x.(*Term)
			o, ok2 := v.(*Term)
			if ok1 && ok2 {
				v = w.T.Ite(c, a, o)
			}
			// otherwise the same value on every edge
		}
		out = append(out, set{in.dst, v})
	}
	for _, s := range out {
		fr.slots[s.dst] = s.v
	}
}
