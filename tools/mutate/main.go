// mutate DIR FILE...: prints, as JSON lines, small changes to the Go files (file, offset, end, replacement, line, what).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string
	Pos  int
	End  int
	New  string
	Line int
	What string
	Func string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{f, off(a), off(b), s, fs.Position(a).Line, what + ": " + string(src[off(a):off(b)]) + " => " + s, fn})
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					sw := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}, token.MUL: {"+"}, token.QUO: {"*"}}
					for _, s := range sw[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "left only")
						emit(x.Pos(), x.End(), text(x.Y), "right only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "lit")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "lit")
							}
							if v == 0xff || v == 0xffff || v == 0xffffffff || v == 0x10000 || v == 0x100000000 {
								emit(x.Pos(), x.End(), fmt.Sprint(v>>1), "lit")
							}
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && len(\"\") > 0", "if false")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || len(\"\") == 0", "if true")
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "del")
					}
				case *ast.IncDecStmt:
					s := "--"
					if x.Tok == token.DEC {
						s = "++"
					}
					emit(x.TokPos, x.TokPos+2, s, "incdec")
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						s := "true"
						if x.Name == s {
							s = "false"
						}
						emit(x.Pos(), x.End(), s, "bool")
					}
				case *ast.SliceExpr:
					if x.Slice3 {
						emit(x.Pos(), x.End(), text(x.X)+"["+opt(x.Low, text)+":"+opt(x.High, text)+"]", "slice2")
					} else {
						if x.Low != nil {
							emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low")
						}
						if x.High != nil {
							emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high")
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						emit(x.Pos(), x.End(), text(x.Args[0]), "no append")
					}
					for i := 0; i+1 < len(x.Args); i++ {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap args")
					}
					if len(x.Args) == 1 && x.Ellipsis == 0 {
						emit(x.Pos(), x.End(), text(x.Args[0]), "no call")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "nil err")
						}
					}
				}
				return true
			})
		}
	}
}

func opt(e ast.Expr, text func(ast.Node) string) string {
	if e == nil {
		return ""
	}
	return text(e)
}
