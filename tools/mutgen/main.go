// mutgen lists small changes to a Go file: mutgen FILE prints one JSON object
// {"off","end","new","what","line"} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(from, to token.Pos, new, what string) {
		enc.Encode(mut{off(from), off(to), new, what, fs.Position(from).Line})
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"*"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	cond := func(e ast.Expr) {
		if e == nil {
			return
		}
		emit(e.Pos(), e.End(), "!("+text(e)+")", "negate "+text(e))
		emit(e.Pos(), e.End(), "("+text(e)+") && false", "false for "+text(e))
		emit(e.Pos(), e.End(), "("+text(e)+") || true", "true for "+text(e))
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s -> %s in %s", x.Op, s, text(x)))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "left only of "+text(x))
				emit(x.Pos(), x.End(), text(x.Y), "right only of "+text(x))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				emit(x.Pos(), x.End(), `""`, "empty string for "+x.Value)
			}
			if x.Kind == token.CHAR {
				emit(x.Pos(), x.End(), "'a'", "'a' for "+x.Value)
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false", "true -> false")
			}
			if x.Name == "false" {
				emit(x.Pos(), x.End(), "true", "false -> true")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x.Pos(), x.End(), text(x.X), "drop ! of "+text(x))
			}
		case *ast.IfStmt:
			cond(x.Cond)
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "no else at "+text(x.Cond))
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never loop "+text(x.Cond))
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(emit, text, s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				del(emit, text, s)
			}
			if len(x.Body) > 0 && x.List != nil {
				emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+text(x.List[0]))
			}
			for i, e := range x.List {
				if len(x.List) > 1 {
					from, to := e.Pos(), e.End()
					if i+1 < len(x.List) {
						to = x.List[i+1].Pos()
					} else {
						from = x.List[i-1].End()
					}
					emit(from, to, "", "case without "+text(e))
				}
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
			} else {
				emit(x.TokPos, x.TokPos+2, "++", "-- -> ++")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				emit(x.TokPos, x.TokPos+2, "-=", "+= -> -= in "+text(x))
				emit(x.TokPos, x.TokPos+2, "=", "+= -> = in "+text(x))
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low+1 in "+text(x))
				emit(x.Low.Pos(), x.Low.End(), "", "no low in "+text(x))
			}
			if x.High != nil {
				emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high-1 in "+text(x))
				emit(x.High.Pos(), x.High.End(), "", "no high in "+text(x))
			}
		case *ast.IndexExpr:
			emit(x.Index.Pos(), x.Index.End(), text(x.Index)+"+1", "index+1 in "+text(x))
			emit(x.Index.Pos(), x.Index.End(), text(x.Index)+"-1", "index-1 in "+text(x))
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if t := text(r); t == "err" {
					emit(r.Pos(), r.End(), "nil", "return nil for err")
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if text(a) != text(b) {
					emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments in "+text(x))
				}
			}
			if len(x.Args) == 1 {
				emit(x.Pos(), x.End(), text(x.Args[0]), "argument for "+text(x))
			}
		case *ast.KeyValueExpr:
			emit(x.Pos(), x.End(), "", "without field "+text(x))
		}
		return true
	})
}

func del(emit func(a, b token.Pos, new, what string), text func(ast.Node) string, s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.SendStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
		emit(s.Pos(), s.End(), "", "delete "+text(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete "+text(s))
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete return")
		}
	}
}
