package main

// mutgen SRCDIR OUTDIR: writes each mutant as OUTDIR/NNNN.go plus index lines
import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var n int
var idx *os.File

func main() {
	src, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0755)
	idx, _ = os.Create(out + "/index.tsv")
	for _, f := range os.Args[3:] {
		do(src, f, out)
	}
	fmt.Println(n)
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.MUL},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND},
}

func do(src, file, out string) {
	path := filepath.Join(src, file)
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	orig, _ := os.ReadFile(path)
	emit := func(pos token.Pos, desc string) {
		var b bytes.Buffer
		if err := format.Node(&b, fset, af); err != nil {
			return
		}
		if bytes.Equal(b.Bytes(), orig) {
			return
		}
		n++
		os.WriteFile(fmt.Sprintf("%s/%04d.go", out, n), b.Bytes(), 0644)
		p := fset.Position(pos)
		fmt.Fprintf(idx, "%04d\t%s\t%d\t%s\n", n, file, p.Line, strings.ReplaceAll(desc, "\n", " "))
	}
	txt := func(nd ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, nd)
		s := b.String()
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	var inFunc int
	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.FuncDecl:
			inFunc++
		case *ast.BinaryExpr:
			o := x.Op
			for _, t := range swaps[o] {
				x.Op = t
				emit(x.OpPos, fmt.Sprintf("op %s -> %s: %s", o, t, txt(x)))
			}
			x.Op = o
			if o == token.LAND || o == token.LOR {
				// drop one side
				l, r := x.X, x.Y
				x.X = r
				emit(x.OpPos, fmt.Sprintf("left dropped: %s", txt(x)))
				x.X, x.Y = l, l
				emit(x.OpPos, fmt.Sprintf("right dropped: %s", txt(x)))
				x.Y = r
			}
		case *ast.BasicLit:
			v := x.Value
			switch x.Kind {
			case token.INT:
				if i, err := strconv.ParseInt(v, 0, 64); err == nil {
					for _, d := range []int64{1, -1} {
						x.Value = fmt.Sprint(i + d)
						emit(x.Pos(), fmt.Sprintf("int %s -> %s", v, x.Value))
					}
				}
			case token.FLOAT:
				if f, err := strconv.ParseFloat(v, 64); err == nil {
					x.Value = fmt.Sprint(f*1.001 + 0.00001)
					emit(x.Pos(), fmt.Sprintf("float %s -> %s", v, x.Value))
				}
			case token.STRING:
				if len(v) > 2 {
					x.Value = strconv.Quote("X" + v[1:len(v)-1])
					emit(x.Pos(), fmt.Sprintf("string %s -> %s", v, x.Value))
				}
			case token.CHAR:
				x.Value = "'~'"
				emit(x.Pos(), fmt.Sprintf("char %s -> ~", v))
			}
			x.Value = v
		case *ast.IfStmt:
			c := x.Cond
			x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}}
			emit(x.Pos(), "negated if "+txt(c))
			x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
			emit(x.Pos(), "never if "+txt(c))
			x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")}
			emit(x.Pos(), "always if "+txt(c))
			x.Cond = c
			if x.Else != nil {
				e := x.Else
				x.Else = nil
				emit(x.Pos(), "else dropped "+txt(c))
				x.Else = e
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				v := x.Name
				x.Name = map[string]string{"true": "false", "false": "true"}[v]
				emit(x.Pos(), v+" flipped")
				x.Name = v
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				o := x.Op
				if o == token.SUB {
					x.Op = token.ADD
					emit(x.Pos(), "unary - -> +: "+txt(x))
				}
				x.Op = o
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
				emit(x.Pos(), "args swapped: "+txt(x))
				x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
			}
		case *ast.AssignStmt:
			o := x.Tok
			for _, p := range [][2]token.Token{{token.ADD_ASSIGN, token.SUB_ASSIGN}, {token.SUB_ASSIGN, token.ADD_ASSIGN}, {token.MUL_ASSIGN, token.QUO_ASSIGN}, {token.QUO_ASSIGN, token.MUL_ASSIGN}} {
				if o == p[0] {
					x.Tok = p[1]
					emit(x.Pos(), fmt.Sprintf("%s -> %s", o, p[1]))
					x.Tok = token.ASSIGN
					emit(x.Pos(), fmt.Sprintf("%s -> =", o))
				}
			}
			x.Tok = o
		case *ast.BlockStmt:
			del(x.List, func(l []ast.Stmt) { x.List = l }, emit, txt)
		case *ast.CaseClause:
			del(x.Body, func(l []ast.Stmt) { x.Body = l }, emit, txt)
			if len(x.List) > 1 {
				l := x.List
				for i := range l {
					x.List = append(append([]ast.Expr{}, l[:i]...), l[i+1:]...)
					emit(x.Pos(), "case dropped "+txt(l[i]))
				}
				x.List = l
			}
		case *ast.CompositeLit:
			if len(x.Elts) > 0 && len(x.Elts) < 200 {
				l := x.Elts
				for i := range l {
					x.Elts = append(append([]ast.Expr{}, l[:i]...), l[i+1:]...)
					emit(x.Pos(), "element dropped "+txt(l[i]))
				}
				x.Elts = l
			}
		}
		return true
	})
}

func del(l []ast.Stmt, set func([]ast.Stmt), emit func(token.Pos, string), txt func(ast.Node) string) {
	for i, s := range l {
		if d, ok := s.(*ast.DeclStmt); ok {
			_ = d
			continue
		}
		nl := append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...)
		set(nl)
		emit(s.Pos(), "deleted: "+txt(s))
		// swap with next
		if i+1 < len(l) {
			nl := append([]ast.Stmt{}, l...)
			nl[i], nl[i+1] = nl[i+1], nl[i]
			set(nl)
			emit(s.Pos(), "swapped with next: "+txt(s))
		}
	}
	set(l)
}
