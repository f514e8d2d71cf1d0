package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/scanner"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Dict holds the literals of the code under test. They only steer the workload
// generators (as a fuzzing dictionary does), never an oracle.
type Dict struct {
	ints   []int
	floats []float64
	labels []string
	keys   []string // capitals that could name a header field
	texts  []string // short printable texts
}

// significant fields of the header have a meaning of their own.
var significant = map[string]bool{"BY": true, "VV": true, "INT": true, "GP": true, "BG": true, "E": true, "LV": true, "VS": true}

func loadDict(dir string) *Dict {
	d := &Dict{}
	seenI, seenF, seenS := map[int]bool{}, map[float64]bool{}, map[string]bool{}
	addI := func(v int) {
		if !seenI[v] && len(d.ints) < 3000 {
			seenI[v] = true
			d.ints = append(d.ints, v)
		}
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(p, fs.Base(), len(src)), src, nil, 0)
		nf := 0
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT:
				if v, err := strconv.ParseInt(lit, 0, 64); err == nil {
					addI(int(v))
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\''); err == nil {
					addI(int(v))
				}
			case token.FLOAT:
				nf++
				if v, err := strconv.ParseFloat(lit, 64); err == nil && nf < 400 && !seenF[v] {
					seenF[v] = true
					d.floats = append(d.floats, v)
				}
			case token.STRING:
				v, err := strconv.Unquote(lit)
				if err != nil || seenS[v] {
					break
				}
				seenS[v] = true
				if validLabel(v) {
					d.labels = append(d.labels, v)
				}
				if len(v) > 0 && len(v) <= 16 && len(d.texts) < 400 && strings.IndexFunc(v, func(c rune) bool { return c < ' ' || c > '~' }) < 0 {
					d.texts = append(d.texts, v)
				}
				if v != "" && len(v) < 12 && strings.Trim(v, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" && !significant[v] {
					d.keys = append(d.keys, v)
				}
			}
		}
		for _, v := range foldInts(p, src) {
			addI(v)
		}
		return nil
	})
	// whole numbers may meet floating point inputs, too
	for i, v := range d.ints {
		if f := float64(v); i < 300 && !seenF[f] {
			seenF[f] = true
			d.floats = append(d.floats, f)
		}
	}
	return d
}

// foldInts evaluates the constant expressions of a file. Units of time count
// as minutes and as seconds.
func foldInts(p string, src []byte) (out []int) {
	f, err := parser.ParseFile(token.NewFileSet(), p, src, 0)
	if err != nil {
		return
	}
	for _, minutes := range []bool{true, false} {
		consts := map[string]constant.Value{}
		var eval func(e ast.Expr) constant.Value
		eval = func(e ast.Expr) (v constant.Value) {
			defer func() {
				if recover() != nil {
					v = constant.MakeUnknown()
				}
			}()
			switch e := e.(type) {
			case *ast.BasicLit:
				return constant.MakeFromLiteral(e.Value, e.Kind, 0)
			case *ast.ParenExpr:
				return eval(e.X)
			case *ast.Ident:
				if v, ok := consts[e.Name]; ok {
					return v
				}
			case *ast.CallExpr: // a conversion, perhaps
				if len(e.Args) == 1 {
					return eval(e.Args[0])
				}
			case *ast.SelectorExpr:
				if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" {
					u := map[string]int64{"Minute": 1, "Hour": 60}
					if !minutes {
						u = map[string]int64{"Second": 1, "Minute": 60, "Hour": 3600}
					}
					if n, ok := u[e.Sel.Name]; ok {
						return constant.MakeInt64(n)
					}
				}
			case *ast.UnaryExpr:
				if x := eval(e.X); x.Kind() == constant.Int {
					return constant.UnaryOp(e.Op, x, 0)
				}
			case *ast.BinaryExpr:
				x, y := eval(e.X), eval(e.Y)
				if x.Kind() != constant.Int || y.Kind() != constant.Int {
					break
				}
				switch e.Op {
				case token.SHL, token.SHR:
					if n, ok := constant.Uint64Val(y); ok && n < 64 {
						return constant.Shift(x, e.Op, uint(n))
					}
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
					return constant.BinaryOp(x, e.Op, y)
				case token.QUO:
					return constant.BinaryOp(x, token.QUO_ASSIGN, y)
				case token.REM:
					return constant.BinaryOp(x, token.REM, y)
				}
			}
			return constant.MakeUnknown()
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ValueSpec:
				for i, name := range n.Names {
					if i < len(n.Values) {
						if v := eval(n.Values[i]); v.Kind() == constant.Int {
							consts[name.Name] = v
						}
					}
				}
			case *ast.CompositeLit:
				return len(n.Elts) < 500 // not the border
			case *ast.BinaryExpr, *ast.UnaryExpr:
				if v := eval(n.(ast.Expr)); v.Kind() == constant.Int {
					if k, ok := constant.Int64Val(v); ok {
						out = append(out, int(k))
					}
				}
			}
			return true
		})
	}
	return
}

// Smart draws an integer in [lo, hi], favouring edges, powers of two and the dictionary.
func (r *R) Smart(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch k := r.IntN(100); {
	case k < 16:
		if n := len(r.c.dict.ints); n > 0 {
			for t := 0; t < 4; t++ {
				v := r.c.dict.ints[r.IntN(n)] + r.IntN(3) - 1
				if v >= lo && v <= hi {
					return v
				}
			}
		}
	case k < 24:
		return []int{lo, lo + 1, hi - 1, hi}[r.IntN(4)]
	case k < 32:
		for t := 0; t < 4; t++ {
			v := 1<<r.IntN(20) + r.IntN(3) - 1
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + r.IntN(hi-lo+1)
}

// text draws a short text of the source under test.
func (r *R) text() string {
	if len(r.c.dict.texts) == 0 {
		return ""
	}
	return pick(r, r.c.dict.texts)
}

// SmartF draws a float in [lo, hi], favouring the dictionary and round numbers.
func (r *R) SmartF(lo, hi float64) float64 {
	switch k := r.IntN(100); {
	case k < 12:
		if n := len(r.c.dict.floats); n > 0 {
			v := r.c.dict.floats[r.IntN(n)]
			if r.IntN(2) == 0 {
				v = -v
			}
			switch r.IntN(4) { // around it
			case 0:
				v += (r.Float64()*2 - 1) * math.Pow(10, -r.Float64()*8)
			case 1:
				v = math.Nextafter(v, pick(r, []float64{-1e300, 1e300}))
			}
			if v >= lo && v <= hi {
				return v
			}
		}
	case k < 20:
		v := float64(int(lo + r.Float64()*(hi-lo)))
		if v >= lo && v <= hi {
			return v
		}
	case k < 22:
		return lo
	case k < 24:
		return hi
	}
	return lo + r.Float64()*(hi-lo)
}

// Chance is true with probability p percent.
func (r *R) Chance(p int) bool { return r.IntN(100) < p }

func pick[T any](r *R, s []T) T { return s[r.IntN(len(s))] }
