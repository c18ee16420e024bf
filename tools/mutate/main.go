// mutate lists small syntactic changes of Go files: `mutate list FILE...` prints one JSON object per
// mutant (id, file, line, description), `mutate apply FILE N` prints FILE with the N-th change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	from, to int // byte offsets
	text     string
	desc     string
}

func changes(file string, src []byte) (out []change, fset *token.FileSet, f *ast.File) {
	fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(a, b token.Pos, t, d string) { out = append(out, change{off(a), off(b), t, d}) }
	swaps := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	}
	idents := map[string]string{"Sin": "Cos", "Cos": "Sin", "Max": "Min", "Min": "Max", "max": "min", "min": "max",
		"Ux": "Uz", "Uz": "Ux", "Phiy": "Uz", "Iyy": "Izz", "Izz": "Iyy", "sin": "cos", "cos": "sin", "true": "false", "false": "true",
		"from": "to", "to": "from", "n0": "n1", "n1": "n0", "Area": "Iyy", "i": "j", "j": "i"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			if b, ok := n.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
				return true
			}
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, fmt.Sprintf("%s → %s in %s", n.Op, s, text(n)))
			}
			switch n.Op {
			case token.ADD, token.SUB, token.LAND, token.LOR:
				add(n.Pos(), n.End(), text(n.X), "only the left side of "+text(n))
				if n.Op != token.SUB {
					add(n.Pos(), n.End(), text(n.Y), "only the right side of "+text(n))
				} else {
					add(n.Pos(), n.End(), "-("+text(n.Y)+")", "without the left side of "+text(n))
				}
			case token.MUL:
				add(n.Pos(), n.End(), text(n.X), "only the left side of "+text(n))
				add(n.Pos(), n.End(), text(n.Y), "only the right side of "+text(n))
			}
		case *ast.UnaryExpr:
			if n.Op == token.SUB || n.Op == token.NOT {
				add(n.Pos(), n.End(), text(n.X), "without "+n.Op.String()+" in "+text(n))
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" + 1")
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" - 1")
					}
				}
			case token.FLOAT:
				if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
					add(n.Pos(), n.End(), strconv.FormatFloat(v*2+1, 'g', -1, 64), n.Value+"*2+1")
					if v != 0 && v != 1 {
						add(n.Pos(), n.End(), strconv.FormatFloat(v*0.99, 'g', -1, 64), n.Value+" by 1 % less")
						add(n.Pos(), n.End(), strconv.FormatFloat(v*1e6, 'g', -1, 64), n.Value+"*1e6")
					}
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negated if "+text(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never if "+text(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always if "+text(n.Cond))
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond.Pos(), n.Cond.End(), text(n.Cond)+" && false", "no loop "+text(n.Cond))
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break", "break instead of continue")
			} else if n.Tok == token.BREAK {
				add(n.Pos(), n.End(), "continue", "continue instead of break")
			}
		case *ast.ExprStmt:
			add(n.Pos(), n.End(), "", "without "+text(n))
		case *ast.DeferStmt:
			add(n.Pos(), n.End(), "", "without "+text(n))
		case *ast.IncDecStmt:
			t := map[token.Token]string{token.INC: "--", token.DEC: "++"}[n.Tok]
			add(n.TokPos, n.TokPos+2, t, t+" in "+text(n))
		case *ast.AssignStmt:
			switch n.Tok {
			case token.ADD_ASSIGN:
				add(n.TokPos, n.TokPos+2, "-=", "-= in "+text(n))
				add(n.TokPos, n.TokPos+2, "=", "= in "+text(n))
			case token.SUB_ASSIGN:
				add(n.TokPos, n.TokPos+2, "+=", "+= in "+text(n))
			case token.MUL_ASSIGN:
				add(n.TokPos, n.TokPos+2, "/=", "/= in "+text(n))
			}
			if n.Tok != token.DEFINE {
				var l []string
				for _, x := range n.Lhs {
					l = append(l, text(x))
				}
				var r []string
				for _, x := range n.Rhs {
					r = append(r, text(x))
				}
				if n.Tok == token.ASSIGN {
					add(n.Pos(), n.End(), strings.Repeat("_, ", len(l)-1)+"_ = "+strings.Join(r, ", "), "without assignment "+text(n))
				} else {
					add(n.Pos(), n.End(), "_ = "+strings.Join(r, ", "), "without "+text(n))
				}
			}
		case *ast.ReturnStmt:
			for _, x := range n.Results {
				if id, ok := x.(*ast.Ident); ok && (id.Name == "err") {
					add(x.Pos(), x.End(), "nil", "return nil instead of err")
				}
				if c, ok := x.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "Join") {
						add(x.Pos(), x.End(), "nil", "return nil instead of "+text(x))
					}
				}
			}
		case *ast.Ident:
			if t, ok := idents[n.Name]; ok {
				add(n.Pos(), n.End(), t, n.Name+" → "+t)
			}
		case *ast.CallExpr:
			for k := 0; k+1 < len(n.Args); k++ {
				a, b := n.Args[k], n.Args[k+1]
				if text(a) != text(b) {
					add(a.Pos(), b.End(), text(b)+", "+text(a), "swapped arguments in "+text(n))
				}
			}
			if len(n.Args) == 1 {
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Abs" {
					add(n.Pos(), n.End(), text(n.Args[0]), "without Abs in "+text(n))
				}
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 {
				add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
			}
			if len(n.List) > 1 {
				add(n.List[0].Pos(), n.List[1].Pos(), "", "case without "+text(n.List[0]))
				add(n.List[0].End(), n.List[len(n.List)-1].End(), "", "case only with "+text(n.List[0]))
			}
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].from < out[j].from })
	return out, fset, f
}

func main() {
	switch os.Args[1] {
	case "list":
		enc := json.NewEncoder(os.Stdout)
		enc.SetEscapeHTML(false)
		for _, file := range os.Args[2:] {
			src, err := os.ReadFile(file)
			if err != nil {
				panic(err)
			}
			cs, _, _ := changes(file, src)
			for i, c := range cs {
				line := 1 + strings.Count(string(src[:c.from]), "\n")
				enc.Encode(map[string]any{"file": file, "n": i, "line": line, "desc": c.desc})
			}
		}
	case "apply":
		src, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		n, _ := strconv.Atoi(os.Args[3])
		cs, _, _ := changes(os.Args[2], src)
		c := cs[n]
		os.Stdout.Write(src[:c.from])
		fmt.Print(c.text)
		os.Stdout.Write(src[c.to:])
	}
}
