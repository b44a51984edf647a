// mutate lists or applies small changes to Go files: mutate list FILE..., mutate apply FILE N.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	off, end int
	text     string
	what     string
	line     int
}

func edits(file string) []edit {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var out []edit
	o := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fs, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return s
	}
	add := func(from, to token.Pos, text, what string) {
		out = append(out, edit{o(from), o(to), text, what, fs.Position(from).Line})
	}
	swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
		token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&", token.MUL: "+", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.XOR: "&", token.QUO: "*", token.REM: "/"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			if s, ok := swap[x.Op]; ok {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+txt(x)+" -> "+s)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "lit "+x.Value+"+1")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "lit "+x.Value+"-1")
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true->false")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false->true")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.Pos()+1, "", "drop not "+txt(x))
			}
		case *ast.IfStmt:
			if x.Else == nil && x.Init == nil {
				add(x.Pos(), x.End(), "", "drop if "+txt(x.Cond))
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
					add(s.Pos(), s.End(), "", "drop "+txt(s))
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "", "drop "+txt(s))
					}
				case *ast.ReturnStmt:
					if len(y.Results) == 1 {
						if id, ok := y.Results[0].(*ast.Ident); ok && id.Name == "err" {
							add(id.Pos(), id.End(), "nil", "return nil for err")
						}
					}
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "continue->break")
			}
		}
		return true
	})
	return out
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			for i, e := range edits(f) {
				fmt.Printf("%s\t%d\t%d\t%q\n", f, i, e.line, e.what)
			}
		}
	case "apply":
		f := os.Args[2]
		n, _ := strconv.Atoi(os.Args[3])
		e := edits(f)[n]
		src, _ := os.ReadFile(f)
		out := append([]byte{}, src[:e.off]...)
		out = append(out, e.text...)
		out = append(out, src[e.end:]...)
		if err := os.WriteFile(f, out, 0o644); err != nil {
			panic(err)
		}
	}
}
