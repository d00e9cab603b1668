// Command mutate lists or applies small syntactic changes of one Go source file. It is a tool for
// judging the checks (see DESIGN.md, "Mutation sampling"); no check uses it.
//
//	mutate list FILE            one line per change: index, line, function, kind
//	mutate apply FILE INDEX     the changed file on standard output
//
// vlist and vapply do the same for another kind of change: a function that does nothing (and returns
// zero values) when one of its parameters has an unusual value, such as an empty or very long slice.
// A change of that kind that no check notices means that no workload calls the function that way.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	from, to int
	text     string
	line     int
	fn, kind string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var cs []change
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if name == "String" || name == "Format" || strings.HasPrefix(name, "Print") || name == "InfoString" || name == "GoString" {
			continue
		}
		add := func(a, b token.Pos, text, kind string) {
			cs = append(cs, change{off(a), off(b), text, fset.Position(a).Line, name, kind})
		}
		whole := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		if strings.HasPrefix(os.Args[1], "v") {
			ret := "return"
			if rs := fd.Type.Results; rs != nil && len(rs.List) > 0 && len(rs.List[0].Names) == 0 {
				var zs []string
				for _, x := range rs.List {
					zs = append(zs, "*new("+whole(x.Type)+")")
				}
				ret += " " + strings.Join(zs, ", ")
			}
			for _, p := range fd.Type.Params.List {
				for _, id := range p.Names {
					for _, cond := range unusual(id.Name, whole(p.Type)) {
						at := fd.Body.Lbrace + 1
						cs = append(cs, change{off(at), off(at), "\nif " + cond + " {\n" + ret + "\n}\n", fset.Position(at).Line, name, strings.ReplaceAll(cond, " ", "")})
					}
				}
			}
			continue
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				s := whole(x.Fun)
				if strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "common.NewDvppError") || s == "panic" {
					return false
				}
			case *ast.BinaryExpr:
				swap := map[token.Token][]string{
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
					token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
				}
				for _, t := range swap[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, x.Op.String()+"->"+t)
				}
				if x.Op == token.LAND || x.Op == token.LOR { // one operand alone
					add(x.Pos(), x.End(), whole(x.X), "left-operand")
					add(x.Pos(), x.End(), whole(x.Y), "right-operand")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "literal+1")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true->false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false->true")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "("+whole(x.Cond)+") && false", "if-never")
				if x.Else != nil {
					add(x.Cond.Pos(), x.Cond.End(), "("+whole(x.Cond)+") || true", "if-always")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(x.Pos(), x.End(), "break", "continue->break")
				} else if x.Label == nil && x.Tok == token.BREAK {
					add(x.Pos(), x.End(), "continue", "break->continue")
				}
			case *ast.ReturnStmt:
				if n := len(x.Results); n > 0 {
					if id, ok := x.Results[n-1].(*ast.Ident); ok && strings.HasPrefix(id.Name, "err") {
						add(id.Pos(), id.End(), "nil", "error-dropped")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "("+whole(x.Low)+")+1", "slice-low+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "("+whole(x.High)+")-1", "slice-high-1")
				}
			case *ast.ExprStmt:
				if !strings.HasPrefix(whole(x), "log.") && !strings.HasPrefix(whole(x), "panic") {
					add(x.Pos(), x.End(), "", "drop-call")
				}
			case *ast.DeferStmt:
				add(x.Pos(), x.End(), "", "drop-defer")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					if x.Tok == token.ASSIGN {
						l := make([]string, len(x.Lhs))
						ok := true
						for i := range l {
							l[i] = "_"
							if len(x.Rhs) == len(x.Lhs) {
								if id, isID := x.Rhs[i].(*ast.Ident); isID && id.Name == "nil" {
									ok = false
								}
							}
						}
						if ok {
							add(x.Pos(), x.TokPos, strings.Join(l, ", ")+" ", "drop-assign")
						} else {
							add(x.Pos(), x.End(), "", "drop-assign")
						}
					} else {
						add(x.Pos(), x.End(), "", "drop-assign")
					}
				}
			case *ast.IncDecStmt:
				add(x.Pos(), x.End(), "", "drop-incdec")
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, isID := kv.Key.(*ast.Ident); isID && len(x.Elts) > 1 {
							end := off(kv.End())
							for end < len(src) && (src[end] == ' ') {
								end++
							}
							if end < len(src) && src[end] == ',' {
								cs = append(cs, change{off(kv.Pos()), end + 1, "", fset.Position(kv.Pos()).Line, name, "drop-field"})
							}
						}
					}
				}
			}
			return true
		}
		ast.Inspect(fd.Body, visit)
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].from < cs[j].from })
	switch os.Args[1] {
	case "list", "vlist":
		for i, c := range cs {
			fmt.Printf("%d\t%d\t%s\t%s\n", i, c.line, c.fn, c.kind)
		}
	case "apply", "vapply":
		i, _ := strconv.Atoi(os.Args[3])
		c := cs[i]
		os.Stdout.Write(src[:c.from])
		os.Stdout.WriteString(c.text)
		os.Stdout.Write(src[c.to:])
	}
}

func unusual(p, typ string) []string {
	var l []string
	add := func(f string) { l = append(l, strings.ReplaceAll(f, "$", p)) }
	switch {
	case p == "_":
	case typ == "[]byte" || typ == "string":
		for _, c := range []string{"len($) == 0", "len($) == 1", "len($) > 130", "len($) > 70000", "len($) > 0 && $[0] == 0", "len($) > 0 && $[len($)-1] == 0", "len($) == 55", "len($) == 56", "len($) == 33"} {
			add(c)
		}
		if typ == "[]byte" {
			add("$ == nil")
		}
	case strings.HasPrefix(typ, "[]"):
		for _, c := range []string{"$ == nil", "$ != nil && len($) == 0", "len($) == 1", "len($) > 40", "len($) > 260"} {
			add(c)
		}
	case typ == "int" || typ == "int64" || typ == "int32":
		for _, c := range []string{"$ < 0", "$ == 0", "$ == 1", "$ > 300", "$ > 70000"} {
			add(c)
		}
		if typ == "int64" || typ == "int" {
			add("$ > 1<<40")
			add("$ < -(1<<40)")
		}
	case typ == "uint64" || typ == "uint32" || typ == "uint" || typ == "uint16" || typ == "uint8" || typ == "byte":
		for _, c := range []string{"$ == 0", "$ == 1", "$ == 127", "$ == 128", "$ == ^" + typ + "(0)", "$ > ^" + typ + "(0)/2"} {
			add(c)
		}
		if typ == "uint64" {
			add("$ > 1<<33 && $ < 1<<60")
		}
	case typ == "*big.Int":
		for _, c := range []string{"$ != nil && $.Sign() < 0", "$ != nil && $.Sign() == 0", "$ == nil", "$ != nil && $.BitLen() > 256", "$ != nil && $.BitLen() == 256", "$ != nil && $.BitLen() > 600"} {
			add(c)
		}
	case strings.HasPrefix(typ, "*"), typ == "interface{}", typ == "reflect.Type":
		add("$ == nil")
	case strings.HasPrefix(typ, "map["):
		add("$ == nil")
		add("$ != nil && len($) == 0")
	}
	return l
}
