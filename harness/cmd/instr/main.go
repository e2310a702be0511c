// instr writes a build overlay in which every statement of the library is
// preceded by a call to vyield.P: instr REPO OUTDIR -> OUTDIR/overlay.json.
// With argument -plain the overlay is empty.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var site int

type ins struct {
	off  int
	text string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.RemoveAll(filepath.Join(out, "src"))
	if err := os.MkdirAll(filepath.Join(out, "src"), 0o755); err != nil {
		panic(err)
	}
	rep := map[string]string{}
	var table []string
	for _, dir := range []string{".", "channel", "ws/server", "ws/client", "codegen"} {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				continue // let the compiler report it
			}
			name := f[len(repo)+1:]
			if name == "codegen/generator.go" || name == "logger.go" {
				continue
			}
			var list []ins
			add := func(st ast.Stmt) {
				switch s := st.(type) {
				case *ast.EmptyStmt:
					return
				case *ast.BranchStmt:
					if s.Tok == token.FALLTHROUGH {
						return
					}
				}
				pos := fset.Position(st.Pos())
				list = append(list, ins{pos.Offset, fmt.Sprintf("vyield.P(%d);", site)})
				table = append(table, fmt.Sprintf("%d %s:%d", site, name, pos.Line))
				site++
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if fd.Doc != nil && strings.Contains(docText(fd.Doc), "go:nosplit") {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch b := n.(type) {
					case *ast.BlockStmt:
						for _, st := range b.List {
							switch st.(type) {
							case *ast.CaseClause, *ast.CommClause:
							default:
								add(st)
							}
						}
					case *ast.CaseClause:
						for _, st := range b.Body {
							add(st)
						}
					case *ast.CommClause:
						for _, st := range b.Body {
							add(st)
						}
					}
					return true
				})
			}
			if len(list) == 0 {
				continue
			}
			list = append(list, ins{fset.Position(af.Name.End()).Offset, `;import vyield "qv/vyield"`})
			sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
			var sb strings.Builder
			last := 0
			for _, i := range list {
				sb.Write(src[last:i.off])
				sb.WriteString(i.text)
				last = i.off
			}
			sb.Write(src[last:])
			dst := filepath.Join(out, "src", strings.ReplaceAll(name, "/", "__"))
			if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
				panic(err)
			}
			rep[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(table, "\n")+"\n"), 0o644)
	fmt.Println(site, "sites")
}

func docText(g *ast.CommentGroup) string {
	var s string
	for _, c := range g.List {
		s += c.Text + "\n"
	}
	return s
}
