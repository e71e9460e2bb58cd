// Command instr writes a build overlay for the library in which every
// statement is a scheduling point and package sync is the cooperative one.
//
//	instr -repo /repo -out DIR [-stress]
//
// It prints COOP when the library only uses what the cooperative scheduler
// understands, otherwise REAL and why: then only -stress is meaningful, which
// keeps package sync and merely disturbs real threads at the same points.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vs = "github.com/henderiw/idxtable/pkg/verifsync"

type ins struct {
	at, end int // replaces [at,end)
	s       string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sync := flag.String("verifsync", "", "source of the cooperative package")
	stress := flag.Bool("stress", false, "")
	access := flag.Bool("access", false, "report accesses to shared memory as well")
	flag.Parse()
	replace := map[string]string{}
	why := ""
	n := 0
	err := filepath.Walk(filepath.Join(*repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		dir := filepath.Base(filepath.Dir(p))
		light := strings.HasPrefix(dir, "id") && dir != "idxtable" // values, no shared state of their own
		call := "verifsync.Yield();"
		if *stress {
			call = "verifsync.Jolt();"
		}
		var list []ins
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == "sync" && !*stress {
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				list = append(list, ins{off(im.Path.Pos()), off(im.Path.End()), name + strconv.Quote(vs)})
			}
			if path == "time" || path == "context" {
				why = p + " imports " + path
			}
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				list = append(list, ins{off(s.Pos()), off(s.Pos()), call})
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				why = fmt.Sprintf("%s:%d uses goroutines or channels", p, fs.Position(nd.Pos()).Line)
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					why = fmt.Sprintf("%s:%d receives", p, fs.Position(nd.Pos()).Line)
				}
			case *ast.FuncDecl:
				if light {
					if x.Body != nil {
						list = append(list, ins{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, call})
					}
					return true
				}
			case *ast.ForStmt:
				if len(x.Body.List) == 0 || light {
					list = append(list, ins{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, call})
				}
			case *ast.BlockStmt:
				if !light {
					inSwitch := false
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							inSwitch = true
						}
					}
					if !inSwitch {
						stmts(x.List)
					}
				}
			case *ast.CaseClause:
				if !light {
					stmts(x.Body)
				}
			}
			return true
		})
		list = append(list, ins{off(f.Name.End()), off(f.Name.End()), "; import verifsync " + strconv.Quote(vs)})
		list = append(list, ins{len(src), len(src), "\nvar _ = verifsync.Yield\n"})
		sort.SliceStable(list, func(i, j int) bool { return list[i].at < list[j].at })
		var b strings.Builder
		at := 0
		for _, i := range list {
			b.Write(src[at:i.at])
			b.WriteString(i.s)
			at = i.end
		}
		b.Write(src[at:])
		n++
		q := filepath.Join(*out, fmt.Sprintf("%03d_%s", n, filepath.Base(p)))
		replace[p] = q
		return os.WriteFile(q, []byte(b.String()), 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	if *access && why == "" {
		r, sites, err := accessOverlay(*repo, *out)
		if err != nil {
			why = err.Error()
		} else {
			for k, v := range r {
				replace[k] = v
			}
			b, _ := json.Marshal(sites)
			os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644)
		}
	}
	dir := filepath.Dir(*sync)
	for _, f := range []string{"verifsync.go", "access.go"} {
		replace[filepath.Join(*repo, "pkg/verifsync", f)] = filepath.Join(dir, f)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	if why != "" {
		fmt.Println("REAL", why)
	} else {
		fmt.Println("COOP")
	}
}
