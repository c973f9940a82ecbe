package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The overlay: every non-test source file of the repository, regenerated from the
// working tree on each run, with scheduling points before statements and the
// environment (clock, mutexes, listeners, HTTP router) routed to the harness
// runtime. The same overlay is given to the engine and to the native replay build.

type edit struct {
	off, end int
	txt      string
	ord      int
}

var selRewrite = map[string]map[string]string{
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep",
		"After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick"},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex"},
	"net":  {"Listen": "NetListen", "Dial": "NetDial", "DialTimeout": "NetDialTimeout"},
}

var keepAlive = map[string]string{"time": "var _ time.Duration", "sync": "var _ sync.Once", "net": "var _ net.Conn"}

var importRewrite = map[string]string{
	"github.com/gin-gonic/gin":  repoMod + "/internal/zzgin",
	"github.com/fakeyanss/gron": repoMod + "/internal/zzgron",
}

func instrumentFile(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, t string) { o := off(p); eds = append(eds, edit{o, o, t, len(eds)}) }
	rep := func(a, b token.Pos, t string) { eds = append(eds, edit{off(a), off(b), t, len(eds)}) }
	used := false
	imp := map[string]string{}
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if is.Name != nil {
			n = is.Name.Name
		}
		imp[n] = p
		if r, ok := importRewrite[p]; ok {
			if is.Name == nil {
				rep(is.Path.Pos(), is.Path.End(), n+` "`+r+`"`)
			} else {
				rep(is.Path.Pos(), is.Path.End(), `"`+r+`"`)
			}
		}
	}
	keep := map[string]bool{}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			ins(s.Pos(), "zzvrt.Y(); ")
			used = true
		}
	}
	comm := map[ast.Node]bool{} // receives of select clauses
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
			switch c := x.Comm.(type) {
			case *ast.ExprStmt:
				comm[c.X] = true
			case *ast.AssignStmt:
				comm[c.Rhs[0]] = true
			}
		case *ast.GoStmt:
			if id, ok := x.Call.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println") {
				break
			}
			ins(x.Call.Fun.Pos(), "zzvrt.W(")
			ins(x.Call.Fun.End(), ")")
			used = true
		case *ast.UnaryExpr:
			if c, ok := x.X.(*ast.CallExpr); ok && x.Op == token.ARROW {
				if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "After" {
					if id, ok := se.X.(*ast.Ident); ok && id.Obj == nil && imp[id.Name] == "time" && !comm[x] {
						rep(x.Pos(), c.Fun.End(), "zzvrt.AfterWait")
						keep[id.Name] = true
						used = true
						for _, a := range c.Args {
							ast.Inspect(a, visit)
						}
						return false
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
				if m, ok := selRewrite[imp[id.Name]]; ok {
					if r, ok := m[x.Sel.Name]; ok {
						rep(x.Pos(), x.End(), "zzvrt."+r)
						keep[id.Name] = true
						used = true
					}
				}
			}
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, visit)
	}
	if used {
		ins(f.Name.End(), `; import zzvrt "`+vrtPath+`"`)
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		// insertions before replacements at the same offset
		return eds[i].end == eds[i].off && eds[j].end != eds[j].off
	})
	var out []byte
	pos := 0
	for _, e := range eds {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits", path)
		}
		out = append(out, src[pos:e.off]...)
		out = append(out, e.txt...)
		pos = e.end
	}
	out = append(out, src[pos:]...)
	var names []string
	for n := range keep {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		k := keepAlive[imp[n]]
		base := imp[n]
		k = strings.Replace(k, base+".", n+".", 1)
		out = append(out, "\n"+k+"\n"...)
	}
	return out, nil
}

// buildOverlay returns path -> content for the whole analysis.
func buildOverlay(repo, verif, prop string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, top := range []string{"internal", "pkg"} {
		err := filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if strings.HasPrefix(fi.Name(), "zz") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || fi.Name() == "asset.go" {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			o, err := instrumentFile(p, src)
			if err != nil {
				return err
			}
			ov[p] = o
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	add := func(srcDir, dstDir string) error {
		ms, _ := filepath.Glob(filepath.Join(srcDir, "*.go"))
		if len(ms) == 0 {
			return fmt.Errorf("no sources in %s", srcDir)
		}
		for _, m := range ms {
			b, err := os.ReadFile(m)
			if err != nil {
				return err
			}
			ov[filepath.Join(repo, dstDir, filepath.Base(m))] = b
		}
		return nil
	}
	if err := add(filepath.Join(verif, "vrt"), "internal/zzvrt"); err != nil {
		return nil, err
	}
	for _, d := range []string{"zzgin", "zzgron"} {
		if err := add(filepath.Join(verif, "models", d), "internal/"+d); err != nil {
			return nil, err
		}
	}
	if err := add(filepath.Join(verif, "harness", "lib"), "internal/zzv/lib"); err != nil {
		return nil, err
	}
	return ov, add(filepath.Join(verif, "harness", strings.ToLower(prop)), "internal/zzv/"+strings.ToLower(prop))
}
