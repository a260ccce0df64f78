// instr writes an instrumented copy of the non-test Go files below REPO/pkg to
// OUT and a build overlay OUT/overlay.json that substitutes them, adds package
// zverif/vsched (and the harness packages) to the module, and replaces
// imports of "sync". It inserts text at statement positions, so everything else
// of the file stays byte for byte.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const y = "vsched__.Yield();"

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: instr REPO HARNESS OUT")
		os.Exit(2)
	}
	repo, harness, out := os.Args[1], os.Args[2], os.Args[3]
	mod := modulePath(repo)
	rep := map[string]string{}
	n := 0
	err := filepath.WalkDir(filepath.Join(repo, "pkg"), func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, err := instrument(path, src, mod)
		if err != nil {
			return err
		}
		n++
		dst := filepath.Join(out, fmt.Sprintf("f%03d_%s", n, filepath.Base(path)))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		rep[path] = dst
		return nil
	})
	die(err)
	for _, p := range []string{"vsched", "pbt", "props", "cmd"} {
		es, err := os.ReadDir(filepath.Join(harness, p))
		die(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				rep[filepath.Join(repo, "zverif", p, e.Name())] = filepath.Join(harness, p, e.Name())
			}
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die(fmt.Errorf("no module line"))
	return ""
}

type edit struct {
	off  int
	del  int
	text string
}

func instrument(path string, src []byte, mod string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	used, errorf, fmtImported := false, false, false
	for _, im := range f.Imports {
		if im.Name == nil && im.Path.Value == `"fmt"` {
			fmtImported = true
		}
	}
	ins := func(p token.Pos) { eds = append(eds, edit{off(p), 0, y}); used = true }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			// comparators of the sort packages see local data in an order that
			// may stem from map iteration: stepping them would make step
			// numbers irreproducible
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == "fmt" && sel.Sel.Name == "Errorf" && fmtImported {
					eds = append(eds, edit{off(id.Pos()), len("fmt"), "vsched__"})
					errorf, used = true, true
				}
				if id, ok := sel.X.(*ast.Ident); ok && (id.Name == "sort" || id.Name == "slices") {
					return false
				}
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			ins(x.Body.Lbrace + 1)
		case *ast.RangeStmt:
			ins(x.Body.Lbrace + 1)
		case *ast.FuncDecl:
			if x.Body != nil && len(x.Body.List) == 0 {
				ins(x.Body.Lbrace + 1)
			}
		}
		return true
	})
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			t := strconv.Quote(mod + "/zverif/vsched")
			if im.Name == nil {
				t = "sync " + t
			}
			eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	if used {
		eds = append(eds, edit{off(f.Name.End()), 0, "; import vsched__ " + strconv.Quote(mod+"/zverif/vsched")})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var b strings.Builder
	pos := 0
	for _, e := range eds {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	if errorf {
		b.WriteString("\nvar _ = fmt.Errorf\n")
	}
	return []byte(b.String()), nil
}
