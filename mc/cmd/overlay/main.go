// Command overlay writes a build overlay of the package in a directory: the
// packages sync and sync/atomic are replaced by those of the scheduler, and
// the package-level variables are registered with it. The fmt package loses
// its pool of printers, whose use would order goroutines by accident.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(2)
	}
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	ctx := build.Default
	ctx.BuildTags = append(ctx.BuildTags, "race")
	pkg, err := ctx.ImportDir(dir, 0)
	die(err)
	die(os.MkdirAll(out, 0o755))
	repl := map[string]string{}
	var vars []string
	pkgName := pkg.Name
	for _, name := range pkg.GoFiles {
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		die(err)
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" || p == "sync/atomic" {
				edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset,
					strconv.Quote("verifmc/shim/" + strings.TrimPrefix(p, "sync/"))})
			}
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars = append(vars, n.Name)
					}
				}
			}
		}
		if len(edits) == 0 {
			continue
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		for _, e := range edits {
			src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
		}
		o := filepath.Join(out, name)
		die(os.WriteFile(o, src, 0o644))
		repl[path] = o
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport verifsched \"verifmc/shim/sched\"\n\nfunc init() {\n", pkgName)
	for _, v := range vars {
		fmt.Fprintf(&b, "\tverifsched.Register(%q, &%s)\n", v, v)
	}
	b.WriteString("}\n")
	o := filepath.Join(out, "zz_verif_register.go")
	die(os.WriteFile(o, b.Bytes(), 0o644))
	repl[filepath.Join(dir, "zz_verif_register.go")] = o

	for _, g := range []struct {
		pkg, file, pool, get, fresh string
	}{
		{"fmt", "print.go", "ppFree", "ppFree.Get().(*pp)", "new(pp)"},
		{"encoding/json", "scanner.go", "scannerPool", "scannerPool.Get().(*scanner)", "new(scanner)"},
	} {
		file := filepath.Join(ctx.GOROOT, "src", g.pkg, g.file)
		src, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		s := string(src)
		i := strings.Index(s, g.pool+".Put(")
		if i < 0 || strings.Count(s, g.pool+".Put(") != 1 || strings.Count(s, g.get) != 1 {
			continue
		}
		k := i + strings.Index(s[i:], "\n")
		s = strings.Replace(s[:i]+s[k:], g.get, g.fresh, 1)
		o := filepath.Join(out, strings.ReplaceAll(g.pkg, "/", "_")+"_"+g.file)
		die(os.WriteFile(o, []byte(s), 0o644))
		repl[file] = o
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": repl})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}
