// instr copies a Go source tree and redirects time.Now (and, in sched mode,
// the blocking operations of package sync) to shims, so that the real code
// runs under a controlled clock and scheduler.  Nothing in the copied logic
// is changed otherwise.
//
//	instr clock SRC DST    controllable clock, status page
//	instr sched SRC DST    controllable clock and scheduler
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	mode, src, dst := os.Args[1], os.Args[2], os.Args[3]
	mod := moduleName(src)
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !d.Type().IsRegular() {
			return nil
		}
		base := d.Name()
		if strings.HasSuffix(base, ".go") {
			out, err := rewrite(mode, mod, p, rel)
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), out, 0o644)
		}
		if base == "go.mod" || base == "go.sum" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}
		return nil
	})
	die(err)
	die(os.MkdirAll(filepath.Join(dst, "zzv", "vtime"), 0o755))
	die(os.WriteFile(filepath.Join(dst, "zzv", "vtime", "alias.go"), aliases("time", "vtime", map[string]bool{"Now": true, "Since": true, "Until": true}), 0o644))
	if mode == "sched" {
		die(os.MkdirAll(filepath.Join(dst, "zzv", "vsync"), 0o755))
		die(os.WriteFile(filepath.Join(dst, "zzv", "vsync", "alias.go"), aliases("sync", "vsync", map[string]bool{"Mutex": true, "RWMutex": true, "Locker": true, "Once": true, "WaitGroup": true, "Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}), 0o644))
	}
}

func moduleName(src string) string {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die(fmt.Errorf("no module name"))
	return ""
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

func rewrite(mode, mod, path, rel string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(pos, end int, text string) { edits = append(edits, edit{pos, end, text, len(edits)}) }

	sched := mode == "sched" && schedPkg(rel)
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		repl := ""
		switch p {
		case "time":
			repl = mod + "/zzv/vtime"
		case "sync":
			if sched {
				repl = mod + "/zzv/vsync"
			}
		case "sync/atomic":
		}
		if repl == "" {
			continue
		}
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		s := off(im.Pos())
		add(s, off(im.End()), name+" "+strconv.Quote(repl))
	}
	if sched {
		instrument(f, src, off, add)
		add(off(f.Name.End()), off(f.Name.End()), "; import zzsched "+strconv.Quote(mod+"/zzv/sched"))
		add(len(src), len(src), "\nvar _ = zzsched.Yield\n")
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	last := 0
	for _, e := range edits {
		if e.pos < last {
			continue
		}
		out = append(out, src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	return out, nil
}

// packages whose code runs under the controlled scheduler
func schedPkg(rel string) bool {
	d := strings.Split(filepath.ToSlash(rel), "/")[0]
	return d != "server" && d != "logger" && d != "config" && strings.Contains(filepath.ToSlash(rel), "/")
}

// instrument inserts a scheduling point before every statement.
func instrument(f *ast.File, src []byte, off func(token.Pos) int, add func(int, int, string)) {
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s := s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.DeclStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.IncDecStmt:
				if simple(s.X) {
					op := "+"
					if s.Tok == token.DEC {
						op = "-"
					}
					add(off(s.Pos()), off(s.End()), fmt.Sprintf("{ zzsched.Yield(); zzp := &%s; zzt := *zzp; zzsched.Yield(); *zzp = zzt %s 1 }", text(s.X), op))
					continue
				}
			case *ast.AssignStmt:
				if op, ok := assignOp[s.Tok]; ok && len(s.Lhs) == 1 && simple(s.Lhs[0]) && noFunc(s.Rhs[0]) {
					add(off(s.Pos()), off(s.End()), fmt.Sprintf("{ zzsched.Yield(); zzp := &%s; zzt := *zzp; zzsched.Yield(); *zzp = zzt %s (%s) }", text(s.Lhs[0]), op, text(s.Rhs[0])))
					continue
				}
			}
			add(off(s.Pos()), off(s.Pos()), "zzsched.Yield(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
			// one more point at the end of loop bodies and functions
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			add(off(n.Pos()), off(n.Call.Pos()), "zzsched.Go(func() { ")
			add(off(n.End()), off(n.End()), " })")
		}
		return true
	})
}

var assignOp = map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.OR_ASSIGN: "|", token.AND_ASSIGN: "&", token.XOR_ASSIGN: "^"}

// simple: a field selection x.y.z, whose address can be taken twice safely
func simple(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	for {
		switch x := s.X.(type) {
		case *ast.Ident:
			return true
		case *ast.SelectorExpr:
			s = x
		default:
			return false
		}
	}
}

func noFunc(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, f := n.(*ast.FuncLit); f {
			ok = false
		}
		return ok
	})
	return ok
}

// aliases re-exports a standard package except the names in skip.
func aliases(pkg, name string, skip map[string]bool) []byte {
	dir := filepath.Join(runtime.GOROOT(), "src", pkg)
	ents, err := os.ReadDir(dir)
	die(err)
	consts, vars, types, funcs := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if i := strings.LastIndex(strings.TrimSuffix(n, ".go"), "_"); i >= 0 {
			suf := strings.TrimSuffix(n, ".go")[i+1:]
			if suf != "unix" && suf != "linux" && suf != "read" && suf != "sleep" && osArch[suf] {
				continue
			}
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, parser.ParseComments)
		die(err)
		if f.Name.Name != pkg || ignored(f) {
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() && d.Type.TypeParams == nil {
					funcs[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() && s.TypeParams == nil {
							types[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, id := range s.Names {
							if id.IsExported() {
								if d.Tok == token.CONST {
									consts[id.Name] = true
								} else {
									vars[id.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zz %q\n\n", name, pkg)
	emit := func(kw string, m map[string]bool) {
		var ks []string
		for k := range m {
			if !skip[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "%s %s = zz.%s\n", kw, k, k)
		}
	}
	emit("const", consts)
	emit("type", types)
	emit("var", vars)
	emit("var", funcs)
	return []byte(b.String())
}

var osArch = map[string]bool{"windows": true, "plan9": true, "js": true, "wasip1": true, "android": true, "ios": true, "darwin": true, "goroot": true, "wasm": true}

func ignored(f *ast.File) bool {
	for _, c := range f.Comments {
		if c.Pos() > f.Package {
			break
		}
		t := c.Text()
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:build") {
				if strings.Contains(l.Text, "ignore") || (strings.Contains(l.Text, "js") || strings.Contains(l.Text, "windows") || strings.Contains(l.Text, "plan9") || strings.Contains(l.Text, "wasip1") || strings.Contains(l.Text, "race")) && !strings.Contains(l.Text, "!") && !strings.Contains(l.Text, "unix") {
					return true
				}
			}
		}
		_ = t
	}
	return false
}
