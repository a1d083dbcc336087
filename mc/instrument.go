package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument copies the package in src to dst with a scheduling point before
// every statement. Points at function entries have level 1, others level 0.
// Each point also carries the package-level variables its statement touches.
func instrument(src, dst string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		return err
	}
	names, err := filepath.Glob(filepath.Join(dst, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	texts := map[string][]byte{}
	pkg := ""
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		if err != nil {
			return err
		}
		if pkg == "" {
			pkg = f.Name.Name
		}
		if f.Name.Name != pkg {
			continue
		}
		files[n], texts[n] = f, b
	}
	in := &instrumenter{fset: fset, globals: map[string]*ast.ValueSpec{}}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if mentionsSync(vs) {
					continue
				}
				for _, n := range vs.Names {
					in.globals[n.Name] = vs
				}
			}
		}
	}
	spawns := false
	for _, n := range names {
		f := files[n]
		if f == nil {
			continue
		}
		in.inserts = nil
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.walk(fd)
			} else if g, ok := d.(*ast.GenDecl); ok {
				in.walk(g)
			}
		}
		// a pool gives back what was put last, whoever put it
		pools := false
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				spawns = true
			}
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil && x.Name == "sync" && s.Sel.Name == "Pool" {
					pools = true
					in.inserts = append(in.inserts, insertion{fset.Position(s.Pos()).Offset, "verifPool", len("sync.Pool")})
				}
			}
			return true
		})
		var out bytes.Buffer
		sort.SliceStable(in.inserts, func(i, k int) bool { return in.inserts[i].at < in.inserts[k].at })
		at := 0
		for _, x := range in.inserts {
			out.Write(texts[n][at:x.at])
			out.WriteString(x.text)
			at = x.at + x.cut
		}
		out.Write(texts[n][at:])
		if pools {
			out.WriteString("\nvar _ sync.Mutex\n")
		}
		if err := os.WriteFile(n, out.Bytes(), 0o644); err != nil {
			return err
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, poolText, pkg)
	if err := os.WriteFile(filepath.Join(dst, "verif_pool.go"), b.Bytes(), 0o644); err != nil {
		return err
	}
	b.Reset()
	fmt.Fprintf(&b, "package %s\n\n// VerifPoint is called at every scheduling point.\nvar VerifPoint func(level, id int)\n\nfunc verifPoint(level, id int) {\n\tif VerifPoint != nil {\n\t\tVerifPoint(level, id)\n\t}\n}\n\n// VerifAccess lists the package-level variables touched at points.\nvar VerifAccess = map[int][]string{\n", pkg)
	for i, a := range in.access {
		if len(a) > 0 {
			fmt.Fprintf(&b, "\t%d: %#v,\n", i, a)
		}
	}
	fmt.Fprintf(&b, "}\n\n// VerifWhere gives the position of each point.\nvar VerifWhere = []string{\n")
	for _, w := range in.where {
		fmt.Fprintf(&b, "\t%q,\n", w)
	}
	fmt.Fprintf(&b, "}\n\n// VerifSpawns tells whether the package starts goroutines.\nconst VerifSpawns = %v\n", spawns)
	return os.WriteFile(filepath.Join(dst, "verif_points.go"), b.Bytes(), 0o644)
}

const poolText = `package %s

import "sync"

type verifPool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *verifPool) Get() any {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *verifPool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
`

func mentionsSync(n ast.Node) (found bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && (x.Name == "sync" || x.Name == "atomic") {
				found = true
			}
		}
		return !found
	})
	return
}

type insertion struct {
	at   int
	text string
	cut  int
}

type instrumenter struct {
	fset    *token.FileSet
	globals map[string]*ast.ValueSpec
	inserts []insertion
	access  [][]string
	where   []string
}

func (in *instrumenter) point(pos token.Pos, level int, s ast.Stmt) {
	id := len(in.where)
	p := in.fset.Position(pos)
	in.where = append(in.where, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	var acc []string
	if s != nil {
		acc = in.touched(s)
	}
	in.access = append(in.access, acc)
	in.inserts = append(in.inserts, insertion{p.Offset, fmt.Sprintf("verifPoint(%d, %d); ", level, id), 0})
}

func (in *instrumenter) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.point(s.Pos(), 0, s)
	}
}

func (in *instrumenter) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				in.point(n.Body.Lbrace+1, 1, nil)
			}
		case *ast.FuncLit:
			in.point(n.Body.Lbrace+1, 1, nil)
		case *ast.BlockStmt:
			in.list(n.List)
		case *ast.CaseClause:
			in.list(n.Body)
		case *ast.CommClause:
			in.list(n.Body)
		case *ast.SwitchStmt:
			in.clauses(n.Body)
			if n.Init != nil {
				in.walk(n.Init)
			}
			if n.Tag != nil {
				in.walk(n.Tag)
			}
			return false
		case *ast.TypeSwitchStmt:
			in.clauses(n.Body)
			return false
		case *ast.SelectStmt:
			in.clauses(n.Body)
			return false
		}
		return true
	})
}

// clauses walks the clauses of a switch without treating them as statements.
func (in *instrumenter) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		in.walk(s)
	}
}

// touched lists package-level variables read ("r:path") or written ("w:path")
// by the statement itself, excluding nested blocks and function literals.
func (in *instrumenter) touched(s ast.Stmt) []string {
	set := map[string]bool{}
	var skip = map[ast.Node]bool{}
	path := func(e ast.Expr) string {
		// the longest chain of selectors at the root of e
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SliceExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.ParenExpr:
				e = x.X
				continue
			}
			break
		}
		var sel []string
		for {
			if x, ok := e.(*ast.SelectorExpr); ok {
				sel = append([]string{x.Sel.Name}, sel...)
				e = x.X
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		if !ok || !in.global(id) {
			return ""
		}
		return strings.Join(append([]string{id.Name}, sel...), ".")
	}
	write := func(e ast.Expr) {
		if p := path(e); p != "" {
			set["w:"+p] = true
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil || skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.IfStmt:
			if n.Else != nil {
				skip[n.Else] = true
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				for _, l := range n.Lhs {
					write(l)
				}
			}
		case *ast.IncDecStmt:
			write(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				write(n.Key)
				if n.Value != nil {
					write(n.Value)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				return false
			}
		case *ast.KeyValueExpr:
			if _, ok := n.Key.(*ast.Ident); ok {
				skip[n.Key] = true
			}
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 && (f.Name == "delete" || f.Name == "clear" || f.Name == "copy") {
				write(n.Args[0])
			}
		case *ast.SelectorExpr:
			if p := path(n); p != "" {
				set["r:"+p] = true
				return false
			}
		case *ast.Ident:
			if in.global(n) {
				set["r:"+n.Name] = true
			}
		}
		return true
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (in *instrumenter) global(id *ast.Ident) bool {
	vs := in.globals[id.Name]
	if vs == nil {
		return false
	}
	if id.Obj == nil {
		return true
	}
	d, ok := id.Obj.Decl.(*ast.ValueSpec)
	return ok && d == vs
}
