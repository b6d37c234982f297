// instr copies the repository and puts scheduling points into the packages whose
// goroutines share memory: locks come from vsync, go statements start controlled tasks,
// and a point precedes every statement that touches a field, an element, a dereferenced
// pointer or a package variable.  Line numbers are kept.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const schedPath = "github.com/zhiqiangxu/mondis/vsched"

// packages without scheduling points, because they share nothing: they only get
// controlled locks and go statements, should they have any.
var plain = map[string]bool{"document/bson": true, "document/config": true, "document/keyspace": true, "document/model": true}

// packages left alone: they run on real threads.
var skip = map[string]bool{"provider": true, "client": true, "server": true, "pb": true, "test": true, "vsched": true}

func main() {
	remote := len(os.Args) > 1 && os.Args[1] == "-remote"
	if remote {
		os.Args = append(os.Args[:1:1], os.Args[2:]...)
	}
	src, dst := os.Args[1], os.Args[2]
	must(copyTree(src, dst))
	self := "."
	if len(os.Args) > 3 {
		self = os.Args[3]
	}
	must(copyTree(filepath.Join(self, "vsched"), filepath.Join(dst, "vsched")))
	n := 0
	if remote {
		for _, r := range []string{"client", "server"} {
			n += instrumentAll(filepath.Join(dst, r), r)
		}
		fmt.Println("statement points:", n)
		return
	}
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return err
		}
		r, _ := filepath.Rel(src, p)
		if strings.HasPrefix(fi.Name(), ".") && r != "." || skip[r] || fi.Name() == "testdata" {
			return filepath.SkipDir
		}
		n += instrument(filepath.Join(dst, r), r, strings.HasPrefix(r+"/", "document/") && !plain[r])
		return nil
	}))
	fmt.Println("scheduling points:", n)
	if n == 0 {
		fmt.Fprintln(os.Stderr, "nothing instrumented")
		os.Exit(2)
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(filepath.Join(to, rel))
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			return err
		}
		return out.Close()
	})
}

// instrumentAll puts a point before every statement and changes nothing else.
func instrumentAll(dir, pkg string) (n int) {
	ents, err := os.ReadDir(dir)
	must(err)
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		p := filepath.Join(dir, e.Name())
		src, err := os.ReadFile(p)
		must(err)
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		must(err)
		fl := &file{fset: fset, f: f, src: src, label: pkg + "/" + e.Name()}
		fl.ins(f.Name.End(), "; import vsched \""+schedPath+"\"")
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.LabeledStmt); !ok {
					fl.ins(s.Pos(), fl.point(s.Pos()))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt: // its body holds clauses
				for _, b := range x.Body.List {
					stmts(b.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, b := range x.Body.List {
					stmts(b.(*ast.CaseClause).Body)
				}
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(x.List)
			}
			return true
		})
		n += fl.write()
	}
	return
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type file struct {
	fset    *token.FileSet
	f       *ast.File
	src     []byte
	edits   []edit
	imports map[string]bool
	fields  map[string]bool
	globals map[string]bool
	label   string
	points  int
	locks   bool // only locks and go statements
}

func instrument(dir, pkg string, points bool) int {
	ents, err := os.ReadDir(dir)
	must(err)
	fset := token.NewFileSet()
	var files []*file
	fields, globals := map[string]bool{}, map[string]bool{}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		src, err := os.ReadFile(p)
		must(err)
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		must(err)
		fl := &file{fset: fset, f: f, src: src, imports: map[string]bool{}, fields: fields, globals: globals, label: filepath.Base(pkg) + "/" + e.Name(), locks: !points}
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			fl.imports[name] = true
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if !strings.HasPrefix(n.Name, "Err") && n.Name != "_" {
						globals[n.Name] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if st, ok := n.(*ast.StructType); ok {
				for _, fd := range st.Fields.List {
					for _, nm := range fd.Names {
						fields[nm.Name] = true
					}
				}
			}
			return true
		})
		files = append(files, fl)
	}
	n := 0
	for _, fl := range files {
		n += fl.run()
	}
	return n
}

func (fl *file) off(p token.Pos) int { return fl.fset.Position(p).Offset }

func (fl *file) ins(p token.Pos, text string) {
	fl.edits = append(fl.edits, edit{fl.off(p), fl.off(p), text, len(fl.edits)})
}

func (fl *file) repl(a, b token.Pos, text string) {
	fl.edits = append(fl.edits, edit{fl.off(a), fl.off(b), text, len(fl.edits)})
}

func (fl *file) run() int {
	fl.ins(fl.f.Name.End(), "; import vsched \""+schedPath+"\"")
	for _, im := range fl.f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			start := im.Path.Pos()
			if im.Name != nil {
				start = im.Name.Pos()
			}
			fl.repl(start, im.Path.End(), name+" \""+schedPath+"/vsync\"")
		}
	}
	ast.Inspect(fl.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fl.list(x.List)
		case *ast.CaseClause:
			fl.list(x.Body)
		case *ast.CommClause:
			fl.list(x.Body)
		}
		return true
	})
	return fl.write()
}

func (fl *file) write() int {
	sort.SliceStable(fl.edits, func(i, j int) bool {
		if fl.edits[i].at != fl.edits[j].at {
			return fl.edits[i].at < fl.edits[j].at
		}
		return fl.edits[i].seq < fl.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range fl.edits {
		if e.at < pos {
			continue // inside a replaced region
		}
		out.Write(fl.src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(fl.src[pos:])
	out.WriteString("\nvar _ = vsched.S\n")
	must(os.WriteFile(fl.fset.Position(fl.f.Pos()).Filename, out.Bytes(), 0o644))
	return fl.points
}

func (fl *file) point(p token.Pos) string {
	fl.points++
	return fmt.Sprintf("vsched.S(\"%s:%d\"); ", fl.label, fl.fset.Position(p).Line)
}

func (fl *file) list(stmts []ast.Stmt) {
	for _, s := range stmts {
		if l, ok := s.(*ast.LabeledStmt); ok {
			s = l.Stmt
			if _, loop := s.(*ast.ForStmt); loop {
				continue
			}
			if _, loop := s.(*ast.RangeStmt); loop {
				continue
			}
			continue
		}
		switch x := s.(type) {
		case *ast.GoStmt:
			fl.goStmt(x)
			continue
		case *ast.IncDecStmt:
			if !fl.locks && fl.sharedExpr(x.X) && simple(x.X) {
				v := string(fl.src[fl.off(x.X.Pos()):fl.off(x.X.End())])
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				fl.repl(x.Pos(), x.End(), fmt.Sprintf("%svschedv := %s; vsched.S(\"%s:%d\"); %s = vschedv %s 1", "{ "+fl.point(x.Pos()), v, fl.label, fl.fset.Position(x.Pos()).Line, v, op)+" }")
				fl.points++
				continue
			}
		}
		if !fl.locks && fl.shared(s) {
			fl.ins(s.Pos(), fl.point(s.Pos()))
		}
	}
}

// simple expressions may be evaluated twice.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	}
	return false
}

func (fl *file) goStmt(g *ast.GoStmt) {
	c := g.Call
	sep := ""
	if len(c.Args) > 0 {
		sep = ", "
	}
	fl.repl(g.Pos(), c.Fun.Pos(), "vsched.GoCall(")
	fl.repl(c.Lparen, c.Lparen+1, sep)
}

// shared looks at the part of the statement that runs before its nested blocks.
func (fl *file) shared(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.BlockStmt, *ast.SelectStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.LabeledStmt:
		return false
	case *ast.IfStmt:
		return fl.node(x.Init) || fl.sharedExpr(x.Cond)
	case *ast.ForStmt:
		return fl.node(x.Init) || fl.sharedExpr(x.Cond)
	case *ast.RangeStmt:
		return fl.sharedExpr(x.X)
	case *ast.SwitchStmt:
		return fl.node(x.Init) || fl.sharedExpr(x.Tag)
	case *ast.TypeSwitchStmt:
		return fl.node(x.Init) || fl.node(x.Assign)
	}
	return fl.node(s)
}

func (fl *file) sharedExpr(e ast.Expr) bool {
	if e == nil {
		return false
	}
	return fl.node(e)
}

func (fl *file) node(n ast.Node) bool {
	if n == nil {
		return false
	}
	if s, ok := n.(ast.Stmt); ok && s == nil {
		return false
	}
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if found {
			return false
		}
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && fl.imports[id.Name] && id.Obj == nil {
				if id.Name == "atomic" {
					found = true
				}
				return false
			}
			if fl.fields[x.Sel.Name] {
				found = true
				return false
			}
			ast.Inspect(x.X, func(y ast.Node) bool {
				if !found && y != nil && fl.node1(y) {
					found = true
				}
				return !found
			})
			return false
		default:
			if x != nil && fl.node1(x) {
				found = true
				return false
			}
		}
		return true
	})
	return found
}

// node1 judges one node without its children (selectors are judged by node).
func (fl *file) node1(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && fl.imports[id.Name] && id.Obj == nil {
			return false
		}
		return fl.fields[x.Sel.Name]
	case *ast.Ident:
		if !fl.globals[x.Name] {
			return false
		}
		// a local variable of the same name is declared inside a function
		if x.Obj != nil {
			if vs, ok := x.Obj.Decl.(*ast.ValueSpec); ok {
				for _, d := range fl.f.Decls {
					if g, ok := d.(*ast.GenDecl); ok {
						for _, sp := range g.Specs {
							if sp == vs {
								return true
							}
						}
					}
				}
			}
			return false
		}
		return true
	}
	return false
}
