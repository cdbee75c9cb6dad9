package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// mapEdits finds, in the packages below repo, the iterations over maps whose
// keys are pointers, and the places that put entries in such maps (see
// sim/rt/order.go), the iterations over channels and what closes them (see
// sim/rt/chan.go), and constants passed to functions started with go. Results are by file name.
//
// Types are resolved within the repository only; whatever comes from other
// modules or the standard library has an unknown type, and is left alone.
func mapEdits(repo string) (map[string][]edit, map[string]map[int]bool, map[string]map[int]int) {
	c := &checker{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, edits: map[string][]edit{}, consts: map[string]map[int]bool{}, order: map[string]map[int]int{}}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "module" {
			c.module = strings.Trim(f[1], `"`)
		}
	}
	must(filepath.Walk(repo, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			if p != repo && (strings.HasPrefix(st.Name(), ".") || st.Name() == "testdata") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(repo, p)
			c.check(rel)
		}
		return nil
	}))
	return c.edits, c.consts, c.order
}

type checker struct {
	repo, module string
	fset         *token.FileSet
	pkgs         map[string]*types.Package
	edits        map[string][]edit
	consts       map[string]map[int]bool
	order        map[string]map[int]int // of the initialization of package-level variables
}

// Import is how the type checker gets packages.
func (c *checker) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == c.module {
		return c.check("."), nil
	}
	if strings.HasPrefix(path, c.module+"/") {
		return c.check(strings.TrimPrefix(path, c.module+"/")), nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

var _ types.Importer = (*checker)(nil)

func (c *checker) check(rel string) *types.Package {
	if p, ok := c.pkgs[rel]; ok {
		return p
	}
	c.pkgs[rel] = types.NewPackage(rel, "cycle")
	names, _ := filepath.Glob(filepath.Join(c.repo, rel, "*.go"))
	var files []*ast.File
	var rels []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(c.fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		r, _ := filepath.Rel(c.repo, n)
		files, rels = append(files, f), append(rels, r)
	}
	if len(files) == 0 {
		return c.pkgs[rel]
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: c, Error: func(error) {}}
	path := c.module + "/" + rel
	if rel == "." {
		path = c.module
	}
	p, _ := conf.Check(path, c.fset, files, info)
	if p != nil {
		c.pkgs[rel] = p
	}
	for i, x := range info.InitOrder {
		at := c.fset.Position(x.Rhs.Pos())
		r, _ := filepath.Rel(c.repo, at.Filename)
		if c.order[r] == nil {
			c.order[r] = map[int]int{}
		}
		c.order[r][at.Offset] = i + 1
	}
	byAddress := func(x ast.Expr) bool {
		t := info.Types[x].Type
		if t == nil {
			return false
		}
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		switch k := m.Key().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Chan:
			return true
		case *types.Basic:
			return k.Kind() == types.UnsafePointer
		}
		return false
	}
	for i, f := range files {
		off := func(p token.Pos) int { return c.fset.Position(p).Offset }
		add := func(pos, end token.Pos, s string) {
			c.edits[rels[i]] = append(c.edits[rels[i]], edit{pos: off(pos), end: off(end), s: s})
		}
		src, err := os.ReadFile(filepath.Join(c.repo, rels[i]))
		must(err)
		put := func(x ast.Expr) {
			for {
				p, ok := x.(*ast.ParenExpr)
				if !ok {
					break
				}
				x = p.X
			}
			if ix, ok := x.(*ast.IndexExpr); ok && byAddress(ix.X) {
				if id, ok := ix.Index.(*ast.Ident); ok && id.Name == "nil" {
					return
				}
				add(ix.Index.Pos(), ix.Index.Pos(), "zzrt.Seen(")
				add(ix.Index.End(), ix.Index.End(), ")")
			}
		}
		n := 0
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.GoStmt:
				for _, a := range x.Call.Args {
					if id, ok := a.(*ast.Ident); ok && info.Types[a].Value != nil {
						if c.consts[rels[i]] == nil {
							c.consts[rels[i]] = map[int]bool{}
						}
						c.consts[rels[i]][off(id.Pos())] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					put(l)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && info.Types[x.Fun].IsBuiltin() {
					add(id.Pos(), id.End(), "zzrt.Close")
				}
			case *ast.IncDecStmt:
				put(x.X)
			case *ast.RangeStmt:
				text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
				if overChan(info.Types[x.X].Type) {
					n++
					p := "zzp" + strconv.Itoa(n)
					id, _ := x.Key.(*ast.Ident)
					head, next := p+" := zzrt.Ranger(", "nil"
					switch {
					case x.Key == nil || id != nil && id.Name == "_":
					case x.Tok == token.DEFINE:
						head, next = p+", "+id.Name+" := zzrt.Ranger2(", "&"+id.Name
					default:
						next = "&" + text(x.Key)
					}
					add(x.For+3, x.X.Pos(), " "+head)
					add(x.X.End(), x.X.End(), "); "+p+".Next("+next+"); ")
					break
				}
				if !byAddress(x.X) {
					break
				}
				n++
				p := "zzp" + strconv.Itoa(n)
				head := " if !" + p + ".Live() { continue }; "
				switch {
				case x.Key != nil && x.Value != nil:
					head += text(x.Key) + ", " + text(x.Value) + " " + x.Tok.String() + " " + p + ".K, " + p + ".V(); "
				case x.Key != nil:
					head += text(x.Key) + " " + x.Tok.String() + " " + p + ".K; "
				}
				add(x.For+3, x.X.Pos(), " _, "+p+" := range zzrt.Pairs(")
				add(x.X.End(), x.Body.Lbrace+1, ") {"+head)
			}
			return true
		})
	}
	return c.pkgs[rel]
}

func overChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
