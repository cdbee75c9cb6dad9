// Command simbuild builds the simulator from the current working tree of the
// repository under test.
//
//	simbuild -repo /repo -sim /verif/sim -out DIR [-race]
//
// It creates in DIR
//
//	overlay/  patched copies of a few files of GOROOT (the system-call, exit, clock
//	          and randomness seams),
//	repo/     a copy of the repository whose statements are preceded by scheduling
//	          points and whose locks and goroutines belong to the simulator,
//	sim/      a copy of the simulator's own module, with each program of the
//	          repository's cmd/ directory turned into a package,
//
// and compiles DIR/sim.bin. It never writes outside DIR (and Go's build cache).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simbuild: "+format+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type patch struct {
	file string // below GOROOT/src
	old  string
	new  string
}

var patches = []patch{
	// Files, standard output and error.
	{"syscall/zsyscall_linux_amd64.go", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {",
		"$0\n\tif h := VerifOpen; h != nil {\n\t\tif fd, e, ok := h(path, flags); ok {\n\t\t\tif e != 0 {\n\t\t\t\treturn -1, e\n\t\t\t}\n\t\t\treturn fd, nil\n\t\t}\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Close(fd int) (err error) {",
		"$0\n\tif h := VerifClose; h != nil && (verifFD(fd) || (fd == 1 || fd == 2) && VerifStdio) {\n\t\tif e := h(fd); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func read(fd int, p []byte) (n int, err error) {",
		"$0\n\tif h := VerifRead; h != nil && verifFD(fd) {\n\t\tn, e := h(fd, p, -1)\n\t\tif e != 0 {\n\t\t\treturn -1, e\n\t\t}\n\t\treturn n, nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func pread(fd int, p []byte, offset int64) (n int, err error) {",
		"$0\n\tif h := VerifRead; h != nil && verifFD(fd) {\n\t\tn, e := h(fd, p, offset)\n\t\tif e != 0 {\n\t\t\treturn -1, e\n\t\t}\n\t\treturn n, nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func write(fd int, p []byte) (n int, err error) {",
		"$0\n\tif h := VerifWrite; h != nil && (verifFD(fd) || ((fd == 1 || fd == 2) && VerifStdio)) {\n\t\tn, e := h(fd, p)\n\t\tif e != 0 {\n\t\t\treturn -1, e\n\t\t}\n\t\treturn n, nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fstat(fd int, stat *Stat_t) (err error) {",
		"$0\n\tif h := VerifStat; h != nil && verifFD(fd) {\n\t\tif e, _ := h(fd, \"\", stat); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {",
		"$0\n\tif h := VerifStat; h != nil {\n\t\tif e, ok := h(-1, path, stat); ok {\n\t\t\tif e != 0 {\n\t\t\t\treturn e\n\t\t\t}\n\t\t\treturn nil\n\t\t}\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Seek(fd int, offset int64, whence int) (off int64, err error) {",
		"$0\n\tif h := VerifSeek; h != nil && verifFD(fd) {\n\t\to, e := h(fd, offset, whence)\n\t\tif e != 0 {\n\t\t\treturn -1, e\n\t\t}\n\t\treturn o, nil\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "\npackage syscall\n", `
// Seams of the simulator (verif). Descriptors from 1<<28 up are simulated.
var (
	VerifOpen  func(path string, flags int) (fd int, e Errno, ok bool)
	VerifClose func(fd int) Errno
	VerifRead  func(fd int, p []byte, off int64) (int, Errno)
	VerifWrite func(fd int, p []byte) (int, Errno)
	VerifStat  func(fd int, path string, st *Stat_t) (e Errno, ok bool)
	VerifSeek  func(fd int, offset int64, whence int) (int64, Errno)
	VerifExit  func(code int)
	VerifStdio bool
	VerifCwd   string // os.Getwd while VerifStdio
)

func verifFD(fd int) bool { return fd >= 1<<28 }
`},
	{"os/getwd.go", "func Getwd() (dir string, err error) {", "$0\n\tif d := syscall.VerifCwd; d != \"\" && syscall.VerifStdio {\n\t\treturn d, nil\n\t}\n"},
	// Process exit.
	{"os/proc.go", "func Exit(code int) {", "$0\n\tif h := syscall.VerifExit; h != nil {\n\t\th(code)\n\t}\n"},
	{"os/file_unix.go", "if e == syscall.EPIPE && file.stdoutOrErr {", "$0\n\t\tif h := syscall.VerifExit; h != nil {\n\t\t\th(128 + 13)\n\t\t}\n"},
	// Clock.
	{"time/time.go", "func Now() Time {", "$0\n\tif h := VerifNow; h != nil {\n\t\ts, n := h()\n\t\treturn Time{uint64(n), s + unixToInternal, Local}\n\t}\n"},
	{"time/time.go", "\ntype Time struct {", "\n// VerifNow, if not nil, is the simulated clock (verif).\nvar VerifNow func() (sec int64, nsec int32)\n$0"},
	// Randomness: fixed for the process, and map iteration from a seed of the simulator.
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n$0"},
	{"runtime/rand.go", "func maps_rand() uint64 {", "$0\n\tif verifMapOn && getg().goid == verifMapG {\n\t\tverifMapState += 0x9e3779b97f4a7c15\n\t\tz := verifMapState\n\t\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\t\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\t\treturn z ^ (z >> 31)\n\t}\n"},
	{"runtime/rand.go", "\n// mrandinit initializes", `
var verifMapOn bool
var verifMapState uint64
var verifMapG uint64 // the goroutine of the simulated thread that runs

// VerifMapHere says that the calling goroutine is the one that runs (verif).
func VerifMapHere() { verifMapG = getg().goid }

// VerifMapRand gives the next number of that order (verif).
func VerifMapRand() uint64 { return maps_rand() }

// VerifMapSeed makes the order of map iterations a function of seed (verif).
func VerifMapSeed(on bool, seed uint64) { verifMapOn, verifMapState = on, seed }
$0`},
}

func writeOverlay(goroot, dir string) string {
	texts := map[string]string{}
	for _, p := range patches {
		s, ok := texts[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			must(err)
			s = string(b)
		}
		n := strings.Count(s, p.old)
		if n < 1 || (n > 1 && !strings.HasPrefix(p.old, "\npackage")) {
			die("seam %q of GOROOT/src/%s found %d times: this Go toolchain is not the one the simulator was written for", p.old, p.file, n)
		}
		i := strings.Index(s, p.old)
		if strings.HasPrefix(p.old, "\npackage") { // declarations go at the end of the file
			s += p.new
		} else {
			s = s[:i] + strings.ReplaceAll(p.new, "$0", p.old) + s[i+len(p.old):]
		}
		texts[p.file] = s
	}
	rep := map[string]string{}
	for f, s := range texts {
		dst := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		must(os.MkdirAll(dir, 0o777))
		must(os.WriteFile(dst, []byte(s), 0o666))
		rep[filepath.Join(goroot, "src", f)] = dst
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	name := filepath.Join(dir, "overlay.json")
	must(os.WriteFile(name, b, 0o666))
	return name
}

type edit struct {
	pos int
	end int // bytes [pos,end) are replaced
	seq int
	s   string
}

type site struct {
	id   int
	file string
	line int
}

type instrumenter struct {
	sites []site
	maps  map[string][]edit
	// constants given to functions started with go, by file and offset
	consts map[string]map[int]bool
	order  map[string]map[int]int
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true}

const rtPath = "verif.local/rt"

// file instruments one Go source file. If pkgName is not empty, the package is
// renamed and its main function becomes Main.
func (in *instrumenter) file(rel string, src []byte, pkgName string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(pos, end int, s string) {
		edits = append(edits, edit{pos, end, len(edits), s})
	}
	point := func(p token.Pos, lead string) {
		id := len(in.sites)
		in.sites = append(in.sites, site{id, rel, fset.Position(p).Line})
		add(off(p), off(p), lead+"zzrt.Y("+strconv.Itoa(id)+"); ")
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			point(s.Pos(), "")
		}
	}
	bodies := map[*ast.BlockStmt]bool{}
	timeImported := false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			add(off(im.Path.Pos()), off(im.Path.End()), name+strconv.Quote(rtPath+"/vsync"))
		case "time":
			timeImported = im.Name == nil
		}
	}
	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	pairs := map[ast.Expr]bool{} // receives that also tell whether the channel is open
	var gone [][2]int            // source replaced as a whole
	selects := 0
	pair := func(l int, r []ast.Expr) {
		if l == 2 && len(r) == 1 {
			pairs[unparen(r[0])] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			bodies[n.Body] = true
		case *ast.TypeSwitchStmt:
			bodies[n.Body] = true
		case *ast.AssignStmt:
			pair(len(n.Lhs), n.Rhs)
		case *ast.ValueSpec:
			pair(len(n.Names), n.Values)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				f := "zzrt.Recv("
				if pairs[n] {
					f = "zzrt.Recv2("
				}
				add(off(n.OpPos), off(n.OpPos)+2, f)
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.SendStmt:
			add(off(n.Pos()), off(n.Pos()), "zzrt.Send(")
			add(off(n.Chan.End()), off(n.Value.Pos()), ")(")
			add(off(n.End()), off(n.End()), ")")
		case *ast.SelectStmt:
			bodies[n.Body] = true
			if len(n.Body.List) == 0 {
				add(off(n.Pos()), off(n.Pos()), "zzrt.Forever(); ")
				break
			}
			// a switch over the number of the case
			selects++
			var names, makes []string
			dflt := false
			for _, c := range n.Body.List {
				dflt = dflt || c.(*ast.CommClause).Comm == nil
			}
			for i, c := range n.Body.List {
				c := c.(*ast.CommClause)
				if c.Comm == nil {
					continue
				}
				name := fmt.Sprintf("zzc%d_%d", selects, len(names))
				head := "case " + strconv.Itoa(len(names)) + ":"
				if !dflt && i == len(n.Body.List)-1 {
					head = "default:" // so that it ends the function where the select did
				}
				recv := func(x ast.Expr) {
					u := unparen(x).(*ast.UnaryExpr)
					makes = append(makes, "zzrt.RecvCase("+text(u.X.Pos(), u.X.End())+")")
				}
				switch x := c.Comm.(type) {
				case *ast.SendStmt:
					makes = append(makes, "zzrt.SendCase("+text(x.Chan.Pos(), x.Chan.End())+")("+text(x.Value.Pos(), x.Value.End())+")")
				case *ast.ExprStmt:
					recv(x.X)
				case *ast.AssignStmt:
					recv(x.Rhs[0])
					head += " " + text(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End()) + " " + x.Tok.String() + " " + name + ".V"
					if len(x.Lhs) == 2 {
						head += ", " + name + ".OK"
					}
					head += ";"
				}
				names = append(names, name)
				add(off(c.Pos()), off(c.Colon)+1, head)
				gone = append(gone, [2]int{off(c.Pos()), off(c.Colon) + 1})
			}
			head := "switch "
			if len(names) > 0 {
				head += strings.Join(names, ", ") + " := " + strings.Join(makes, ", ") + "; "
			}
			head += "zzrt.Select(" + strings.Join(append([]string{strconv.FormatBool(dflt)}, names...), ", ") + ") "
			add(off(n.Pos()), off(n.Body.Lbrace), head)
		case *ast.BlockStmt:
			if bodies[n] {
				return true
			}
			stmts(n.List)
			if len(n.List) == 0 {
				point(n.Lbrace+1, " ")
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.GoStmt:
			// the function and its arguments are evaluated here and now
			call := n.Call
			if _, lit := call.Fun.(*ast.FuncLit); lit && len(call.Args) == 0 {
				add(off(n.Go), off(n.Go)+2, "zzrt.Go(func() {")
				add(off(call.End()), off(call.End()), "})")
				break
			}
			if id, ok := call.Fun.(*ast.Ident); ok && builtins[id.Name] {
				add(off(n.Go), off(n.Go)+2, "zzrt.Go(func() {")
				add(off(call.End()), off(call.End()), "})")
				break
			}
			add(off(n.Go), off(n.Go)+2, "zzrt.Go(func() func() { zzf := ")
			names := make([]string, len(call.Args))
			from, sep := call.Lparen, ""
			for i, a := range call.Args {
				switch x := a.(type) {
				case *ast.BasicLit:
					names[i] = x.Value
				case *ast.Ident:
					if x.Name == "nil" || in.consts[rel][off(x.Pos())] {
						names[i] = x.Name
					}
				}
				if names[i] == "" {
					names[i] = "zza" + strconv.Itoa(i)
					add(off(from), off(a.Pos()), sep+"; "+names[i]+" := ")
				} else {
					add(off(from), off(a.End()), sep+"; ")
				}
				from = a.End()
			}
			dots := ""
			if call.Ellipsis.IsValid() {
				dots = "..."
			}
			add(off(from), off(call.End()), "; return func() { zzf("+strings.Join(names, ", ")+dots+") } }())")
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && timeImported && x.Name == "time" && (n.Sel.Name == "Sleep" || n.Sel.Name == "After") {
				add(off(n.Pos()), off(n.End()), "zzrt."+n.Sel.Name)
			}
		case *ast.FuncDecl:
			if pkgName != "" && n.Recv == nil && n.Name.Name == "main" {
				add(off(n.Name.Pos()), off(n.Name.End()), "Main")
			}
		}
		return true
	})
	if pkgName != "" {
		add(off(f.Name.Pos()), off(f.Name.End()), pkgName)
	}
	group := pkgName
	if group == "" {
		group = strings.TrimSuffix(filepath.ToSlash(filepath.Dir(rel)), ".")
	}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" {
			add(off(d.Name.Pos()), off(d.Name.End()), initName(d, off))
		}
	}
	for _, e := range in.maps[rel] {
		add(e.pos, e.end, e.s)
	}
	kept := edits[:0]
next:
	for _, e := range edits {
		for _, g := range gone {
			if e.pos >= g[0] && e.end <= g[1] && !(e.pos == g[0] && (e.end == g[1] || e.end == e.pos)) && !(e.pos == g[1]) {
				continue next
			}
		}
		kept = append(kept, e)
	}
	edits = kept
	add(off(f.Name.End()), off(f.Name.End()), "; import zzrt "+strconv.Quote(rtPath))
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// insertions before replacements at the same place
		return edits[i].pos == edits[i].end && edits[j].pos != edits[j].end
	})
	edited := func(from, to int) string {
		var out strings.Builder
		at := from
		for _, e := range edits {
			if e.pos < from || e.end > to {
				continue
			}
			if e.pos < at {
				die("overlapping edits in %s", rel)
			}
			out.Write(src[at:e.pos])
			out.WriteString(e.s)
			at = e.end
		}
		out.Write(src[at:to])
		return out.String()
	}
	var out bytes.Buffer
	out.WriteString(edited(0, len(src)))
	reset := resetCode(group, f, off, func(n ast.Node) string { return edited(off(n.Pos()), off(n.End())) },
		func(n ast.Node) int { return in.order[rel][off(n.Pos())] })
	out.WriteString("\nvar _ = zzrt.Y\n" + reset)
	if timeImported {
		out.WriteString("var _ time.Duration\n")
	}
	return out.Bytes()
}

func initName(d *ast.FuncDecl, off func(token.Pos) int) string {
	return fmt.Sprintf("zzinit%d", off(d.Pos()))
}

// resetCode makes code that gives the package-level variables of a file their
// initial values again, runs its init functions, and saves and restores them.
func resetCode(group string, f *ast.File, off func(token.Pos) int, text func(ast.Node) string, order func(ast.Node) int) string {
	var zero, vars, inits strings.Builder
	var all []string
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				fmt.Fprintf(&inits, "\t\t%s()\n", initName(d, off))
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				sp := sp.(*ast.ValueSpec)
				var names []string
				for _, n := range sp.Names {
					names = append(names, n.Name)
					if n.Name != "_" {
						all = append(all, n.Name)
					}
				}
				one := func(names, value string, first ast.Node) {
					if strings.Trim(names, "_, ") == "" { // for its effects
						typ := ""
						if sp.Type != nil {
							typ = " " + text(sp.Type)
						}
						fmt.Fprintf(&vars, "\t\t{%d, func() { var %s%s = %s }},\n", order(first), names, typ, value)
						return
					}
					fmt.Fprintf(&vars, "\t\t{%d, func() { %s = %s }},\n", order(first), names, value)
				}
				switch {
				case len(sp.Values) == 0:
					for _, n := range names {
						if n != "_" {
							fmt.Fprintf(&zero, "\t\t\t%s = *new(%s)\n", n, text(sp.Type))
						}
					}
				case len(sp.Values) == len(names):
					for i, v := range sp.Values {
						one(names[i], text(v), v)
					}
				default:
					one(strings.Join(names, ", "), text(sp.Values[0]), sp.Values[0])
				}
			}
		}
	}
	if zero.Len() > 0 {
		vars.WriteString("\t\t{0, func() {\n" + zero.String() + "\t\t}},\n")
	}
	if vars.Len() == 0 && inits.Len() == 0 {
		return ""
	}
	save := "return func() {}"
	if len(all) > 0 {
		var tmp []string
		for i := range all {
			tmp = append(tmp, "zzs"+strconv.Itoa(i))
		}
		save = strings.Join(tmp, ", ") + " := " + strings.Join(all, ", ") + "\n\t\treturn func() {\n\t\t\t" + strings.Join(all, ", ") + " = " + strings.Join(tmp, ", ") + "\n\t\t}"
	}
	return "\nfunc init() {\n" + inits.String() + "\tzzrt.OnReset(" + strconv.Quote(group) + ", []zzrt.Var{\n" + vars.String() + "\t}, func() {\n" + inits.String() + "\t}, func() func() {\n\t\t" + save + "\n\t})\n}\n"
}

// language raises the language version of a go.mod file to the first that has
// what the instrumentation needs (1.21, where loop variables are as before).
func language(b []byte) []byte {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			if n, err := strconv.Atoi(v[len(v)-1]); err == nil && len(v) == 2 && n < 21 {
				lines[i] = "go 1.21"
			}
		}
	}
	return []byte(strings.Join(lines, "\n"))
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

func copyTree(dst, src string, skip func(rel string, d fs.DirEntry) bool, f func(rel string, b []byte) []byte) {
	must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel != "." && skip(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o777)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), f(rel, b), 0o666)
	}))
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	sim := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "", "build directory")
	pkg := flag.String("pkg", ".", "package of the simulator to build")
	race := flag.Bool("race", false, "also build sim.race with the race detector")
	flag.Parse()
	if *out == "" {
		die("-out is needed")
	}
	goroot := func() string {
		b, err := exec.Command("go", "env", "GOROOT").Output()
		must(err)
		return strings.TrimSpace(string(b))
	}()
	overlay := writeOverlay(goroot, filepath.Join(*out, "overlay"))

	in := instrumenter{}
	in.maps, in.consts, in.order = mapEdits(*repo)
	copyTree(filepath.Join(*out, "repo"), *repo, func(rel string, d fs.DirEntry) bool {
		return strings.HasPrefix(filepath.Base(rel), ".") || strings.HasSuffix(rel, "_test.go") || filepath.Base(rel) == "testdata"
	}, func(rel string, b []byte) []byte {
		dir, _ := filepath.Split(rel)
		base := filepath.Base(dir)
		switch {
		case strings.HasSuffix(rel, ".go") && (dir == "cmd/ledger/" || dir == "cmd/acc/" || dir == "cmd/muscular/" || dir == "cmd/tacc/"):
			return in.file(rel, b, base+"cmd") // programs become packages
		case strings.HasSuffix(rel, ".go"):
			return in.file(rel, b, "")
		case rel == "go.mod":
			return append(language(b), []byte("\nrequire "+rtPath+" v0.0.0\n")...)
		}
		return b
	})
	copyTree(filepath.Join(*out, "sim"), *sim, func(rel string, d fs.DirEntry) bool { return false },
		func(rel string, b []byte) []byte { return b })
	var tbl bytes.Buffer
	tbl.WriteString("package sites\n\n// Table lists the scheduling points: file:line.\nvar Table = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&tbl, "\t%q,\n", s.file+":"+strconv.Itoa(s.line))
	}
	tbl.WriteString("}\n")
	must(os.MkdirAll(filepath.Join(*out, "sim", "sites"), 0o777))
	must(os.WriteFile(filepath.Join(*out, "sim", "sites", "sites.go"), tbl.Bytes(), 0o666))
	// module files
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "sim", "go.sum"), sum, 0o666))

	build := func(bin, pkg string, extra ...string) error {
		args := append([]string{"build", "-trimpath", "-overlay", overlay, "-o", filepath.Join(*out, bin)}, extra...)
		args = append(args, pkg)
		c := exec.Command("go", args...)
		c.Dir = filepath.Join(*out, "sim")
		c.Stdout, c.Stderr = os.Stderr, os.Stderr
		return c.Run()
	}
	if err := build("sim.bin", *pkg); err != nil {
		die("building the simulator: %v", err)
	}
	if *race {
		if err := build("sim.race", *pkg, "-race"); err != nil {
			die("building the simulator with the race detector: %v", err)
		}
	}
}
