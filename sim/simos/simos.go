// Package simos is the simulated operating system: files, descriptors,
// standard output and error, the clock and time zone, with fault injection.
// It takes the place of the kernel below package syscall (see tools/simbuild)
// for code that runs on simulator threads.
package simos

import (
	"fmt"
	"hash/fnv"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/rt"
	"verifsim/tape"
)

const (
	opOpen = iota
	opClose
	opRead
	opWrite
	opStat
	opFstat
	opSeek
)

// Cwd is the simulated working directory.
const Cwd = "/home/u"

// Node is a simulated file or directory.
type Node struct {
	Path  string
	Data  []byte
	Dir   bool
	Mod   time.Time
	Dirty bool // written to by the program
	// Err, if not 0, makes opening fail for good (permission and the like).
	Err syscall.Errno
	ino uint64
}

// File is an open descriptor.
type File struct {
	FD     int
	Path   string
	node   *Node
	data   []byte // contents at the time of opening are not frozen: node.Data is read
	off    int64
	nread  int
	write  bool
	append bool
}

// Access describes one simulated system call to the fault plan.
type Access struct {
	Op   string // open, read, write, close, stat
	Path string
	FD   int
	Off  int64 // offset in the file
	Len  int   // bytes asked for
	N    int   // how many calls of this kind were made before
}

// Outcome is what a fault plan does to a call: nothing if zero.
type Outcome struct {
	Errno syscall.Errno
	Short int           // transfer at most this many bytes, if > 0
	EINTR int           // the call is interrupted that many times first
	Delay time.Duration // the call takes that long
	Kind  string        // name of the fault, for the statistics
	EOF   bool          // read: report end of file
}

// World is the state of the simulated machine during one run.
type World struct {
	Nodes  map[string]*Node
	Files  map[int]*File
	Links  map[string]string // symbolic links, by absolute path
	Stdout []byte
	Stderr []byte

	Clock    time.Time // now
	ClockFix bool

	Fault     func(a Access) Outcome
	OnAccess  func(a Access) // called before each call: concurrent writers live here
	FDLimit   int            // EMFILE beyond
	FragSeed  uint64
	FragStyle int // 0 whole reads, 1 single bytes, 2 random pieces, 3 pieces of FragSize
	FragSize  int
	frag      *tape.Rand

	Counts  map[string]int // calls by kind
	Fired   map[string]int // faults by kind
	Opened  int            // files opened
	MaxOpen int
	intr    map[int]int // pending EINTRs of the call under way, by thread

	log  strings.Builder
	Hash uint64 // of the event log
	Keep bool   // keep the text of the event log
	NLog int

	Limit    int64 // step budget of each Run
	Steps    int64
	Switches int64
	SimTime  time.Duration // simulated time covered
	firstFD  int
	inodes   uint64
	caller   int
}

var (
	cur     *World
	nextFD  = 1 << 28
	baseFD  int
	Real    = os.Stderr
	started bool
)

// New makes a fresh machine and makes it current.
func New() *World {
	w := &World{
		Nodes:  map[string]*Node{},
		Files:  map[int]*File{},
		Clock:  time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC),
		Counts: map[string]int{},
		Fired:  map[string]int{},
		intr:   map[int]int{},
		Hash:   14695981039346656037,
		Limit:  20_000_000,
	}
	w.firstFD = nextFD
	cur = w
	setBase(nextFD)
	if !started {
		started = true
		install()
	}
	return w
}

//go:norace
func setBase(fd int) { baseFD = fd }

// Logf adds to the event log.
func (w *World) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		w.Hash ^= uint64(s[i])
		w.Hash *= 1099511628211
	}
	w.Hash ^= '\n'
	w.Hash *= 1099511628211
	w.NLog++
	if w.Keep && w.log.Len() < 1<<20 {
		w.log.WriteString(s)
		w.log.WriteByte('\n')
	}
}

// Log returns the event log.
func (w *World) Log() string { return w.log.String() }

// Fire counts an injected fault.
func (w *World) Fire(kind string) { w.Fired[kind]++ }

// Write puts a file on the simulated disk.
func (w *World) Write(name string, data []byte) *Node {
	n := &Node{Path: abs(name), Data: data, Mod: w.Clock}
	w.Nodes[n.Path] = n
	return n
}

// Mkdir makes a directory.
func (w *World) Mkdir(name string) {
	w.Nodes[abs(name)] = &Node{Path: abs(name), Dir: true, Mod: w.Clock}
}

// inode gives the number of a file, by which os.SameFile knows it.
func (w *World) inode(n *Node) uint64 {
	if n.Dir { // it may be one that is only implied by what is below it
		h := fnv.New64a()
		h.Write([]byte(n.Path))
		return h.Sum64() | 1<<63
	}
	if n.ino == 0 {
		w.inodes++
		n.ino = w.inodes
	}
	return n.ino
}

// Remove removes a file.
func (w *World) Remove(name string) { delete(w.Nodes, abs(name)) }

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

// Abs is the absolute form of a path.
func Abs(p string) string { return abs(p) }

// OpenFDs lists the paths of descriptors that are open.
func (w *World) OpenFDs() []string {
	var l []string
	for _, f := range w.Files {
		l = append(l, f.Path)
	}
	sort.Strings(l)
	return l
}

// resolve follows symbolic links; it fails if there are too many of them.
func (w *World) resolve(p string) (string, bool) {
	if len(w.Links) == 0 {
		return abs(p), true
	}
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	at, todo := "/", strings.Split(p, "/")
	for n := 0; len(todo) > 0; {
		el := todo[0]
		todo = todo[1:]
		switch el {
		case "", ".":
		case "..":
			at = path.Dir(at)
		default:
			target, ok := w.Links[path.Join(at, el)]
			if !ok {
				at = path.Join(at, el)
				break
			}
			if n++; n > 40 {
				return "", false
			}
			todo = append(strings.Split(target, "/"), todo...)
			if strings.HasPrefix(target, "/") {
				at = "/"
			}
		}
	}
	return at, true
}

func (w *World) lookup(p string) *Node {
	p, ok := w.resolve(p)
	if !ok {
		return nil
	}
	if n := w.Nodes[p]; n != nil {
		return n
	}
	// directories exist if something is below them
	for q := range w.Nodes {
		if strings.HasPrefix(q, p+"/") || p == "/" {
			return &Node{Path: p, Dir: true, Mod: w.Clock}
		}
	}
	return nil
}

// throughFile tells whether a proper prefix of the path is a plain file.
func (w *World) throughFile(p string) bool {
	p, _ = w.resolve(p)
	for p = path.Dir(p); len(p) > 1 && p != "/"; p = path.Dir(p) {
		if n := w.Nodes[p]; n != nil && !n.Dir {
			return true
		}
	}
	return false
}

func (w *World) consult(a Access) Outcome {
	a.N = w.Counts[a.Op]
	w.Counts[a.Op]++
	if w.OnAccess != nil {
		w.OnAccess(a)
	}
	var o Outcome
	if w.Fault != nil {
		o = w.Fault(a)
		if o.EINTR > 0 && (w.intr[w.caller] < 0 || a.Op == "close" || a.Op == "stat") {
			o = Outcome{}
		}
		if o.Kind != "" {
			w.Fire(o.Kind)
		}
	}
	if o.Delay > 0 {
		w.Clock = w.Clock.Add(o.Delay)
		w.SimTime += o.Delay
	}
	return o
}

func (w *World) call(t *rt.Thread, c *rt.Call) {
	// an interrupted call is retried by the standard library
	if n := w.intr[t.ID]; n > 1 {
		w.intr[t.ID] = n - 1
		c.OK = c.Op == opOpen
		c.Err = int(syscall.EINTR)
		return
	} else if n == 1 {
		w.intr[t.ID] = -1 // this time it goes through
	}
	defer func() {
		if w.intr[t.ID] < 0 {
			w.intr[t.ID] = 0
		}
	}()
	w.caller = t.ID
	switch c.Op {
	case opOpen:
		c.OK = true
		w.open(t, c)
	case opClose:
		f := w.Files[c.FD]
		if f == nil {
			c.Err = int(syscall.EBADF)
			return
		}
		o := w.consult(Access{Op: "close", Path: f.Path, FD: c.FD, Off: f.off})
		delete(w.Files, c.FD) // as on Linux, the descriptor is gone in any case
		c.Err = int(o.Errno)
		w.Logf("T%d close %s %v", t.ID, f.Path, o.Errno)
	case opRead:
		w.read(t, c)
	case opWrite:
		w.write(t, c)
	case opStat:
		c.OK = true
		o := w.consult(Access{Op: "stat", Path: c.Path})
		if o.Errno != 0 {
			c.Err = int(o.Errno)
			return
		}
		n := w.lookup(c.Path)
		if _, ok := w.resolve(c.Path); !ok {
			c.Err = int(syscall.ELOOP)
			return
		}
		if n == nil {
			c.Err = int(syscall.ENOENT)
			return
		}
		c.N, c.Mode = int64(len(n.Data)), syscall.S_IFREG|0o644
		if n.Dir {
			c.Mode = syscall.S_IFDIR | 0o755
		}
		c.Off, c.Ino = n.Mod.UnixNano(), w.inode(n)
	case opFstat:
		f := w.Files[c.FD]
		if f == nil {
			c.Err = int(syscall.EBADF)
			return
		}
		c.N, c.Mode = int64(len(f.node.Data)), syscall.S_IFREG|0o644
		if f.node.Dir {
			c.Mode = syscall.S_IFDIR | 0o755
		}
		c.Off, c.Ino = f.node.Mod.UnixNano(), w.inode(f.node)
	case opSeek:
		f := w.Files[c.FD]
		if f == nil {
			c.Err = int(syscall.EBADF)
			return
		}
		switch c.Mode {
		case 0:
			f.off = c.Off
		case 1:
			f.off += c.Off
		case 2:
			f.off = int64(len(f.node.Data)) + c.Off
		}
		c.N = f.off
	}
}

func (w *World) open(t *rt.Thread, c *rt.Call) {
	o := w.consult(Access{Op: "open", Path: abs(c.Path), Len: int(c.Mode)})
	if o.EINTR > 0 {
		w.intr[t.ID] = o.EINTR
		w.Counts["open"]--
		c.Err = int(syscall.EINTR)
		return
	}
	flags := int(c.Mode)
	fail := func(e syscall.Errno) {
		c.Err = int(e)
		w.Logf("T%d open %s %v", t.ID, c.Path, e)
	}
	if o.Errno != 0 {
		fail(o.Errno)
		return
	}
	if len(c.Path) > 4095 {
		fail(syscall.ENAMETOOLONG)
		return
	}
	for _, el := range strings.Split(c.Path, "/") {
		if len(el) > 255 {
			fail(syscall.ENAMETOOLONG)
			return
		}
	}
	if w.FDLimit > 0 && len(w.Files) >= w.FDLimit {
		w.Fire("fd-limit")
		fail(syscall.EMFILE)
		return
	}
	if c.Path == "" {
		fail(syscall.ENOENT)
		return
	}
	if _, ok := w.resolve(c.Path); !ok {
		fail(syscall.ELOOP)
		return
	}
	n := w.lookup(c.Path)
	acc := flags & (syscall.O_RDONLY | syscall.O_WRONLY | syscall.O_RDWR)
	if n == nil {
		if w.throughFile(c.Path) {
			fail(syscall.ENOTDIR)
			return
		}
		if flags&syscall.O_CREAT == 0 {
			fail(syscall.ENOENT)
			return
		}
		to, _ := w.resolve(c.Path)
		n = w.Write(to, nil)
		n.Dirty = true
	} else if strings.HasSuffix(c.Path, "/") && !n.Dir {
		fail(syscall.ENOTDIR)
		return
	}
	if n.Err != 0 {
		fail(n.Err)
		return
	}
	if n.Dir && acc != syscall.O_RDONLY {
		fail(syscall.EISDIR)
		return
	}
	if flags&syscall.O_TRUNC != 0 {
		n.Data, n.Dirty = nil, true
	}
	fd := nextFD
	nextFD++
	w.Files[fd] = &File{FD: fd, Path: n.Path, node: n, write: acc != syscall.O_RDONLY, append: flags&syscall.O_APPEND != 0}
	w.Opened++
	if len(w.Files) > w.MaxOpen {
		w.MaxOpen = len(w.Files)
	}
	c.N = int64(fd)
	w.Logf("T%d open %s", t.ID, n.Path)
}

func (w *World) read(t *rt.Thread, c *rt.Call) {
	f := w.Files[c.FD]
	if f == nil {
		c.Err = int(syscall.EBADF)
		return
	}
	if f.node.Dir {
		c.Err = int(syscall.EISDIR)
		return
	}
	off := f.off
	if c.Off >= 0 {
		off = c.Off
	}
	o := w.consult(Access{Op: "read", Path: f.Path, FD: c.FD, Off: off, Len: int(c.N)})
	if o.EINTR > 0 {
		w.intr[t.ID] = o.EINTR
		w.Counts["read"]--
		c.Err = int(syscall.EINTR)
		return
	}
	if o.Errno != 0 {
		c.Err = int(o.Errno)
		w.Logf("T%d read %s@%d %v", t.ID, f.Path, off, o.Errno)
		return
	}
	n := int(c.N)
	switch w.FragStyle {
	case 1:
		n = 1
	case 2:
		if w.frag == nil {
			w.frag = tape.NewRand(w.FragSeed)
		}
		n = 1 + w.frag.N(1+w.frag.N(200))
	case 3:
		n = w.FragSize
	}
	if o.Short > 0 && n > o.Short {
		n = o.Short
	}
	if n > int(c.N) {
		n = int(c.N)
	}
	d := f.node.Data
	if off > int64(len(d)) {
		off = int64(len(d))
	}
	if rest := len(d) - int(off); n > rest {
		n = rest
	}
	if o.EOF {
		n = 0
	}
	c.Buf = append([]byte(nil), d[off:int(off)+n]...)
	if c.Off < 0 {
		f.off = off + int64(n)
	}
	c.N = int64(n)
	w.Logf("T%d read %s@%d %d", t.ID, f.Path, off, n)
}

func (w *World) write(t *rt.Thread, c *rt.Call) {
	p := c.Buf
	a := Access{Op: "write", FD: c.FD, Len: len(p)}
	switch c.FD {
	case 1:
		a.Path, a.Off = "stdout", int64(len(w.Stdout))
	case 2:
		a.Path, a.Off = "stderr", int64(len(w.Stderr))
	default:
		f := w.Files[c.FD]
		if f == nil || !f.write {
			c.Err = int(syscall.EBADF)
			return
		}
		a.Path, a.Off = f.Path, f.off
	}
	o := w.consult(a)
	if o.EINTR > 0 {
		w.intr[t.ID] = o.EINTR
		w.Counts["write"]--
		c.Err = int(syscall.EINTR)
		return
	}
	if o.Errno != 0 {
		c.Err = int(o.Errno)
		w.Logf("T%d write %s@%d %v", t.ID, a.Path, a.Off, o.Errno)
		return
	}
	if o.Short > 0 && len(p) > o.Short {
		p = p[:o.Short]
	}
	switch c.FD {
	case 1:
		w.Stdout = append(w.Stdout, p...)
	case 2:
		w.Stderr = append(w.Stderr, p...)
	default:
		f := w.Files[c.FD]
		f.node.Dirty = true
		if f.append {
			f.off = int64(len(f.node.Data))
		}
		for int64(len(f.node.Data)) < f.off {
			f.node.Data = append(f.node.Data, 0)
		}
		f.node.Data = append(f.node.Data[:f.off:f.off], append(append([]byte(nil), p...), tail(f.node.Data, f.off+int64(len(p)))...)...)
		f.off += int64(len(p))
	}
	c.N = int64(len(p))
	w.Logf("T%d write %s@%d %d", t.ID, a.Path, a.Off, len(p))
}

func tail(b []byte, off int64) []byte {
	if off >= int64(len(b)) {
		return nil
	}
	return b[off:]
}

// ---- seams; these run on the calling thread, unseen by the race detector ----

//go:norace
func cp(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return string(b)
}

//go:norace
func hookOpen(p string, flags int) (int, syscall.Errno, bool) {
	if !rt.Active() || passPath(p) {
		return 0, 0, false
	}
	c := &rt.Call{Op: opOpen, Path: cp(p), Mode: uint32(flags)}
	rt.DoCall(c)
	return int(c.N), syscall.Errno(c.Err), c.OK
}

// passPath tells which paths are the real ones: time-zone data.
//
//go:norace
func passPath(p string) bool {
	return has(p, "/usr/share/zoneinfo") || has(p, "/etc/localtime") || has(p, "/etc/zoneinfo") || has(p, "/usr/lib/locale") || has(p, "/usr/share/lib/zoneinfo") || has(p, "/proc/self") || has(p, "/dev/null")
}

//go:norace
func has(p, pre string) bool {
	if len(p) < len(pre) {
		return false
	}
	for i := 0; i < len(pre); i++ {
		if p[i] != pre[i] {
			return false
		}
	}
	return true
}

//go:norace
func hookClose(fd int) syscall.Errno {
	if fd < baseFD || !rt.Active() {
		return 0 // left over from an earlier run
	}
	c := &rt.Call{Op: opClose, FD: fd}
	rt.DoCall(c)
	return syscall.Errno(c.Err)
}

//go:norace
func hookRead(fd int, p []byte, off int64) (int, syscall.Errno) {
	if fd < baseFD || !rt.Active() {
		return 0, syscall.EBADF
	}
	c := &rt.Call{Op: opRead, FD: fd, Off: off, N: int64(len(p))}
	rt.DoCall(c)
	for i := 0; i < len(c.Buf); i++ {
		p[i] = c.Buf[i]
	}
	return int(c.N), syscall.Errno(c.Err)
}

//go:norace
func hookWrite(fd int, p []byte) (int, syscall.Errno) {
	if !rt.Active() {
		if fd >= 1<<28 {
			return 0, syscall.EBADF
		}
		return len(p), 0
	}
	if fd >= 1<<28 && fd < baseFD {
		return 0, syscall.EBADF
	}
	b := make([]byte, len(p))
	for i := 0; i < len(p); i++ {
		b[i] = p[i]
	}
	c := &rt.Call{Op: opWrite, FD: fd, Buf: b}
	rt.DoCall(c)
	return int(c.N), syscall.Errno(c.Err)
}

//go:norace
func hookStat(fd int, p string, st *syscall.Stat_t) (syscall.Errno, bool) {
	c := &rt.Call{FD: fd}
	if fd < 0 {
		if !rt.Active() || passPath(p) {
			return 0, false
		}
		c.Op, c.Path = opStat, cp(p)
	} else {
		if fd < baseFD || !rt.Active() {
			return syscall.EBADF, true
		}
		c.Op = opFstat
	}
	rt.DoCall(c)
	if c.Err != 0 {
		return syscall.Errno(c.Err), true
	}
	*st = syscall.Stat_t{}
	st.Size, st.Mode, st.Nlink, st.Dev, st.Ino = c.N, c.Mode, 1, 1, c.Ino
	st.Mtim.Sec, st.Mtim.Nsec = c.Off/1e9, c.Off%1e9
	return 0, true
}

//go:norace
func hookSeek(fd int, off int64, whence int) (int64, syscall.Errno) {
	if fd < baseFD || !rt.Active() {
		return 0, syscall.EBADF
	}
	c := &rt.Call{Op: opSeek, FD: fd, Off: off, Mode: uint32(whence)}
	rt.DoCall(c)
	return c.N, syscall.Errno(c.Err)
}

//go:norace
func hookExit(code int) {
	if rt.Active() {
		rt.Exit(code)
	}
}

func install() {
	syscall.VerifOpen = hookOpen
	syscall.VerifClose = hookClose
	syscall.VerifRead = hookRead
	syscall.VerifWrite = hookWrite
	syscall.VerifStat = hookStat
	syscall.VerifSeek = hookSeek
	syscall.VerifExit = hookExit
	syscall.VerifCwd = Cwd
}

// ---- running code ----

// Env is the environment of the process that a run depends on.
type Env struct {
	Zone    *time.Location
	MapSeed uint64
}

// Thread is code to run, and its outcome.
type Thread = rt.Thread

// Job is one thread to run.
type Job struct {
	Name string
	F    func()
}

// Sched decides the interleaving; the zero value runs threads one after another.
type Sched struct {
	Pick    func(n int) int // chooses among the n ready threads
	Quantum func() int64
	Process bool // the process ends when its first thread returns
}

// own makes the interleaving of the threads a job starts by itself.
func own(seed uint64) (func(n int) int, func() int64) {
	x := seed
	next := func() uint64 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	max := 1 + int64(1)<<(next()%12)
	left := 5000
	return func(n int) int { return int(next() % uint64(n)) },
		func() int64 {
			if left--; left < 0 {
				return 1 << 20
			}
			return 1 + int64(next()%uint64(max))
		}
}

// Result is the outcome of Run.
type Result struct {
	Threads  []*rt.Thread
	Deadlock bool
	Steps    int64
}

// Panic returns a description of the first abnormal end, or "".
func (r *Result) Panic() string {
	for _, t := range r.Threads {
		if t.Panic != nil {
			return fmt.Sprintf("panic: %v\n%s", t.Panic, t.Stack)
		}
		if t.Over {
			return fmt.Sprintf("did not finish within the step budget\n%s", t.Stack)
		}
	}
	if r.Deadlock {
		return "deadlock: no thread can proceed"
	}
	return ""
}

// ExitCode returns the code passed to os.Exit, or -1.
func (r *Result) ExitCode() int {
	for _, t := range r.Threads {
		if t.Exited {
			return t.ExitCode
		}
	}
	return -1
}

// Run runs jobs as threads of one process on the simulated machine.
func (w *World) Run(s Sched, env Env, jobs ...Job) *Result {
	cur = w
	k := new(rt.Kernel)
	k.Process = s.Process
	if s.Pick == nil && len(jobs) == 1 { // it may start threads of its own
		s.Pick, s.Quantum = own(env.MapSeed)
	}
	base := w.Clock
	k.Now = func() time.Duration { return w.Clock.Sub(base) }
	k.Advance = func(to time.Duration) {
		d := to - k.Now()
		w.Clock = base.Add(to)
		w.SimTime += d
		w.Logf("clock +%v", d)
	}
	k.Syscall = w.call
	k.Pick = func(ready []*rt.Thread) *rt.Thread {
		i := 0
		if s.Pick != nil {
			i = s.Pick(len(ready))
		}
		return ready[i]
	}
	k.Quantum = func() int64 {
		if s.Quantum != nil {
			return s.Quantum()
		}
		return 1 << 62
	}
	if len(jobs) > 1 {
		k.OnSwitch = func(t *rt.Thread, site int) { w.Logf("T%d at %d", t.ID, site) }
	}
	oldLocal := time.Local
	if env.Zone != nil {
		time.Local = env.Zone
	}
	rt.Steps = 0
	rt.Limit = w.Limit
	time.VerifNow = func() (int64, int32) { return clockNow() }
	syscall.VerifStdio = true
	runtime.VerifMapSeed(true, env.MapSeed)
	for _, j := range jobs { // they start after all the above
		k.Spawn(j.Name, j.F)
	}
	k.Run()
	runtime.VerifMapSeed(false, 0)
	syscall.VerifStdio = false
	time.VerifNow = nil
	time.Local = oldLocal
	w.Steps += rt.Steps
	w.Switches += k.Switches
	return &Result{Threads: k.Threads, Deadlock: k.Deadlock, Steps: rt.Steps}
}

//go:norace
func clockNow() (int64, int32) {
	return clockSec(cur)
}

//go:norace
func clockSec(w *World) (int64, int32) {
	t := w.Clock
	return t.Unix(), int32(t.Nanosecond())
}
