// Package engine runs checks: it spreads seeded runs over worker processes,
// attributes crashes to runs, minimises failing tapes, confirms them in a fresh
// process, and writes replay files and evidence.
package engine

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/rt"
	"verifsim/simos"
	"verifsim/tape"
)

// Check decides one property.
type Check struct {
	ID      string
	Run     func(c *Ctx)
	Race    bool // half of the workers use the build with the race detector
	Recycle int  // runs per process
	Rule    string
	Real    []string // components that run the repository's code
	Stub    []string // components that are simulated
	Kinds   []string // fault kinds that the check can inject
	Probes  []string // rare conditions that should be reached
	Assume  []string
	Known   []Known // defects of the unchanged tree that were left alone
}

// Known is a specific input on which the code is known to break the property.
type Known struct {
	Name string // as in known_findings.txt
	What string
	Fail func(c *Ctx) bool // it still does
}

// ChildFunc does a job in a process of its own; set by package checks.
var ChildFunc func(job []byte) []byte

// Child does a job in a fresh process.
// The simulator's own standard output and error: the programs may close theirs.
var stdout, stderr = os.NewFile(1, "stdout"), os.NewFile(2, "stderr")

func (c *Ctx) Child(job []byte) []byte {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p := exec.Command(self, "-child")
	p.Env = os.Environ()
	p.Stdin = bytes.NewReader(job)
	var out, errs bytes.Buffer
	p.Stdout, p.Stderr = &out, &errs
	timer := time.AfterFunc(2*time.Minute, func() { p.Process.Kill() })
	err = p.Run()
	timer.Stop()
	if err != nil {
		if k, m := deathKind(errs.String(), p.ProcessState.ExitCode()); k != "" && k != "out of memory" {
			c.Fail(k, "%s", m)
		}
		panic(fmt.Sprintf("child: %v\n%s", err, firstLines(errs.String(), "", 60)))
	}
	return out.Bytes()
}

func childMain() {
	setup()
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		die("%v", err)
	}
	stdout.Write(ChildFunc(in))
}

// Checks is the registry.
var Checks = map[string]*Check{}

// Add registers a check.
func Add(c *Check) { Checks[c.ID] = c }

// Sites is the number of scheduling points; set by main.
var Sites []string

// Ctx is one run.
type Ctx struct {
	*tape.Tape
	W       *simos.World
	Stats   *Stats
	Note    string // a sample description of this run
	Trivial bool
	keep    bool
	worlds  []*simos.World
	hash    uint64
	log     strings.Builder
	known   []string
}

// Stats accumulates over runs.
type Stats struct {
	Runs     int64            `json:"runs"`
	Sims     int64            `json:"sims"`
	Trivial  int64            `json:"trivial"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	SimTime  float64          `json:"sim_time_s"`
	Faults   map[string]int64 `json:"faults"`
	Calls    map[string]int64 `json:"calls"`
	Probes   map[string]int64 `json:"probes"`
	Hashes   map[uint64]bool  `json:"-"`
	HashList []uint64         `json:"hashes"`
	Samples  []string         `json:"samples"`
	Cov      []byte           `json:"cov"`
	Known    []string         `json:"known"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int64{}, Calls: map[string]int64{}, Probes: map[string]int64{}, Hashes: map[uint64]bool{}}
}

type violation struct {
	kind string
	msg  string
}

// Fail reports a violation of the property; kind is its class.
func (c *Ctx) Fail(kind, format string, a ...interface{}) {
	panic(violation{kind, fmt.Sprintf(format, a...)})
}

// Probe counts a rare condition.
func (c *Ctx) Probe(name string) { c.Stats.Probes[name]++ }

// World makes a fresh simulated machine for this run.
func (c *Ctx) World() *simos.World {
	w := simos.New()
	w.Keep = c.keep
	c.worlds = append(c.worlds, w)
	return w
}

// Logf adds to the run's event log.
func (c *Ctx) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		c.hash ^= uint64(s[i])
		c.hash *= 1099511628211
	}
	if c.keep && c.log.Len() < 1<<20 {
		c.log.WriteString(s + "\n")
	}
}

// Outcome of one run.
type Outcome struct {
	Kind string
	Msg  string
	Hash uint64
	Log  string
	Rec  []uint64
}

// One makes one run of a check.
func One(ck *Check, t *tape.Tape, st *Stats, keep bool) (o Outcome) {
	rt.Forget()
	rt.ResetAll()
	c := &Ctx{Tape: t, Stats: st, keep: keep, hash: 14695981039346656037}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if v, ok := r.(violation); ok {
					o.Kind, o.Msg = v.kind, v.msg
					return
				}
				fmt.Fprintf(stderr, "SIMULATOR ERROR: %v\n%s\n", r, debug.Stack())
				os.Exit(70)
			}
		}()
		ck.Run(c)
	}()
	h := c.hash
	var log strings.Builder
	if keep {
		log.WriteString(c.log.String())
	}
	st.Runs++
	for i, w := range c.worlds {
		h = h*1099511628211 ^ w.Hash
		if keep {
			fmt.Fprintf(&log, "--- machine %d\n%s", i, w.Log())
		}
		st.Sims++
		st.Steps += w.Steps
		st.Switches += w.Switches
		st.SimTime += w.SimTime.Seconds()
		for k, n := range w.Fired {
			st.Faults[k] += int64(n)
		}
		for k, n := range w.Counts {
			st.Calls[k] += int64(n)
		}
	}
	if c.Trivial {
		st.Trivial++
	} else if len(st.Hashes) < 2_000_000 {
		st.Hashes[h] = true
	}
	if c.Note != "" && len(st.Samples) < 2 && !c.Trivial {
		st.Samples = append(st.Samples, c.Note)
	}
	o.Hash, o.Log, o.Rec = h, log.String(), t.Rec
	return o
}

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(96 << 20)
	rt.Cov = make([]uint8, len(Sites)+1)
	rt.Stuck = func(msg string) {
		fmt.Fprintln(stderr, "SIMULATOR STUCK: "+msg)
		os.Exit(71)
	}
}

var sinceGC int

func maybeGC() {
	sinceGC++
	if sinceGC%16 != 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 200<<20 {
		runtime.GC()
	}
}

func seedOf(base int64, id string, i int64) uint64 {
	h := uint64(base)*0x9e3779b97f4a7c15 + 0x1234567
	for j := 0; j < len(id); j++ {
		h = tape.Mix(h ^ uint64(id[j]))
	}
	return tape.Mix(h ^ uint64(i)*0xd1342543de82ef95)
}

type msg struct {
	T     string   `json:"t"`
	I     int64    `json:"i"`
	Kind  string   `json:"kind,omitempty"`
	Msg   string   `json:"msg,omitempty"`
	Tape  []uint64 `json:"tape,omitempty"`
	Hash  uint64   `json:"hash,omitempty"`
	Log   string   `json:"log,omitempty"`
	Stats *Stats   `json:"stats,omitempty"`
}

// Worker runs seeds from, from+stride, ... until the deadline or count runs.
func Worker(ck *Check, base, from, stride int64, count int, deadline time.Time) {
	setup()
	out := bufio.NewWriter(stdout)
	enc := json.NewEncoder(out)
	st := newStats()
	for n := 0; n < count && realNow().Before(deadline); n++ {
		i := from + int64(n)*stride
		enc.Encode(msg{T: "s", I: i})
		out.Flush()
		o := One(ck, tape.New(seedOf(base, ck.ID, i)), st, false)
		if o.Kind != "" {
			enc.Encode(msg{T: "v", I: i, Kind: o.Kind, Msg: o.Msg, Tape: o.Rec})
			break
		}
		maybeGC()
	}
	for h := range st.Hashes {
		st.HashList = append(st.HashList, h)
	}
	st.Cov = rt.Cov
	enc.Encode(msg{T: "e", Stats: st})
	out.Flush()
}

// Server evaluates tapes read from standard input, one JSON list per line.
func Server(ck *Check) {
	setup()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(stdout)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q struct {
			Tape []uint64
			Seed *uint64
			Keep bool
		}
		if json.Unmarshal(line, &q) != nil {
			os.Exit(70)
		}
		t := tape.Replay(q.Tape)
		if q.Seed != nil {
			t = tape.New(*q.Seed)
		}
		o := One(ck, t, newStats(), q.Keep)
		enc.Encode(msg{T: "r", Kind: o.Kind, Msg: o.Msg, Hash: o.Hash, Log: o.Log, Tape: o.Rec})
		out.Flush()
		maybeGC()
	}
}

func realNow() time.Time { return time.Now() }

// server is a client's view of a Server process.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailWriter
}

type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 256<<10 {
		t.b = append(append([]byte(nil), t.b[:64<<10]...), t.b[len(t.b)-64<<10:]...)
	}
	return len(p), nil
}

func (t *tailWriter) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// Bin and RaceBin are the simulator's binaries.
var Bin, RaceBin, Scratch string

func binFor(race bool) string {
	if race {
		return RaceBin
	}
	return Bin
}

func command(race bool, args ...string) *exec.Cmd {
	c := exec.Command(binFor(race), args...)
	c.Dir = Scratch
	c.Env = []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "HOME=" + Scratch, "PATH=/usr/bin:/bin"}
	return c
}

func startServer(ck *Check, race bool) *server {
	c := command(race, "-serve", "-check", ck.ID)
	s := &server{cmd: c, err: &tailWriter{}}
	c.Stderr = s.err
	s.in, _ = c.StdinPipe()
	o, _ := c.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	return s
}

func (s *server) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// deathKind classifies the end of a worker that did not end by itself.
// It returns "" if it is the simulator's own failure.
func deathKind(stderr string, code int) (kind, msg string) {
	if code == 66 || strings.Contains(stderr, "WARNING: DATA RACE") {
		return "data race", firstLines(stderr, "WARNING: DATA RACE", 60)
	}
	for _, f := range []string{"goroutine stack exceeds", "concurrent map", "fatal error: "} {
		if i := strings.Index(stderr, f); i >= 0 {
			if strings.Contains(stderr[i:], "out of memory") || strings.Contains(stderr[i:], "cannot allocate") {
				return "out of memory", firstLines(stderr, f, 25)
			}
			return "fatal error", firstLines(stderr, f, 40)
		}
	}
	if i := strings.Index(stderr, "panic: "); i >= 0 && !strings.Contains(stderr, "SIMULATOR") {
		return "fatal panic", firstLines(stderr, "panic: ", 40)
	}
	return "", stderr
}

func firstLines(s, from string, n int) string {
	if i := strings.Index(s, from); i >= 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// eval evaluates a tape (after the given history) and restarts the server if it dies.
type evaluator struct {
	ck   *Check
	race bool
	s    *server
}

func (e *evaluator) close() {
	if e.s != nil {
		e.s.stop()
		e.s = nil
	}
}

func (e *evaluator) ask(q map[string]interface{}, timeout time.Duration) (msg, bool) {
	if e.s == nil {
		e.s = startServer(e.ck, e.race)
	}
	b, _ := json.Marshal(q)
	timer := time.AfterFunc(timeout, func() { e.s.cmd.Process.Kill() })
	defer timer.Stop()
	_, err := e.s.in.Write(append(b, '\n'))
	var m msg
	if err == nil {
		var line []byte
		line, err = e.s.out.ReadBytes('\n')
		if err == nil {
			err = json.Unmarshal(line, &m)
		}
	}
	if err == nil {
		return m, true
	}
	e.s.in.Close()
	e.s.cmd.Wait()
	code := e.s.cmd.ProcessState.ExitCode()
	text := e.s.err.String()
	e.s = nil
	k, t := deathKind(text, code)
	return msg{Kind: k, Msg: t}, false
}

func (e *evaluator) eval(in []uint64, keep bool) msg {
	m, _ := e.ask(map[string]interface{}{"Tape": in, "Keep": keep}, 60*time.Second)
	return m
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(stderr, "check error: "+format+"\n", a...)
	os.Exit(3)
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Seed     int64    `json:"verif_seed"`
	Run      int64    `json:"run"`
	RunSeed  uint64   `json:"run_seed"`
	Race     bool     `json:"race_build"`
	History  []uint64 `json:"history_run_seeds,omitempty"`
	Tape     []uint64 `json:"tape"`
	Original int      `json:"original_tape_length"`
	Hash     string   `json:"event_log_hash"`
	Log      []string `json:"event_log"`
}

func shrink(e *evaluator, in []uint64, kind string, limit time.Duration) []uint64 {
	end := time.Now().Add(limit)
	best := append([]uint64(nil), in...)
	try := func(c []uint64) bool {
		if time.Now().After(end) {
			return false
		}
		m := e.eval(c, false)
		if m.Kind == kind {
			if m.Tape != nil && len(m.Tape) <= len(c) {
				c = m.Tape
			}
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for round := 0; round < 12 && time.Now().Before(end); round++ {
		before := fmt.Sprint(best)
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best) && time.Now().Before(end); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if !try(c) {
					i += size
				}
			}
			if size > 1 {
				for i := 0; i+size <= len(best) && time.Now().Before(end); i += size {
					zero := true
					for _, v := range best[i : i+size] {
						zero = zero && v == 0
					}
					if !zero {
						c := append([]uint64(nil), best...)
						for j := i; j < i+size; j++ {
							c[j] = 0
						}
						try(c)
					}
				}
			}
		}
		for i := 0; i < len(best) && time.Now().Before(end); i++ {
			if best[i] == 0 {
				continue
			}
			c := append([]uint64(nil), best...)
			c[i] = 0
			if try(c) {
				continue
			}
			for v := best[i] / 2; i < len(best) && v > 0 && v < best[i]; v = v + (best[i]-v)/2 {
				c := append([]uint64(nil), best...)
				c[i] = v
				if try(c) || v+1 >= best[i] {
					break
				}
			}
			if i < len(best) && best[i] > 0 {
				c := append([]uint64(nil), best...)
				c[i]--
				try(c)
			}
		}
		if fmt.Sprint(best) == before {
			break
		}
	}
	for len(best) > 0 && best[len(best)-1] == 0 {
		c := best[:len(best)-1]
		if m := e.eval(c, false); m.Kind != kind {
			break
		}
		best = c
	}
	return best
}

// Options of a check's run.
type Options struct {
	Seed      int64
	Tier      string
	Budget    time.Duration
	Workers   int
	MaxRuns   int64
	Evidence  string
	ReplayDir string
	KnownFile string
}

type found struct {
	i    int64
	m    msg
	race bool
	hist []int64 // indices run earlier in the same process
}

// Main runs a check and returns the exit status.
func Main(ck *Check, opt Options) int {
	start := time.Now()
	total := newStats()
	cov := make([]byte, len(Sites)+1)
	deadline := start.Add(opt.Budget)
	recycle := ck.Recycle
	if recycle == 0 {
		recycle = 400
	}
	var mu sync.Mutex
	var next int64
	var viol *found
	var broken string
	var procs, raceRuns int64
	stop := false
	alive := map[*exec.Cmd]bool{}
	var wg sync.WaitGroup
	workers := opt.Workers
	for wi := 0; wi < workers; wi++ {
		wg.Add(1)
		race := ck.Race && wi%2 == 1
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				left := opt.MaxRuns - next
				if stop || !time.Now().Before(deadline) || left <= 0 {
					mu.Unlock()
					return
				}
				count := int64(recycle)
				if count > left {
					count = left
				}
				from := next
				next += count
				procs++
				c := command(race, "-worker", "-check", ck.ID, "-seed", strconv.FormatInt(opt.Seed, 10),
					"-from", strconv.FormatInt(from, 10), "-count", strconv.FormatInt(count, 10),
					"-deadline", strconv.FormatInt(deadline.UnixNano(), 10))
				ew := &tailWriter{}
				c.Stderr = ew
				po, _ := c.StdoutPipe()
				if err := c.Start(); err != nil {
					broken = err.Error()
					stop = true
					mu.Unlock()
					return
				}
				alive[c] = true
				mu.Unlock()
				rd := bufio.NewReaderSize(po, 1<<20)
				last := int64(-1)
				var v *msg
				var st *Stats
				for {
					line, err := rd.ReadBytes('\n')
					if err != nil {
						break
					}
					var m msg
					if json.Unmarshal(line, &m) != nil {
						break
					}
					switch m.T {
					case "s":
						last = m.I
					case "v":
						mm := m
						v = &mm
					case "e":
						st = m.Stats
					}
				}
				err := c.Wait()
				mu.Lock()
				delete(alive, c)
				if st != nil {
					merge(total, st, cov)
					if race {
						raceRuns += st.Runs
					}
				}
				if !stop && (v != nil || err != nil || st == nil) {
					f := &found{i: last, race: race}
					for j := from; j < last; j++ {
						f.hist = append(f.hist, j)
					}
					if v != nil {
						f.m = *v
					} else {
						k, t := deathKind(ew.String(), c.ProcessState.ExitCode())
						if k == "" || k == "out of memory" {
							if broken == "" {
								broken = fmt.Sprintf("worker died at run %d: %v\n%s%s", last, err, k, firstLines(t, "", 60))
							}
						} else {
							f.m = msg{Kind: k, Msg: t}
						}
					}
					if f.m.Kind != "" {
						viol = f
					}
					stop = true
					for o := range alive {
						o.Process.Kill()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	knownLines(ck, opt, total)
	searchWall := time.Since(start)
	if viol == nil && broken != "" {
		die("%s", broken)
	}
	code := 0
	var rep *Replay
	if viol != nil && os.Getenv("VERIF_NOCONFIRM") != "" { // for tools/mutate.py
		fmt.Fprintf(stdout, "found run %d %s: %s\n", viol.i, viol.m.Kind, firstLines(viol.m.Msg, "", 3))
		return 1
	}
	if viol != nil {
		rep = confirm(ck, opt, viol)
		if rep == nil {
			die("run %d failed once but not when repeated (%s): %s", viol.i, viol.m.Kind, viol.m.Msg)
		}
		os.MkdirAll(opt.ReplayDir, 0o777)
		name := filepath.Join(opt.ReplayDir, fmt.Sprintf("%s-%d-%d.json", ck.ID, opt.Seed, viol.i))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(name, append(b, '\n'), 0o666); err != nil {
			die("%v", err)
		}
		fmt.Fprintf(stdout, "%s: %s\n", rep.Kind, rep.Message)
		fmt.Fprintf(stdout, "seed %d run %d: %d choices, minimised to %d\n", opt.Seed, viol.i, rep.Original, len(rep.Tape))
		fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", ck.ID, name)
		code = 1
	}
	det := detSample(ck, opt, total)
	writeEvidence(ck, opt, total, cov, start, searchWall, procs, raceRuns, rep, det)
	if code == 0 {
		fmt.Fprintf(stdout, "%s: no violation in %d runs (%d simulated machines, %d distinct non-trivial event logs) in %.1fs\n",
			ck.ID, total.Runs, total.Sims, len(total.Hashes), searchWall.Seconds())
	}
	return code
}

// knownLines reports the known findings that are still there.
func knownLines(ck *Check, opt Options, total *Stats) {
	b, _ := os.ReadFile(opt.KnownFile)
	for _, k := range ck.Known {
		for _, line := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(line, "known: property="+ck.ID+" "+k.Name+" ") {
				continue
			}
			j, _ := json.Marshal(map[string]string{"Known": k.Name, "Check": ck.ID})
			p := command(false, "-child")
			p.Stdin = bytes.NewReader(j)
			out, err := p.Output()
			if err == nil && string(out) == "true" {
				fmt.Fprintf(stdout, "KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
				total.Known = append(total.Known, k.What)
			}
		}
	}
}

// KnownFails tells whether a known finding is still there.
func KnownFails(check, name string) bool {
	for _, k := range Checks[check].Known {
		if k.Name == name {
			return k.Fail(&Ctx{Tape: tape.Replay(nil), Stats: newStats()})
		}
	}
	return false
}

// detSample repeats a few runs in fresh processes and compares event logs.
func detSample(ck *Check, opt Options, total *Stats) string {
	if opt.MaxRuns < 4 || total.Runs < 4 {
		return "not sampled"
	}
	a, b := &evaluator{ck: ck}, &evaluator{ck: ck}
	defer a.close()
	defer b.close()
	same, n := 0, 0
	for i := int64(0); i < 8 && i < total.Runs; i++ {
		s := seedOf(opt.Seed, ck.ID, i)
		x, ok1 := a.ask(map[string]interface{}{"Seed": s}, 60*time.Second)
		if i%2 == 1 { // different history on the other side
			b.ask(map[string]interface{}{"Seed": tape.Mix(s)}, 60*time.Second)
		}
		y, ok2 := b.ask(map[string]interface{}{"Seed": s}, 60*time.Second)
		if !ok1 || !ok2 {
			continue
		}
		n++
		if x.Hash == y.Hash {
			same++
		}
	}
	r := fmt.Sprintf("%d of %d runs repeated in other processes gave identical event logs", same, n)
	if same != n {
		fmt.Fprintln(stderr, "warning: "+r)
	}
	return r
}

func confirm(ck *Check, opt Options, f *found) *Replay {
	seed := seedOf(opt.Seed, ck.ID, f.i)
	rep := &Replay{Property: ck.ID, Seed: opt.Seed, Run: f.i, RunSeed: seed, Race: f.race}
	e := &evaluator{ck: ck, race: f.race}
	defer e.close()
	kind := f.m.Kind
	full := f.m.Tape
	if full == nil { // it died: regenerate the choices as far as a seed allows
		full = prefixTape(ck, seed)
	}
	rep.Original = len(full)
	m := e.eval(full, false)
	if m.Kind == "" {
		e.close()
		// does it depend on what the process did before?
		for n := 1; ; n *= 2 {
			if n > len(f.hist) {
				n = len(f.hist)
			}
			h := f.hist[len(f.hist)-n:]
			var hs []uint64
			for _, i := range h {
				hs = append(hs, seedOf(opt.Seed, ck.ID, i))
			}
			if n > 0 && runHistory(e, hs, full).Kind != "" {
				rep.History = hs
				m = runHistory(e, hs, full)
				rep.Kind, rep.Message, rep.Tape = m.Kind, m.Msg, full
				rep.Hash = fmt.Sprintf("%016x", m.Hash)
				return rep
			}
			e.close()
			if n >= len(f.hist) {
				break
			}
		}
		return nil
	}
	kind = m.Kind
	limit := 30 * time.Second
	if opt.Tier == "thorough" {
		limit = 120 * time.Second
	}
	best := shrink(e, full, kind, limit)
	e.close()
	// replay twice in fresh processes: it must fail the same way, exactly
	m1 := e.eval(best, true)
	e.close()
	m2 := e.eval(best, true)
	if m1.Kind == kind && (m2.Kind != kind || m1.Hash != m2.Hash) && m1.Log != "" {
		fmt.Fprintln(stderr, "warning: minimised run differs between two replays")
	}
	if m1.Kind != kind || m2.Kind != kind {
		best = full
		e.close()
		m1 = e.eval(best, true)
		if m1.Kind == "" {
			return nil
		}
	}
	rep.Kind, rep.Message, rep.Tape = m1.Kind, m1.Msg, best
	rep.Hash = fmt.Sprintf("%016x", m1.Hash)
	rep.Log = strings.Split(m1.Log, "\n")
	return rep
}

func runHistory(e *evaluator, hs []uint64, t []uint64) msg {
	e.close()
	for _, s := range hs {
		e.ask(map[string]interface{}{"Seed": s}, 60*time.Second)
	}
	return e.eval(t, true)
}

// prefixTape gives the raw choices of a seed: enough of them, since modulo
// reduction happens when they are used.
func prefixTape(ck *Check, seed uint64) []uint64 {
	var l []uint64
	s := seed
	for i := 0; i < 6000; i++ {
		s += 0x9e3779b97f4a7c15
		z := s
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		l = append(l, z^(z>>31))
	}
	return l
}

// ReplayMain replays a file; it returns 1 if the violation shows again.
func ReplayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	ck := Checks[r.Property]
	if ck == nil {
		die("unknown property %q", r.Property)
	}
	e := &evaluator{ck: ck, race: r.Race}
	defer e.close()
	m := runHistory(e, r.History, r.Tape)
	fmt.Fprintf(stdout, "%s\n", m.Log)
	if m.Kind == "" {
		fmt.Fprintf(stdout, "%s: no violation\n", r.Property)
		return 0
	}
	fmt.Fprintf(stdout, "%s: %s\n", m.Kind, m.Msg)
	if h := fmt.Sprintf("%016x", m.Hash); m.Hash != 0 && h == r.Hash && m.Kind == r.Kind {
		fmt.Fprintln(stdout, "identical to the recorded run: event log hash "+h)
	} else {
		fmt.Fprintf(stdout, "recorded: %s %s; now: %s %016x\n", r.Kind, r.Hash, m.Kind, m.Hash)
	}
	fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

func merge(t, s *Stats, cov []byte) {
	t.Runs += s.Runs
	t.Sims += s.Sims
	t.Trivial += s.Trivial
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.SimTime += s.SimTime
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Calls {
		t.Calls[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for _, h := range s.HashList {
		t.Hashes[h] = true
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	for i, v := range s.Cov {
		if i < len(cov) && v != 0 {
			cov[i] = 1
		}
	}
}

func writeEvidence(ck *Check, opt Options, t *Stats, cov []byte, start time.Time, search time.Duration, procs, raceRuns int64, rep *Replay, det string) {
	files := map[string][2]int{}
	for i, s := range Sites {
		f := s[:strings.LastIndex(s, ":")]
		c := files[f]
		c[1]++
		if cov[i] != 0 {
			c[0]++
		}
		files[f] = c
	}
	reached := map[string]string{}
	for f, c := range files {
		if c[0] > 0 {
			reached[f] = fmt.Sprintf("%d/%d", c[0], c[1])
		}
	}
	notFired := []string{}
	for _, k := range ck.Kinds {
		if t.Faults[k] == 0 {
			notFired = append(notFired, k)
		}
	}
	for _, k := range ck.Probes {
		if t.Probes[k] == 0 {
			notFired = append(notFired, "probe:"+k)
		}
	}
	sort.Strings(notFired)
	samples := []interface{}{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	n := 0
	if rep != nil {
		n = 1
		samples = append(samples, map[string]interface{}{"violation": rep.Kind, "message": rep.Message, "tape": rep.Tape})
	}
	hours := search.Hours()
	ev := map[string]interface{}{
		"property": ck.ID,
		"tier":     opt.Tier,
		"seed":     opt.Seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":                  t.Runs,
			"distinct_nontrivial":          len(t.Hashes),
			"rule":                         ck.Rule,
			"samples":                      samples,
			"runs_per_hour":                int64(float64(t.Runs) / hours),
			"seeds_per_hour":               int64(float64(t.Runs) / hours),
			"simulated_machines":           t.Sims,
			"simulated_time_s":             t.SimTime,
			"trivial_runs":                 t.Trivial,
			"steps":                        t.Steps,
			"thread_switches":              t.Switches,
			"system_calls":                 t.Calls,
			"faults_injected":              t.Faults,
			"probes":                       t.Probes,
			"configured_but_never_fired":   notFired,
			"distinctness_measure":         "hash of the event log: every simulated system call with its result, every thread switch with its place, every clock change, every operation of the workload",
			"worker_processes":             procs,
			"runs_under_race_detector":     raceRuns,
			"determinism_sample":           det,
			"known_findings":               append([]string{}, t.Known...),
			"statements_reached":           reached,
			"components_running_real_code": ck.Real,
			"components_stubbed":           ck.Stub,
		},
		"assumptions": append([]string{
			"the Go toolchain, standard library and runtime outside the replaced system calls behave as documented",
			"statements of the instrumented copy are the scheduling points; a preemption inside one statement is covered only by the race detector",
		}, ck.Assume...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": n,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(opt.Evidence), 0o777)
	if err := os.WriteFile(opt.Evidence, append(b, '\n'), 0o666); err != nil {
		die("%v", err)
	}
}
