package checks

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"log"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	acccmd "github.com/cespedes/accounting/cmd/acc"
	ledgercmd "github.com/cespedes/accounting/cmd/ledger"
	muscularcmd "github.com/cespedes/accounting/cmd/muscular"
	tacccmd "github.com/cespedes/accounting/cmd/tacc"

	"verif.local/rt"
	"verifsim/canon"
	"verifsim/engine"
	"verifsim/simos"
)

// proc is the outcome of one invocation of a command.
type proc struct {
	Out, Err []byte
	Exit     int
	Died     string // panic, deadlock or endless loop
}

func (p *proc) String() string {
	return fmt.Sprintf("exit %d%s, output %q", p.Exit, p.Died, clip(p.Out, 1500))
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return append(append([]byte(nil), b[:n]...), "..."...)
	}
	return b
}

var mains = map[string]func(){"ledger": ledgercmd.Main, "acc": acccmd.Main, "muscular": muscularcmd.Main, "tacc": tacccmd.Main}

func init() {
	rt.NewProcess = func() { flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError) }
}

var stdout, stderr = os.Stdout, os.Stderr

// reopen undoes what an earlier program did to its standard files.
func reopen() {
	if _, err := stdout.Write(nil); errors.Is(err, os.ErrClosed) {
		stdout = os.NewFile(1, "/dev/stdout")
	}
	if _, err := stderr.Write(nil); errors.Is(err, os.ErrClosed) {
		stderr = os.NewFile(2, "/dev/stderr")
	}
	os.Stdout, os.Stderr = stdout, stderr
}

// command runs one of the repository's programs.
func command(w *simos.World, env simos.Env, name string, args []string, environ ...string) *proc {
	for _, e := range environ {
		k := strings.IndexByte(e, '=')
		os.Setenv(e[:k], e[k+1:])
		defer os.Unsetenv(e[:k])
	}
	out, errs := len(w.Stdout), len(w.Stderr)
	old := os.Args
	os.Args = append([]string{name}, args...)
	w.Logf("command %s %q", name, args)
	back := rt.Pristine() // as in a process of its own
	reopen()
	r := w.Run(simos.Sched{Process: true}, env, simos.Job{Name: name, F: func() {
		flag.CommandLine = flag.NewFlagSet(name, flag.ExitOnError)
		rt.Reset(name + "cmd")
		log.SetOutput(os.Stderr)
		log.SetFlags(log.LstdFlags)
		log.SetPrefix("")
		mains[name]()
	}})
	back()
	os.Args = old
	p := &proc{Out: append([]byte(nil), w.Stdout[out:]...), Err: append([]byte(nil), w.Stderr[errs:]...)}
	if c := r.ExitCode(); c > 0 {
		p.Exit = c
	}
	if m := r.Panic(); m != "" {
		p.Died = m
		p.Exit = 2
	}
	return p
}

// job is something to be done in a fresh process.
type job struct {
	Check, Known string // a known finding
	Files        map[string][]byte
	Zone         int
	MapSeed      uint64
	Clock        time.Time
	Source       string // open this and describe it
	Cmd          string // or run this program
	Args         []string
	Environ      []string
}

type jobResult struct {
	Proc   proc
	Dump   []string `json:"-"`
	Export []byte
	Err    string `json:"-"`
	Died   string
	Raw    [][]byte // of the above: the error and the description may not be UTF-8
}

func (j *job) env() simos.Env { return simos.Env{Zone: zones[j.Zone], MapSeed: j.MapSeed} }

// do does the job in this process, on a machine of its own.
func (j *job) do(w *simos.World) (r jobResult) {
	put(w, j.Files)
	if !j.Clock.IsZero() {
		w.Clock = j.Clock
	}
	if j.Cmd != "" {
		r.Proc = *command(w, j.env(), j.Cmd, j.Args, j.Environ...)
		r.Died = r.Proc.Died
		return r
	}
	o := open(w, j.env(), j.Source)
	if k, m := died(o.Res); k != "" {
		r.Died = k + ": " + m
		return r
	}
	if o.Err != nil {
		r.Err = o.Err.Error()
		return r
	}
	r.Dump = canon.Dump(o.L, exact)
	res := w.Run(simos.Sched{}, j.env(), simos.Job{Name: "export", F: func() { export((*buf)(&r.Export), o.L) }})
	if k, m := died(res); k != "" {
		r.Died = k + ": " + m
	}
	return r
}

// alone does the job in a process of its own.
func (j *job) alone(c *engine.Ctx) (r jobResult) {
	b, _ := json.Marshal(j)
	out := c.Child(b)
	if err := json.Unmarshal(out, &r); err != nil {
		panic(fmt.Sprintf("child said %q: %v", clip(out, 200), err))
	}
	r.Err = string(r.Raw[0])
	for _, b := range r.Raw[1:] {
		r.Dump = append(r.Dump, string(b))
	}
	return r
}

type buf []byte

func (b *buf) Write(p []byte) (int, error) {
	*b = append(*b, p...)
	return len(p), nil
}

func init() {
	engine.ChildFunc = func(in []byte) []byte {
		var j job
		if err := json.Unmarshal(in, &j); err != nil {
			panic(err)
		}
		if j.Known != "" {
			return []byte(fmt.Sprint(engine.KnownFails(j.Check, j.Known)))
		}
		r := j.do(simos.New())
		r.Raw = [][]byte{[]byte(r.Err)}
		for _, l := range r.Dump {
			r.Raw = append(r.Raw, []byte(l))
		}
		b, _ := json.Marshal(r)
		return b
	}
}

// text exports a ledger.
func text(c *engine.Ctx, w *simos.World, env simos.Env, l *accounting.Ledger) []byte {
	var b buf
	single(c, w, env, "export", func() {
		if err := export(&b, l); err != nil {
			panic(err)
		}
	})
	return b
}

func sortedKeys(m map[string][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
