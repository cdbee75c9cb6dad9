// Package checks decides the properties.
package checks

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/postgres"
	_ "github.com/cespedes/accounting/backend/txtdb"

	"verif.local/rt"
	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

var zones []*time.Location

func init() {
	for _, n := range []string{"UTC", "America/New_York", "Asia/Tokyo", "Europe/Madrid", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Kolkata"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		zones = append(zones, z)
	}
}

// plainEnv is the simplest environment.
func plainEnv() simos.Env { return simos.Env{Zone: time.UTC, MapSeed: 1} }

// anyEnv chooses a time zone and an order for the iteration of maps.
func anyEnv(c *engine.Ctx) simos.Env {
	return simos.Env{Zone: zones[c.N(len(zones))], MapSeed: c.Seed()}
}

// fragment chooses how the disk cuts reads.
func fragment(c *engine.Ctx, w *simos.World) {
	w.FragStyle = c.N(4)
	switch w.FragStyle {
	case 1, 2, 3:
		w.Fire("fragmented-reads")
		w.FragSeed = c.Seed()
		w.FragSize = []int{1, 2, 3, 7, 16, 100, 511, 4095}[c.N(8)]
	}
}

// anyClock sets the machine's clock.
func anyClock(c *engine.Ctx, w *simos.World) {
	w.Clock = time.Date(1990+c.N(60), time.Month(1+c.N(12)), 1+c.N(31), c.N(24), c.N(60), c.N(60), c.N(2)*123456789, time.UTC)
}

// put writes files on a machine's disk.
func put(w *simos.World, files map[string][]byte) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w.Write(n, append([]byte(nil), files[n]...))
	}
}

// opened is the outcome of opening a ledger.
type opened struct {
	L   *accounting.Ledger
	Err error
	Res *simos.Result
}

// died describes an abnormal end of a run, or "".
func died(r *simos.Result) (kind, msg string) {
	if p := r.Panic(); p != "" {
		switch {
		case strings.HasPrefix(p, "panic"):
			return "panic", p
		case strings.HasPrefix(p, "deadlock"):
			return "deadlock", p
		}
		return "no progress", p
	}
	if code := r.ExitCode(); code >= 0 {
		return "process exit", fmt.Sprintf("the process exited with status %d", code)
	}
	return "", ""
}

// pristine does f as if in a process of its own: package-level variables of the
// code under test have their initial values, and afterwards what they were.
func pristine(f func()) {
	back := rt.Pristine()
	defer back()
	f()
}

// open opens a ledger on a thread of its own.
func open(w *simos.World, env simos.Env, source string) (o opened) {
	o.Res = w.Run(simos.Sched{}, env, simos.Job{Name: "open", F: func() { o.L, o.Err = accounting.Open(source) }})
	return o
}

// must fails the run if the process died.
func must(c *engine.Ctx, r *simos.Result, what string) {
	if k, m := died(r); k != "" {
		c.Fail(k, "%s: %s", what, m)
	}
}

// mustOpen opens a journal that has to open.
func mustOpen(c *engine.Ctx, w *simos.World, env simos.Env, source string) *accounting.Ledger {
	o := open(w, env, source)
	must(c, o.Res, "opening "+source)
	if o.Err != nil {
		c.Fail("unexpected error", "opening %s: %v", source, o.Err)
	}
	return o.L
}

// single runs f on a thread of its own and fails the run if the process dies.
func single(c *engine.Ctx, w *simos.World, env simos.Env, what string, f func()) {
	must(c, w.Run(simos.Sched{}, env, simos.Job{Name: what, F: f}), what)
}

// export calls ledger.Export, whether or not it returns an error.
func export(out io.Writer, l *accounting.Ledger) error {
	switch f := interface{}(ledger.Export).(type) {
	case func(io.Writer, *accounting.Ledger):
		f(out, l)
	case func(io.Writer, *accounting.Ledger) error:
		return f(out, l)
	default:
		panic("ledger.Export has an unknown type")
	}
	return nil
}

// sched lets the tape decide the interleaving.
func sched(c *engine.Ctx) simos.Sched {
	style := c.N(4)
	left := 1500
	return simos.Sched{
		Pick: func(n int) int {
			if left <= 0 {
				return 0
			}
			left--
			return c.N(n)
		},
		Quantum: func() int64 {
			if left <= 0 {
				return 1 << 40
			}
			left--
			switch style {
			case 0:
				return 1 + int64(c.N(2000))
			case 1:
				return 1 + int64(c.N(40))
			case 2:
				return 1 + int64(c.N(300))
			}
			if c.N(3) == 0 {
				return 1 + int64(c.N(20))
			}
			return 1 + int64(c.N(4000))
		},
	}
}

// ---- faults ----

type fault struct {
	op   string
	n    int // index of the call among those of its kind; -1 for any
	path string
	kind string
	hard bool
	out  simos.Outcome
}

type plan struct {
	faults []*fault
	fired  []string
	hard   bool
	opens  map[string]bool // files that could not be opened
	others bool            // a hard fault that is not a failed open
}

var openErrs = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENFILE, syscall.ENOMEM, syscall.ELOOP, syscall.EPERM}
var readErrs = []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.ENOMEM, syscall.EBADF, syscall.ECONNRESET}

var readKinds = []string{"open-error", "read-error", "read-short", "read-eintr", "open-eintr", "slow-call", "close-error"}

// makePlan chooses faults for a workload whose fault-free run made the given calls.
func makePlan(c *engine.Ctx, counts map[string]int, max int) *plan {
	p := &plan{opens: map[string]bool{}}
	for i := c.N(max + 1); i > 0; i-- {
		f := &fault{}
		pick := func(op string) {
			f.op = op
			f.n = c.N(counts[op])
		}
		switch c.N(8) {
		case 0, 1:
			pick("open")
			f.kind, f.hard, f.out.Errno = "open-error", true, openErrs[c.N(len(openErrs))]
		case 2, 3:
			pick("read")
			f.kind, f.hard, f.out.Errno = "read-error", true, readErrs[c.N(len(readErrs))]
		case 4:
			pick("read")
			f.kind, f.out.Short = "read-short", 1+c.N(40)
		case 5:
			pick([]string{"read", "open"}[c.N(2)])
			f.kind, f.out.EINTR = f.op+"-eintr", 1+c.N(5)
		case 6:
			pick([]string{"read", "open"}[c.N(2)])
			f.kind, f.out.Delay = "slow-call", time.Duration(1+c.N(1000))*time.Second
		case 7:
			pick("close")
			f.kind, f.hard, f.out.Errno = "close-error", true, syscall.EIO
		}
		f.out.Kind = f.kind
		p.faults = append(p.faults, f)
	}
	return p
}

func (p *plan) hook(a simos.Access) simos.Outcome {
	for i, f := range p.faults {
		if f == nil || f.op != a.Op || (f.n >= 0 && f.n != a.N) || (f.path != "" && f.path != a.Path) {
			continue
		}
		if f.n >= 0 {
			p.faults[i] = nil
		}
		p.fired = append(p.fired, fmt.Sprintf("%s on %s of %s at byte %d (%v)", f.kind, a.Op, a.Path, a.Off, f.out.Errno))
		if f.hard {
			p.hard = true
			if a.Op == "open" {
				p.opens[a.Path] = true
			} else {
				p.others = true
			}
		}
		return f.out
	}
	return simos.Outcome{}
}

func copyCounts(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// ---- comparing ----

var exact = canon.Opt{IDs: true, PriceOrder: true}

func diff(c *engine.Ctx, kind, what string, a, b []string, na, nb string) {
	if d := canon.Diff(a, b, na, nb); d != "" {
		c.Fail(kind, "%s\n    %s", what, d)
	}
}

// files describes the files of a journal for the event log.
func logFiles(c *engine.Ctx, files map[string][]byte) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := files[n]
		if len(d) > 3000 {
			d = append(append([]byte(nil), d[:3000]...), "..."...)
		}
		c.Logf("file %s:\n%s", n, d)
	}
}

func sizeOf(files map[string][]byte) int {
	n := 0
	for _, b := range files {
		n += len(b)
	}
	return n
}

func noteJournal(j *jmodel.Journal, files map[string][]byte) string {
	t, p := 0, 0
	for _, it := range j.Items {
		if it.Txn != nil {
			t++
		}
		if it.Price != nil {
			p++
		}
	}
	return fmt.Sprintf("journal of %d files, %d bytes, %d transactions, %d prices, %d currencies", len(files), sizeOf(files), t, p, len(j.Curs))
}
