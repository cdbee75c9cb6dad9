// The simulator for the registry of backends: a program of its own, in which
// no real backend registers itself. See DESIGN.md, C07.
package main

import (
	"errors"
	"fmt"
	"strings"
	"time"
	"unsafe"

	"github.com/cespedes/accounting"

	"verif.local/rt"

	"verifsim/engine"
	"verifsim/simos"
	"verifsim/sites"
)

func main() {
	engine.Sites = sites.Table
	engine.Command()
}

func init() {
	engine.Add(&engine.Check{
		ID:   "C07",
		Run:  c07,
		Race: true,
		Rule: "one run: 2 to 6 goroutines make 1 to 6 operations each on an empty registry (register a driver under one of 5 names, two or three of them default backends; register nil; open with a scheme, without one, or a malformed source); drivers open at once, slowly, fail, panic, stall until all others are done, give inconsistent books, or themselves open and register; " +
			"the tape interleaves them at statements; afterwards every name is opened; the history must have a linearization that agrees with real time and a sequential registry; half of the workers run under the race detector; trivial: no two operations of different goroutines overlapped",
		Real:   []string{"accounting.Register, accounting.Open, Ledger.Close"},
		Stub:   []string{"backends (drivers of the simulator)", "goroutine scheduler, sync.RWMutex of the code under test", "clock"},
		Kinds:  []string{"driver-stall", "driver-slow", "driver-error", "driver-panic", "inconsistent-books", "reentrant-driver"},
		Probes: []string{"registered twice at once", "opened while being registered", "no scheme", "no default backend", "nil driver", "malformed source", "open with an unknown scheme", "driver registered again"},
	})
}

const (
	opRegister = iota
	opNil
	opOpen
)

// op is an operation and its outcome.
type op struct {
	id, kind int
	name     string // registered name
	driver   int    // registered driver
	source   string // data source, without the number of the operation
	scheme   string // what it should reach: a name, "" for the default, "?" for nothing

	call, ret int    // when
	panicked  string // panic value
	reached   int    // driver that was asked to open, 0 if none
	err       error
	ledger    int // what ledger was returned: number of the driver that made it
	given     string
	closed    int // connections that its driver closed
	refused   bool
	nested    []*op
}

type driver struct {
	id    int
	kind  int
	extra []*op // for a reentrant driver
	s     *state
}

const (
	plain = iota
	slow
	failing
	panicking
	stalling
	inconsistent
	reentrant
)

type state struct {
	c       *engine.Ctx
	ops     []*op
	drivers []*driver // by number - 1
	clock   int
	total   int
	over    int
	stalled int
	gate    int
}

//go:norace
func (s *state) tick() int { s.clock++; return s.clock }

// done says that a goroutine ended or stalls; the gate opens when there is no other.
//
//go:norace
func (s *state) done(stall bool) {
	if stall {
		s.stalled++
	} else {
		s.over++
	}
	if s.over+s.stalled == s.total {
		s.gate = 1
		rt.Wake(unsafe.Pointer(s))
		return
	}
	if !stall {
		return
	}
	for s.gate == 0 {
		rt.Block(unsafe.Pointer(s))
	}
}

type connection struct{ o *op }

func (k *connection) Close() error { k.o.closed++; return nil }
func (k *connection) Refresh()     {}

var errDriver = errors.New("the backend does not work")

func (d *driver) Open(source string, b *accounting.Backend) (accounting.Connection, error) {
	i := strings.LastIndex(source, "#")
	var n int
	fmt.Sscan(source[i+1:], &n)
	o := d.s.ops[n]
	o.ret = d.s.tick()
	o.reached = d.id
	o.given = source
	a := &accounting.Account{Name: "made by driver", Code: fmt.Sprint(d.id)}
	b.Ledger.Accounts = append(b.Ledger.Accounts, a)
	switch d.kind {
	case slow:
		rt.Sleep(time.Minute)
	case failing:
		return nil, errDriver
	case panicking:
		panic(errDriver)
	case stalling:
		d.s.done(true)
	case inconsistent:
		cur := &accounting.Currency{Name: "EUR", Precision: 2, Decimal: "."}
		b.Ledger.Currencies = append(b.Ledger.Currencies, cur)
		t := &accounting.Transaction{Time: time.Unix(0, 0), Description: "unbalanced"}
		t.Splits = []*accounting.Split{{Account: a, Transaction: t, Value: accounting.Value{Amount: 1, Currency: cur}}}
		b.Ledger.Transactions = append(b.Ledger.Transactions, t)
	case reentrant:
		for _, x := range d.extra {
			y := *x
			y.call = 0
			if len(o.nested) == 0 && !o.refused {
				d.s.do(&y)
				o.nested = append(o.nested, &y)
			}
		}
	}
	return &connection{o}, nil
}

// do makes an operation.
func (s *state) do(o *op) {
	o.call = s.tick()
	defer func() {
		if r := recover(); r != nil {
			o.panicked = fmt.Sprint(r)
		}
		if o.reached == 0 {
			o.ret = s.tick()
		}
	}()
	switch o.kind {
	case opRegister:
		accounting.Register(o.name, s.drivers[o.driver-1])
	case opNil:
		accounting.Register(o.name, nil)
	case opOpen:
		l, err := accounting.Open(fmt.Sprintf("%s#%d", o.source, o.id))
		o.err = err
		if err == nil {
			fmt.Sscan(l.Accounts[0].Code, &o.ledger)
			l.Close()
		}
	}
}

func (o *op) String() string {
	switch o.kind {
	case opRegister:
		return fmt.Sprintf("register(%s, driver %d)", o.name, o.driver)
	case opNil:
		return fmt.Sprintf("register(%s, nil)", o.name)
	}
	return fmt.Sprintf("open(%s#%d)", o.source, o.id)
}

func (o *op) outcome() string {
	switch {
	case o.panicked != "":
		return "panicked: " + o.panicked
	case o.err != nil:
		return fmt.Sprintf("reached driver %d, error: %v", o.reached, o.err)
	case o.kind == opOpen:
		return fmt.Sprintf("reached driver %d, ledger of driver %d", o.reached, o.ledger)
	}
	return "done"
}

var names = []string{"ledger", "alpha", "txtdb", "beta-2", "postgres"}

func (s *state) newOp(c *engine.Ctx, nested bool) *op {
	o := &op{id: len(s.ops)}
	switch k := c.N(8); {
	case k < 3:
		o.kind = opRegister
		o.name = names[c.N(len(names))]
		if nested {
			o.name = "nested"
		}
		if n := len(s.drivers); n > 0 && !nested && c.N(4) == 3 {
			// one that was registered before, perhaps with the same name
			o.driver = 1 + c.N(n)
			for _, x := range s.ops {
				if x.kind == opRegister && x.driver == o.driver && x.name != "nested" && c.N(2) == 1 {
					o.name = x.name
				}
			}
			c.Probe("driver registered again")
			break
		}
		d := &driver{id: len(s.drivers) + 1, s: s}
		s.drivers = append(s.drivers, d)
		o.driver = d.id
		if !nested {
			d.kind = []int{plain, plain, plain, slow, failing, panicking, stalling, stalling, inconsistent, reentrant}[c.N(10)]
		}
		if d.kind == reentrant {
			for i := c.Range(1, 2); i > 0; i-- {
				d.extra = append(d.extra, s.newOp(c, true))
			}
		}
	case k == 3:
		o.kind = opNil
		o.name = names[c.N(len(names))]
		c.Probe("nil driver")
	default:
		o.kind = opOpen
		n := names[c.N(len(names))]
		o.scheme = n
		switch c.N(8) {
		default:
			o.source = n + ":/some/where"
		case 0:
			o.source = n + "://host/path?x=y"
		case 1, 2, 3:
			o.scheme, o.source = "", []string{"some.ledger", "/some/where", "./a b", "//host/path"}[c.N(4)]
			c.Probe("no scheme")
		case 4:
			o.scheme, o.source = "?", []string{"\x7f", "://x", "1st:thing", "/a%zz", "a\nb:x"}[c.N(5)]
			c.Probe("malformed source")
		case 5:
			o.scheme, o.source = "unknown", "unknown:some.ledger"
			c.Probe("open with an unknown scheme")
		}
		if nested {
			o.scheme, o.source = "nowhere", "nowhere:x"
		}
	}
	s.ops = append(s.ops, o)
	return o
}

var defaults = []string{"ledger", "txtdb", "postgres"}

// apply is the sequential registry: it tells whether o can have had its
// outcome with these drivers registered, and what is registered after it.
func apply(reg map[string]int, o *op) bool {
	switch o.kind {
	case opNil:
		return o.panicked != ""
	case opRegister:
		if reg[o.name] != 0 {
			return o.panicked != ""
		}
		if o.panicked != "" {
			return false
		}
		reg[o.name] = o.driver
		return true
	}
	want := 0
	switch o.scheme {
	case "?":
	case "":
		for _, n := range defaults {
			if reg[n] != 0 {
				want = reg[n]
				break
			}
		}
	default:
		want = reg[o.scheme]
	}
	return o.reached == want
}

// linearize looks for an order.
func linearize(ops []*op) bool {
	n := len(ops)
	if n > 60 {
		panic("too many operations")
	}
	dead := map[string]bool{}
	var try func(done uint64, reg map[string]int) bool
	try = func(done uint64, reg map[string]int) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		key := fmt.Sprint(done)
		for _, x := range names {
			key += fmt.Sprint(" ", reg[x])
		}
		if dead[key] {
			return false
		}
		first := 1 << 60 // the earliest end of those to come
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done>>uint(i)&1 != 0 || o.call > first {
				continue
			}
			r := map[string]int{}
			for k, v := range reg {
				r[k] = v
			}
			if apply(r, o) && try(done|1<<uint(i), r) {
				return true
			}
		}
		dead[key] = true
		return false
	}
	return try(0, map[string]int{})
}

func c07(c *engine.Ctx) {
	rt.Reset("")
	s := &state{c: c}
	w := c.World()
	var threads [][]*op
	s.total = c.Range(2, 6)
	for i := 0; i < s.total; i++ {
		var ops []*op
		for k := c.Range(1, 6); k > 0; k-- {
			ops = append(ops, s.newOp(c, false))
		}
		threads = append(threads, ops)
		c.Logf("goroutine %d: %v", i, ops)
	}
	for _, d := range s.drivers {
		c.Logf("driver %d kind %d extra %v", d.id, d.kind, d.extra)
	}
	var jobs []simos.Job
	for i, ops := range threads {
		ops := ops
		jobs = append(jobs, simos.Job{Name: fmt.Sprint("goroutine ", i), F: func() {
			defer s.done(false)
			for _, o := range ops {
				s.do(o)
			}
		}})
	}
	style := c.N(3)
	left := 600
	pick := func(n int) int {
		if left <= 0 {
			return 0
		}
		left--
		return c.N(n)
	}
	quantum := func() int64 {
		if left <= 0 {
			return 1 << 40
		}
		left--
		switch style {
		case 0:
			return 1 + int64(c.N(4))
		case 1:
			return 1 + int64(c.N(12))
		}
		return 1 + int64(c.N(40))
	}
	res := w.Run(simos.Sched{Pick: pick, Quantum: quantum}, simos.Env{Zone: time.UTC, MapSeed: c.Seed()}, jobs...)
	if p := res.Panic(); p != "" {
		kind := "panic"
		if strings.HasPrefix(p, "deadlock") {
			kind = "blocked"
			p = "operations never end although only the drivers that stall until all others are done do not answer:\n" + s.history(threads)
		} else if !strings.HasPrefix(p, "panic") {
			kind = "no progress"
		}
		c.Fail(kind, "%s", p)
	}
	// afterwards
	var all []*op
	var last []*op
	for _, n := range append([]string{""}, names...) {
		o := &op{id: len(s.ops), kind: opOpen, scheme: n, source: n + ":x"}
		if n == "" {
			o.source = "x"
		}
		s.ops = append(s.ops, o)
		last = append(last, o)
	}
	s.total, s.over, s.stalled, s.gate = 1, 0, 0, 1
	res = w.Run(simos.Sched{}, simos.Env{Zone: time.UTC, MapSeed: 1}, simos.Job{Name: "afterwards", F: func() {
		for _, o := range last {
			s.do(o)
		}
	}})
	if p := res.Panic(); p != "" {
		c.Fail("blocked", "opening afterwards: %s", p)
	}
	threads = append(threads, last)
	overlap := false
	for i, ops := range threads {
		for _, o := range ops {
			all = append(all, o)
			for _, x := range threads[:i] {
				for _, y := range x {
					if o.call < y.ret && y.call < o.ret {
						overlap = true
						if o.kind == opRegister && y.kind == opRegister && o.name == y.name {
							c.Probe("registered twice at once")
						}
						if o.kind != y.kind && o.kind != opNil && y.kind != opNil && o.name+o.scheme == y.name+y.scheme {
							c.Probe("opened while being registered")
						}
					}
				}
			}
			if o.kind == opOpen && o.scheme == "" && o.reached == 0 {
				c.Probe("no default backend")
			}
		}
	}
	c.Trivial = !overlap
	fail := func(kind, format string, a ...interface{}) {
		c.Fail(kind, "%s\n%s", fmt.Sprintf(format, a...), s.history(threads))
	}
	for _, o := range all {
		s.outcome(w, o, fail)
		for _, x := range o.nested {
			if x.kind == opOpen && (x.err == nil || x.reached != 0 || x.panicked != "") {
				fail("wrong driver", "%v within a driver: %s", x, x.outcome())
			}
		}
	}
	if !linearize(all) {
		fail("not linearizable", "no order of these operations explains their outcomes")
	}
	c.Note = fmt.Sprintf("%d goroutines, %d operations, %d drivers", len(threads)-1, len(all), len(s.drivers))
}

// outcome checks what can be checked of one operation alone.
func (s *state) outcome(w *simos.World, o *op, fail func(kind, format string, a ...interface{})) {
	switch o.kind {
	case opNil:
		if o.panicked == "" {
			fail("nil registered", "%v did not panic", o)
		}
		return
	case opRegister:
		return
	}
	if o.reached == 0 {
		if o.panicked != "" {
			fail("panic", "%v reached no driver and panicked: %s", o, o.panicked)
		}
		if o.err == nil {
			fail("no error", "%v reached no driver but gave no error", o)
		}
		return
	}
	if want := fmt.Sprintf("%s#%d", o.source, o.id); o.given != want {
		fail("wrong driver", "%v: the driver was given %q", o, o.given)
	}
	d := s.drivers[o.reached-1]
	switch d.kind {
	case failing:
		w.Fire("driver-error")
		if o.err != errDriver && (o.err == nil || !strings.Contains(o.err.Error(), errDriver.Error())) || o.panicked != "" {
			fail("wrong outcome", "%v: driver %d failed, but: %s", o, d.id, o.outcome())
		}
		return
	case panicking:
		w.Fire("driver-panic")
		// the panic may reach the caller or be made an error, but is not lost
		if o.panicked == "" && o.err == nil {
			fail("wrong outcome", "%v: driver %d panicked, but: %s", o, d.id, o.outcome())
		}
		return
	case inconsistent:
		w.Fire("inconsistent-books")
		if o.err == nil || o.panicked != "" {
			fail("wrong outcome", "%v: driver %d gave inconsistent books, but: %s", o, d.id, o.outcome())
		}
		return
	case stalling:
		w.Fire("driver-stall")
	case slow:
		w.Fire("driver-slow")
	case reentrant:
		w.Fire("reentrant-driver")
	}
	if o.panicked != "" || o.err != nil || o.ledger != d.id {
		fail("wrong outcome", "%v reached driver %d, but: %s", o, d.id, o.outcome())
	}
	if o.closed != 1 {
		fail("wrong outcome", "%v: its connection was closed %d times", o, o.closed)
	}
}

// history shows what happened.
func (s *state) history(threads [][]*op) string {
	var b strings.Builder
	for i, ops := range threads {
		for _, o := range ops {
			fmt.Fprintf(&b, "goroutine %d [%d,%d] %v: %s\n", i, o.call, o.ret, o, o.outcome())
		}
	}
	return b.String()
}
