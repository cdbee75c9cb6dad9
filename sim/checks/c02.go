package checks

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C02",
		Run: c02,
		Rule: "one run: a generated journal of up to 4 files (one time in six, a text database) is opened, exported and reported on (3 commands with explicit dates) in the plain environment, and again 3 times with fragmented, interrupted and slow reads, another time zone, clock, map order and variables of the environment, " +
			"after the process opened and reported on other journals (one time in ten in a process of its own); a run is trivial if the journal has no transactions and no prices",
		Real:   []string{"accounting", "backend/ledger, backend/txtdb", "cmd/ledger", "cmd/acc", "bufio, os, internal/poll, fmt, time above the system calls"},
		Stub:   []string{"openat, read, write, close, stat (simulated disk)", "clock, time zone, map iteration order", "standard output and error"},
		Kinds:  []string{"fragmented-reads", "read-short", "read-eintr", "open-eintr", "slow-call"},
		Probes: []string{"text database", "variables of the environment", "with history", "fresh process", "command succeeded", "command failed"},
	})
}

// softPlan chooses faults that a program must not notice.
func softPlan(c *engine.Ctx, counts map[string]int) *plan {
	p := makePlan(c, counts, 0)
	for i := c.N(4); i > 0; i-- {
		f := &fault{op: []string{"read", "open"}[c.N(2)]}
		f.n = c.N(counts[f.op] + 1)
		switch c.N(3) {
		case 0:
			f.op, f.kind, f.out.Short = "read", "read-short", 1+c.N(40)
		case 1:
			f.kind, f.out.EINTR = f.op+"-eintr", 1+c.N(5)
		case 2:
			f.kind, f.out.Delay = "slow-call", time.Duration(1+c.N(100000))*time.Second
		}
		f.out.Kind = f.kind
		p.faults = append(p.faults, f)
	}
	return p
}

// variables are variables of the environment that the programs do not look at,
// or not when they are told what to do.
type variables [][2]string

func someVariables(c *engine.Ctx) (v variables) {
	if c.N(3) < 2 {
		return nil
	}
	c.Probe("variables of the environment")
	languages := []string{"C", "es_ES.UTF-8", "en_US.UTF-8", "de_DE"}
	for _, k := range []string{"LC_ALL", "LC_NUMERIC", "LC_TIME", "LANG"} {
		if c.N(2) == 1 {
			v = append(v, [2]string{k, languages[c.N(len(languages))]})
		}
	}
	if c.N(2) == 1 {
		v = append(v, [2]string{"LEDGER_FILE", []string{"/home/u/nothing.ledger", "txtdb:/nothing", "nothing"}[c.N(3)]})
	}
	if c.N(3) == 2 {
		v = append(v, [2]string{"COLUMNS", "40"})
	}
	return v
}

func (v variables) set() {
	for _, x := range v {
		os.Setenv(x[0], x[1])
	}
}

func (v variables) unset() {
	for _, x := range v {
		os.Unsetenv(x[0])
	}
}

func (v variables) String() string {
	s := ""
	for _, x := range v {
		s += " " + x[0] + "=" + x[1]
	}
	return s
}

// activity makes a process do something with another journal.
func activity(c *engine.Ctx, env simos.Env) {
	j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 3, MaxPrices: 2, Includes: 1})
	w := c.World()
	put(w, j.Files())
	o := open(w, env, j.Root)
	must(c, o.Res, "opening another journal")
	if o.Err != nil {
		c.Fail("unexpected error", "opening another journal: %v", o.Err)
	}
	if c.N(2) == 1 {
		l := o.L.Clone()
		single(c, w, env, "fill", func() { l.Fill() })
		text(c, w, env, l)
	}
	if c.N(2) == 1 {
		f := factsOf(j)
		command(w, env, "ledger", append([]string{"-f", j.Root}, f.report(c, false)...))
	}
}

func c02(c *engine.Ctx) {
	var files map[string][]byte
	var f *facts
	var source string
	if c.N(6) == 5 {
		c.Probe("text database")
		_, a, t := genTxt(c)
		files = map[string][]byte{"/db/accounts": a}
		if t != nil {
			files["/db/transactions"] = t
		}
		source = "txtdb:/db"
		logFiles(c, files)
		w := c.World()
		put(w, files)
		o := open(w, plainEnv(), source)
		must(c, o.Res, "opening "+source)
		if o.Err != nil { // it contradicts itself
			c.Trivial = true
			return
		}
		f = factsIn(o.L)
		c.Trivial = len(o.L.Transactions) == 0
		c.Note = fmt.Sprintf("text database of %d transactions", len(o.L.Transactions))
	} else {
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 3})
		files = j.Files()
		logFiles(c, files)
		f = factsOf(j)
		source = j.Root
		c.Trivial = j.Empty()
		c.Note = noteJournal(j, files)
	}
	var cmds [][]string
	for i := 0; i < 3; i++ {
		cmds = append(cmds, append([]string{"-f", source}, f.report(c, true)...))
	}
	type outcome struct {
		dump   []string
		export []byte
		procs  []*proc
	}
	opens := func(w *simos.World, env simos.Env) (o outcome) {
		l := mustOpen(c, w, env, source)
		o.dump = canon.Dump(l, exact)
		o.export = text(c, w, env, l)
		for _, a := range cmds {
			o.procs = append(o.procs, command(w, env, "ledger", a))
		}
		o.procs = append(o.procs, command(w, env, "acc", []string{source}))
		return o
	}
	w := c.World()
	put(w, files)
	counts0 := w.Counts
	want := opens(w, plainEnv())
	for _, p := range want.procs {
		if p.Exit == 0 {
			c.Probe("command succeeded")
		} else {
			c.Probe("command failed")
		}
	}
	compare := func(what string, got outcome) {
		diff(c, "different ledger", "the same bytes give another ledger "+what, want.dump, got.dump, "first", "then")
		if !bytes.Equal(want.export, got.export) {
			diff(c, "different export", "the same bytes are exported differently "+what, strings.Split(string(want.export), "\n"), strings.Split(string(got.export), "\n"), "first", "then")
		}
		for i, p := range got.procs {
			q := want.procs[i]
			name := "acc"
			if i < len(cmds) {
				name = fmt.Sprintf("ledger %q", cmds[i])
			}
			if p.Died != "" {
				c.Fail("panic", "%s %s: %s", name, what, p.Died)
			}
			if p.Exit != q.Exit {
				c.Fail("different report", "%s ends with status %d %s, but with %d before", name, p.Exit, what, q.Exit)
			}
			if !bytes.Equal(p.Out, q.Out) {
				diff(c, "different report", name+" prints something else "+what, strings.Split(string(q.Out), "\n"), strings.Split(string(p.Out), "\n"), "first", "then")
			}
		}
	}
	if c.N(10) == 9 {
		c.Probe("fresh process")
		jb := job{Files: files, Zone: c.N(len(zones)), MapSeed: c.Seed(), Source: source}
		r := jb.alone(c)
		if r.Died != "" || r.Err != "" {
			c.Fail("different ledger", "in a process of its own: %s%s", r.Died, r.Err)
		}
		diff(c, "different ledger", "the same bytes give another ledger in a process of its own", want.dump, r.Dump, "here", "there")
		if !bytes.Equal(want.export, r.Export) {
			diff(c, "different export", "the same bytes are exported differently in a process of its own", strings.Split(string(want.export), "\n"), strings.Split(string(r.Export), "\n"), "here", "there")
		}
	}
	for try := 0; try < 3; try++ {
		env := anyEnv(c)
		what := fmt.Sprintf("(zone %v)", env.Zone)
		if c.N(3) == 2 {
			c.Probe("with history")
			activity(c, anyEnv(c))
			what += " (after other work)"
		}
		w := c.World()
		put(w, files)
		fragment(c, w)
		anyClock(c, w)
		w.Fault = softPlan(c, counts0).hook
		vars := someVariables(c)
		what += vars.String()
		compare(what, func() outcome {
			vars.set()
			defer vars.unset()
			return opens(w, env)
		}())
	}
}
