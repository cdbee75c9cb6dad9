package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C16",
		Run: c16,
		Rule: "one run: a journal of up to 3 files; 2 to 6 commands of cmd/ledger (at times repeated, at times failing, with empty places between separators) are given in one invocation on a disk that is fragmented and interrupted, and each of them in an invocation of its own, in another environment and at times in another process; " +
			"output, exit status and last diagnostic must be those of the single invocations up to the first that fails, and no file may have been written; the other programs run on the same disk; trivial: empty journal",
		Real:   []string{"cmd/ledger, cmd/acc, cmd/muscular (main functions)", "accounting, backend/ledger", "flag, fmt, log, os, bufio"},
		Stub:   []string{"openat, read, write, close, stat (simulated disk and standard output)", "clock, time zone, map iteration order", "github.com/cespedes/tableview (terminal user interface)", "process start: package variables of the program and flag.CommandLine are set anew"},
		Kinds:  []string{"fragmented-reads", "read-short", "read-eintr", "open-eintr", "slow-call", "write-short", "write-eintr"},
		Probes: []string{"all succeeded", "first failed", "later failed", "alone in another process", "repeated command", "empty places", "environment variable", "another journal in the environment", "same words, other options", "text database", "muscular"},
	})
}

// failing chooses a command that ends with an error.
func failing(c *engine.Ctx, f *facts) []string {
	switch c.N(6) {
	case 0:
		return []string{"price", "XYZ"}
	case 1:
		return []string{"nonsense"}
	case 2:
		return []string{"-b", "2021-13-01", "bal"}
	case 3:
		return []string{"-nonsense", "bal"}
	case 4:
		return []string{"accounts", "-nonsense"}
	}
	return []string{"-e", "then", "stats"}
}

// lastWords gives the last line of what a program said, without the time.
func lastWords(b []byte) string {
	s := strings.TrimRight(string(b), "\n")
	s = s[strings.LastIndexByte(s, '\n')+1:]
	if len(s) > 20 && s[4] == '/' && s[7] == '/' && s[10] == ' ' {
		s = s[20:]
	}
	return s
}

func c16(c *engine.Ctx) {
	files := map[string][]byte{}
	var f *facts
	source := ""
	w := c.World()
	if c.N(8) == 7 {
		c.Probe("text database")
		_, a, t := genTxt(c)
		files["/db/accounts"] = a
		if t != nil {
			files["/db/transactions"] = t
		}
		source = "txtdb:/db"
		put(w, files)
		o := open(w, plainEnv(), source)
		must(c, o.Res, "opening "+source)
		if o.Err != nil {
			return
		}
		f = factsIn(o.L)
		c.Note = fmt.Sprintf("text database of %d transactions", len(o.L.Transactions))
	} else {
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 2})
		files = j.Files()
		f = factsOf(j)
		source = j.Root
		c.Trivial = j.Empty()
		c.Note = noteJournal(j, files)
	}
	logFiles(c, files)
	var cmds [][]string
	prog := "ledger"
	if c.N(8) == 7 {
		prog = "muscular"
		c.Probe("muscular")
	}
	for n := c.Range(2, 6); n > 0; n-- {
		switch {
		case prog == "muscular":
			a := muscularArgs(c, f)
			switch c.N(12) {
			case 8:
				a = append([]string{"-period", []string{"2m", "x", "40d"}[c.N(3)]}, a...)
			case 9:
				a = append([]string{"-measureperiod", []string{"2m", "x", "40d"}[c.N(3)]}, a...)
			case 10:
				a = append([]string{[]string{"-b", "-e"}[c.N(2)], "2021-13-01"}, a...)
			case 11:
				a = append([]string{"-nonsense"}, a...)
			}
			cmds = append(cmds, a)
		case len(cmds) > 0 && c.N(5) == 4:
			cmds = append(cmds, cmds[c.N(len(cmds))])
			c.Probe("repeated command")
		case len(cmds) > 0 && c.N(5) == 4: // the same command with other options before it
			old := cmds[c.N(len(cmds))]
			k := 0
			for i, a := range old {
				if isCommand(a) {
					k = i
					break
				}
			}
			var a []string
			for x := c.N(3); x > 0; x-- {
				switch c.N(5) {
				case 0:
					a = append(a, "-b", date(c, f.when(c)))
				case 1:
					a = append(a, "-e", date(c, f.when(c)))
				case 2:
					a = append(a, "-pivot", f.part(c))
				case 3:
					a = append(a, "-currency", f.cur(c))
				case 4:
					a = append(a, "-market")
				}
			}
			cmds = append(cmds, append(a, old[k:]...))
			c.Probe("same words, other options")
		case c.N(12) == 11:
			cmds = append(cmds, failing(c, f))
		default:
			cmds = append(cmds, f.report(c, false))
		}
	}
	var args, environ []string
	if c.N(3) == 2 {
		c.Probe("environment variable")
		environ = []string{"LEDGER_FILE=" + source}
	} else {
		args = append(args, "-f", source)
	}
	for i, a := range cmds {
		if prog == "ledger" {
			cmds[i] = respell(c, a)
		}
	}
	head := len(args)
	empty := func() {
		if c.N(8) == 7 {
			c.Probe("empty places")
			args = append(args, "--")
		}
	}
	empty()
	for i, a := range cmds {
		if i > 0 {
			args = append(args, "--")
		}
		empty()
		args = append(args, a...)
	}
	empty()

	anyClock(c, w)
	clock := w.Clock
	// together
	w = c.World()
	put(w, files)
	w.Clock = clock
	fragment(c, w)
	w.Fault = softWrites(c, map[string]int{"open": len(files), "read": 2 * len(files), "write": 20}).hook
	env := anyEnv(c)
	// elsewhere is the environment of a program that is told which journal to open
	elsewhere := func() []string {
		if environ == nil && c.N(8) == 7 {
			c.Probe("another journal in the environment")
			return []string{"LEDGER_FILE=/home/u/elsewhere.ledger"}
		}
		return environ
	}
	got := command(w, env, prog, args, elsewhere()...)
	what := fmt.Sprintf("%s %q", prog, args)
	clock = w.Clock // it was slow to open the journal
	// alone
	type result struct {
		p    *proc
		args []string
	}
	var want []result
	for _, a := range cmds {
		full := append(append([]string(nil), args[:head]...), a...)
		p := new(proc)
		if c.N(100) == 99 {
			c.Probe("alone in another process")
			jb := job{Files: files, Zone: c.N(len(zones)), MapSeed: c.Seed(), Clock: clock, Cmd: prog, Args: full, Environ: environ}
			r := jb.alone(c)
			p = &r.Proc
		} else {
			x := c.World()
			put(x, files)
			x.Clock = clock
			p = command(x, anyEnv(c), prog, full, elsewhere()...)
			unmodified(c, x, files, fmt.Sprintf("%s %q", prog, full))
		}
		if p.Died != "" {
			c.Fail("panic", "%s %q: %s", prog, full, p.Died)
		}
		want = append(want, result{p, full})
		if p.Exit != 0 {
			break
		}
	}
	var out []byte
	exit := 0
	for i, r := range want {
		out = append(out, r.p.Out...)
		exit = r.p.Exit
		if exit != 0 && i == 0 {
			c.Probe("first failed")
		} else if exit != 0 {
			c.Probe("later failed")
		}
	}
	if exit == 0 {
		c.Probe("all succeeded")
	}
	if got.Died != "" {
		c.Fail("panic", "%s: %s", what, got.Died)
	}
	if !bytes.Equal(got.Out, out) {
		// which command is it?
		at, k := 0, len(want)-1
		for i, r := range want {
			at += len(r.p.Out)
			if len(got.Out) < at || !bytes.Equal(got.Out[:at], out[:at]) {
				k = i
				break
			}
		}
		diff(c, "different output", fmt.Sprintf("%s does not print what its commands print alone (from command %d on: %q)", what, k+1, want[k].args), strings.Split(string(out), "\n"), strings.Split(string(got.Out), "\n"), "alone", "together")
		c.Fail("different output", "%s does not print what its commands print alone", what)
	}
	if got.Exit != exit {
		c.Fail("different status", "%s ends with status %d, but its commands, alone, with %d", what, got.Exit, exit)
	}
	if exit != 0 {
		if a, b := lastWords(want[len(want)-1].p.Err), lastWords(got.Err); a != b {
			c.Fail("different diagnostic", "%s ends saying %q, but %q says %q", what, b, want[len(want)-1].args, a)
		}
	}
	unmodified(c, w, files, what)
	// the other programs leave the files alone, too
	if c.N(4) == 3 {
		if c.N(2) == 0 {
			a := append([]string{"-f", source}, muscularArgs(c, f)...)
			command(w, env, "muscular", a)
			unmodified(c, w, files, fmt.Sprintf("muscular %q", a))
		} else {
			command(w, env, "acc", []string{source})
			unmodified(c, w, files, "acc "+source)
		}
	}
}

// respell writes the options before a command in other ways.
func respell(c *engine.Ctx, args []string) []string {
	if c.N(3) != 2 {
		return args
	}
	var r []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if isCommand(a) || a[0] != '-' {
			return append(r, args[i:]...)
		}
		if c.N(2) == 1 {
			a = "-" + a
		}
		switch strings.TrimLeft(a, "-") {
		case "b", "e", "pivot", "currency":
			if i+1 == len(args) {
				return append(r, a)
			}
			i++
			if c.N(2) == 1 {
				r = append(r, a+"="+args[i])
			} else {
				r = append(r, a, args[i])
			}
		default:
			if c.N(4) == 3 {
				a += "=true"
			}
			r = append(r, a)
		}
	}
	return r
}

func isCommand(a string) bool {
	switch a {
	case "accounts", "a", "balance", "bal", "b", "stats", "print", "incomestatement", "is", "delta", "price":
		return true
	}
	return false
}

// unmodified makes sure that files are as they were.
func unmodified(c *engine.Ctx, w *simos.World, files map[string][]byte, what string) {
	for _, n := range sortedKeys(files) {
		x := w.Nodes[simos.Abs(n)]
		if x == nil || x.Dirty || !bytes.Equal(x.Data, files[n]) {
			c.Fail("file modified", "%s modified %s", what, n)
		}
	}
	if len(w.Nodes) > len(files) {
		for n, x := range w.Nodes {
			if _, ok := files[n]; !ok && !x.Dir {
				c.Fail("file modified", "%s made %s", what, n)
			}
		}
	}
}

// softWrites is softPlan with faults on writing that do not prevent it.
func softWrites(c *engine.Ctx, counts map[string]int) *plan {
	p := softPlan(c, counts)
	for n := c.N(3); n > 0; n-- {
		f := &fault{op: "write", n: c.N(counts["write"] + 1)}
		switch c.N(3) {
		case 0:
			f.kind, f.out.Short = "write-short", 1+c.N(20)
		case 1:
			f.kind, f.out.EINTR = "write-eintr", 1+c.N(5)
		case 2:
			f.kind, f.out.Short, f.n = "write-short", 1+c.N(3), -1
		}
		f.out.Kind = f.kind
		p.faults = append(p.faults, f)
	}
	return p
}
