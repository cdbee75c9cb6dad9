package checks

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C18",
		Run: c18,
		Rule: "one run: a journal of up to 3 files, a text database or a PostgreSQL database is opened, and then up to 5 times its data changes (entries added, removed, replaced, damaged, made contradictory; files removed and brought back; accounts and transactions of databases added and removed), the ledger or a clone of it may be changed in memory, cloned, recalculated, and it or a clone is refreshed, " +
			"in half of the cases with up to 2 faults at system calls or at steps of the database connection, or with the data changing at one of them; afterwards it must be identical to a ledger newly opened from the data (on another machine), or, if that cannot be opened or something failed, to what it was before; every other ledger must be as it was; trivial: no refresh found other data",
		Real:   []string{"accounting.Open, Refresh, Fill, Clone", "backend/ledger, backend/txtdb, backend/postgres", "os, bufio, io/ioutil, database/sql"},
		Stub:   []string{"openat, read, close, stat (simulated disk)", "github.com/lib/pq and the PostgreSQL server", "clock, time zone, map iteration order"},
		Kinds:  []string{"open-error", "read-error", "close-error", "read-short", "read-eintr", "open-eintr", "slow-call", "fragmented-reads", "connection-lost", "stale-connection", "server-error", "slow-query", "concurrent-commit", "concurrent-replace", "clock-jump", "include-lost", "journal-lost"},
		Probes: []string{"refreshed", "refreshed despite faults", "kept: data inconsistent", "kept: data unreadable", "kept: fault", "nothing changed", "changed in memory before", "clone refreshed", "older clone kept", "changed after", "refresh after a failed one", "include unreadable", "text database", "PostgreSQL database", "as at the end of the change", "as before the change"},
	})
}

// c18data is stored data that changes.
type c18data struct {
	source string
	files  map[string][]byte // of journals and text databases
	st     *store            // of databases
	root   string
	incs   []string
	lost   map[string][]byte // files that went away
	text   bool              // a journal
}

func (d *c18data) copy() *c18data {
	n := *d
	if d.files != nil {
		n.files = map[string][]byte{}
	}
	for k, v := range d.files {
		n.files[k] = v
	}
	n.lost = map[string][]byte{}
	for k, v := range d.lost {
		n.lost[k] = v
	}
	if d.st != nil {
		n.st = d.st.clone()
	}
	return &n
}

func (d *c18data) key() string {
	var b strings.Builder
	for _, k := range sortedKeys(d.files) {
		fmt.Fprintf(&b, "%s:%q\n", k, d.files[k])
	}
	if d.st != nil && d.files == nil {
		fmt.Fprint(&b, d.st.pg())
	}
	return b.String()
}

// change makes the next version of the data.
func (d *c18data) change(c *engine.Ctx, w *simos.World) (n *c18data, what string) {
	n = d.copy()
	if d.st != nil {
		switch k := c.N(6); {
		case k == 0 && len(n.st.txns) > 0: // one less
			i := c.N(len(n.st.txns))
			n.st.txns = append(append([]*stTxn(nil), n.st.txns[:i]...), n.st.txns[i+1:]...)
			what = fmt.Sprint("transaction ", i, " removed")
		case k == 1 && len(n.st.txns) > 0: // made contradictory
			i := c.N(len(n.st.txns))
			t := *n.st.txns[i]
			if len(t.splits) > 0 {
				t.splits = append([]*stSplit(nil), t.splits...)
				s := *t.splits[0]
				s.amt += accounting.U
				t.splits[0] = &s
				n.st.txns[i] = &t
			}
			what = fmt.Sprint("transaction ", i, " unbalanced")
		case k == 2: // mended
			var l []*stTxn
			for _, t := range n.st.txns {
				var sum int64
				for _, s := range t.splits {
					sum += s.amt
				}
				if sum == 0 {
					l = append(l, t)
				}
			}
			n.st.txns = l
			what = "unbalanced transactions removed"
		default:
			max := 0
			for _, t := range n.st.txns {
				if t.id > max {
					max = t.id
				}
			}
			for k := c.N(2); k > 0; k-- {
				n.st.addAcc(c)
			}
			for k := c.Range(1, 2); k > 0; k-- {
				max++
				n.st.addTxn(c, n.text || n.files != nil).id = max
			}
			what = "accounts and transactions added"
		}
		if n.files != nil {
			a, t := n.st.txt(c)
			n.files = map[string][]byte{txtDir + "/accounts": a, txtDir + "/transactions": t}
			if c.N(12) == 11 {
				k := txtDir + "/" + []string{"accounts", "transactions"}[c.N(2)]
				delete(n.files, k)
				what = k + " removed"
				w.Fire("journal-lost")
			}
		}
		return n, what
	}
	names := sortedKeys(n.files)
	pick := func() string {
		if len(names) == 0 {
			return n.root
		}
		return names[c.N(len(names))]
	}
	if len(n.lost) > 0 && c.N(2) == 0 {
		for k, v := range n.lost {
			n.files[k] = v
		}
		n.lost = map[string][]byte{}
		return n, "the lost files are back"
	}
	switch c.N(9) {
	default:
		f := pick()
		text := []string{
			"\n2031-05-04 Late\n  Assets:Bank  5 EUR\n  Equity\n",
			"\n2012-03-01/08:00 Early ; note\n  Expense:Food  1 LEI\n  Income:Salary  -1 LEI\n",
			"\n2020-06-07 Exchange\n  Assets:Cash  3 NEW @ 2 EUR\n  Assets:Cash  -6 EUR\n",
			"\naccount Assets:New:Nested\n",
			"\nP 2020-01-01 NEW 4 EUR\n",
			"\ncommodity 1.000,0000 LEI\n",
			"\n; just a comment\n",
			"\n2021-02-03 Ünïcode\n  Activos  7 EUR = 7 EUR\n  Gastos\n",
			"\n2013-02-03 Other day\n  Activos  7 EUR ; date:2013-02-09\n  Gastos\n",
		}[c.N(9)]
		n.files[f] = append(append([]byte(nil), n.files[f]...), text...)
		what = fmt.Sprintf("%q added to %s", text, f)
	case 4:
		f := pick()
		text := []string{"\n2031-05-04 Bad\n  Assets:Bank  5 EUR\n  Equity  5 EUR\n", "\nnonsense line\n", "\n2031-05-05 Bad\n  Assets:Bank  0 EUR = 123456 EUR\n  Equity\n", "\n2031-99-04 Bad\n", "\ninclude nowhere\n"}[c.N(5)]
		n.files[f] = append(append([]byte(nil), n.files[f]...), text...)
		n.lost[f] = d.files[f]
		what = fmt.Sprintf("%q added to %s", text, f)
	case 5: // a paragraph less
		f := pick()
		ps := bytes.SplitAfter(n.files[f], []byte("\n\n"))
		if len(ps) > 0 {
			i := c.N(len(ps))
			n.files[f] = bytes.Join(append(append([][]byte(nil), ps[:i]...), ps[i+1:]...), nil)
		}
		what = "a paragraph of " + f + " removed"
	case 6:
		m := map[string][]byte{}
		for k, v := range n.files {
			m[k] = append([]byte(nil), v...)
		}
		if len(m) > 0 {
			what = "damage: " + strings.Join(corrupt(c, m, 2), ", ")
			n.files = m
		}
	case 7:
		f := n.root
		if len(n.incs) > 0 && c.N(2) == 1 {
			f = n.incs[c.N(len(n.incs))]
		}
		if b, ok := n.files[f]; ok {
			n.lost[f] = b
			delete(n.files, f)
			if f == n.root {
				w.Fire("journal-lost")
			} else {
				w.Fire("include-lost")
			}
		}
		what = f + " removed"
	case 8: // other contents
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 5, MaxPrices: 3, Includes: 2})
		n.files = j.Files()
		n.incs = nil
		for _, i := range j.Inc {
			n.incs = append(n.incs, i.Path)
		}
		n.lost = map[string][]byte{}
		what = "another journal"
	}
	return n, what
}

func c18(c *engine.Ctx) {
	w := c.World()
	d := &c18data{lost: map[string][]byte{}}
	switch c.N(6) {
	default:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 5, MaxPrices: 3, Includes: 2})
		d.files, d.source, d.root, d.text = j.Files(), j.Root, j.Root, true
		for _, i := range j.Inc {
			d.incs = append(d.incs, i.Path)
		}
		logFiles(c, d.files)
	case 4:
		st, a, t := genTxt(c)
		d.st, d.source = st, "txtdb:"+txtDir
		d.files = map[string][]byte{txtDir + "/accounts": a}
		if t != nil {
			d.files[txtDir+"/transactions"] = t
		}
		c.Probe("text database")
	case 5:
		d.st = genPG(c)
		d.source = pgSource
		c.Probe("PostgreSQL database")
	}
	db := &pq.Database{}
	load := func(w *simos.World, db *pq.Database, d *c18data) {
		for n, x := range w.Nodes {
			if !x.Dir {
				if _, ok := d.files[strings.TrimPrefix(n, "")]; !ok {
					w.Remove(n)
				}
			}
		}
		for _, n := range sortedKeys(d.files) {
			if x := w.Nodes[simos.Abs(n)]; x == nil || !bytes.Equal(x.Data, d.files[n]) {
				w.Write(n, append([]byte(nil), d.files[n]...))
			}
		}
		if d.files == nil {
			db.State = d.st.pg()
		}
	}
	var res *simos.Result
	// fresh opens the data on another machine, where some openings of files fail
	type opening struct {
		path string
		n    int
	}
	opens := func(hook func(a simos.Access, x opening) simos.Outcome) func(a simos.Access) simos.Outcome {
		n := map[string]int{}
		return func(a simos.Access) simos.Outcome {
			o := hook(a, opening{a.Path, n[a.Path]})
			if a.Op == "open" && o.EINTR == 0 { // else it will be tried again
				n[a.Path]++
			}
			return o
		}
	}
	var after func(*accounting.Ledger) // what is done to a ledger that was opened so
	fresh := func(d *c18data, fail map[opening]bool) (l []string, err error) {
		v := c.World()
		db := &pq.Database{}
		load(v, db, d)
		v.Fault = opens(func(a simos.Access, x opening) (o simos.Outcome) {
			if a.Op == "open" && fail[x] {
				o.Errno = syscall.EACCES
			}
			return o
		})
		dial(map[string]*pq.Database{pgSource: db})
		pristine(func() {
			o := open(v, plainEnv(), d.source)
			res, err = o.Res, o.Err
			understood(db)
			if err == nil && o.L != nil {
				if after != nil {
					after(o.L)
				}
				l = deep(o.L)
				o.L.Close()
			}
		})
		return l, err
	}
	redial := func() { dial(map[string]*pq.Database{pgSource: db}) }
	load(w, db, d)
	redial()
	o := open(w, anyEnv(c), d.source)
	must(c, o.Res, "opening "+d.source)
	c.Trivial = true
	if o.Err != nil {
		return
	}
	type led struct {
		l    *accounting.Ledger
		name string
	}
	all := []*led{{o.L, "the ledger"}}
	var history []string
	note := func(f string, a ...interface{}) {
		history = append(history, fmt.Sprintf(f, a...))
		c.Logf("%s", history[len(history)-1])
	}
	hist := func() string { return strings.Join(history, "; ") }
	lastKey := d.key()
	failed := false
	for n := c.Range(1, 5); n > 0; n-- {
		// data change
		if c.N(8) == 0 {
			note("no change")
			c.Probe("nothing changed")
		} else {
			for k := c.Range(1, 2); k > 0; k-- {
				var what string
				d, what = d.change(c, w)
				note("%s", what)
			}
		}
		// the ledgers change, too
		if c.N(3) == 2 && len(all) < 3 {
			x := all[c.N(len(all))]
			y := &led{name: fmt.Sprintf("clone %d of %s", len(all), x.name)}
			single(c, w, anyEnv(c), "clone", func() { y.l = x.l.Clone() })
			all = append(all, y)
			note("%s made", y.name)
		}
		if c.N(3) == 2 {
			x := all[c.N(len(all))]
			for k := c.Range(1, 3); k > 0; k-- {
				p := anyPoke(c)
				note("%s on %s", p.what, x.name)
				single(c, w, anyEnv(c), p.what, func() { p.do(x.l) })
			}
			c.Probe("changed in memory before")
		}
		if c.N(3) == 2 {
			w.Fire("clock-jump")
			w.Clock = w.Clock.Add(time.Duration(c.Range(-100, 1000)) * time.Hour)
		}
		x := all[c.N(len(all))]
		if x != all[0] {
			c.Probe("clone refreshed")
		} else if len(all) > 1 {
			c.Probe("older clone kept")
		}
		was := map[*led][]string{}
		for _, y := range all {
			was[y] = deep(y.l)
		}
		want, err := fresh(d, nil)
		if k, _ := died(res); k != "" { // that is a matter of C09
			c.Trivial = true
			return
		}
		redial()
		note("refresh %s", x.name)
		load(w, db, d)
		// faults
		fragment(c, w)
		w.Counts = map[string]int{}
		var p *plan
		var f *pgFaults
		var next *c18data
		un := map[opening]bool{}
		faulty := c.N(2) == 1
		if d.files == nil {
			f = newPGFaults(c, w, db, 6+len(d.st.accs)+2*len(d.st.txns), 0)
			if faulty {
				f = newPGFaults(c, w, db, 6+len(d.st.accs)+2*len(d.st.txns), 2)
			}
			if c.N(4) == 3 {
				next, _ = d.change(c, w)
				f.commits[c.N(6+len(d.st.accs)+2*len(d.st.txns))] = func() { db.State = next.st.pg() }
			}
		} else {
			counts := map[string]int{"open": len(d.files) + 1, "read": 2*len(d.files) + 1, "close": len(d.files) + 1}
			if w.FragStyle > 0 {
				counts["read"] += sizeOf(d.files) / w.FragSize
			}
			if faulty {
				p = makePlan(c, counts, 2)
				if d.st != nil {
					for _, f := range p.faults {
						if f.out.Errno == syscall.ENOENT {
							f.out.Errno = syscall.EACCES // a file that is not there is another matter
						}
					}
				}
			} else {
				p = softPlan(c, counts)
			}
			w.Fault = opens(func(a simos.Access, x opening) simos.Outcome {
				o := p.hook(a)
				if a.Op == "open" && o.Errno != 0 && a.Path != simos.Abs(d.root) {
					un[x] = true
				}
				return o
			})
			if len(d.files) == 1 && d.text && c.N(4) == 3 && !bytes.Contains(d.files[d.root], []byte("include ")) {
				// the journal is replaced at some moment
				// (if it includes itself, that would be another file)
				var files map[string][]byte
				next = d.copy()
				next.files[d.root] = append(append([]byte(nil), d.files[d.root]...), "\n2031-01-01 Meanwhile\n  Assets:Bank  5 EUR\n  Equity\n"...)
				files = next.files
				at := c.N(4)
				calls := 0
				w.OnAccess = func(a simos.Access) {
					if !strings.HasPrefix(a.Path, "std") {
						if calls == at {
							put(w, files)
							w.Fire("concurrent-replace")
						}
						calls++
					}
				}
			}
		}
		r := w.Run(simos.Sched{}, anyEnv(c), simos.Job{Name: "refresh", F: func() { x.l.Refresh() }})
		w.Fault, w.OnAccess = nil, nil
		db.On = nil
		hard := p != nil && p.hard || f != nil && f.hard
		fired := ""
		if p != nil && len(p.fired) > 0 {
			fired = ", faults: " + strings.Join(p.fired, "; ")
		}
		if f != nil && len(f.fired)+f.did > 0 {
			fired = fmt.Sprintf(", faults: %s, %d commits", strings.Join(f.fired, "; "), f.did)
		}
		what := hist() + fired
		must(c, r, what)
		understood(db)
		if k := d.key(); k != lastKey {
			c.Trivial = false
			lastKey = k
		}
		got := deep(x.l)
		same := func(l []string) bool { return canon.Diff(l, got, "", "") == "" }
		good := false
		var options []string
		if err == nil {
			options = want
			if same(want) {
				good = true
				c.Probe("refreshed")
				if hard {
					c.Probe("refreshed despite faults")
				}
				if failed {
					c.Probe("refresh after a failed one")
				}
				if next != nil {
					c.Probe("as before the change")
				}
				failed = false
			}
		}
		if !good && (err != nil || hard) && same(was[x]) {
			good = true
			failed = true
			switch {
			case hard:
				c.Probe("kept: fault")
			case len(d.lost) > 0:
				c.Probe("kept: data unreadable")
			default:
				c.Probe("kept: data inconsistent")
			}
		}
		if !good && next != nil {
			l, err := fresh(next, nil)
			redial()
			if err == nil && same(l) {
				good = true
				c.Probe("as at the end of the change")
			}
			if err != nil && same(was[x]) {
				good = true
			}
		}
		if !good && p != nil && len(p.opens) > 0 && d.text {
			// a file that could not be included, said so
			l, err := fresh(d, un)
			redial()
			if err == nil && same(l) && len(un) > 0 {
				said := true
				for n := range un {
					if !bytes.Contains(w.Stderr, []byte(n.path[strings.LastIndexByte(n.path, '/')+1:])) {
						said = false
					}
				}
				if said {
					good = true
					c.Probe("include unreadable")
				}
			}
		}
		if !good {
			switch {
			case err != nil || options == nil:
				diff(c, "not as it was", fmt.Sprintf("after (%s) the data cannot be opened (%v), but the ledger is not as it was", what, err), was[x], got, "before", "after")
			case !hard:
				diff(c, "not up to date", "after ("+what+") the ledger is not what is stored", options, got, "newly opened", "refreshed")
			default:
				diff(c, "mixture", "after ("+what+") the ledger is neither what it was nor what is stored", options, got, "newly opened", "refreshed")
			}
			c.Fail("not up to date", "after (%s) the ledger is not what it should be", what)
		}
		for _, y := range all {
			if y != x {
				diff(c, "another ledger changed", "after ("+what+") "+y.name+" is not as it was", was[y], deep(y.l), "before", "after")
				if s := shared(y.l, x.l); s != "" {
					c.Fail("another ledger changed", "after (%s) %s and %s share %s", what, x.name, y.name, s)
				}
			}
		}
		if good && err == nil && same(want) && c.N(3) == 2 {
			// what is done to it from now on has the same effects, too
			var ps []poke
			for k := c.N(4); k > 0; k-- {
				ps = append(ps, anyPoke(c))
			}
			ps = append(ps, poke{kind: pokeFill, what: "fill"})
			change := func(l *accounting.Ledger) (a []string) {
				for _, p := range ps {
					a = append(a, p.what+" "+p.do(l))
				}
				return a
			}
			var a1, a2 []string
			after = func(l *accounting.Ledger) { a1 = change(l) }
			want, err := fresh(d, nil)
			after = nil
			redial()
			must(c, res, "changing a ledger newly opened")
			if err == nil {
				single(c, w, anyEnv(c), "change", func() { a2 = change(x.l) })
				for _, p := range ps {
					note("%s on %s", p.what, x.name)
				}
				diff(c, "not as a new one", "after ("+hist()+") the effects are not those on a ledger newly opened", append(a1, want...), append(a2, deep(x.l)...), "newly opened", "refreshed")
				c.Probe("changed after")
			}
		}
		if next != nil {
			d = next
			load(w, db, d)
		}
	}
	c.Note = hist()
	if n := len(w.OpenFDs()); n > 0 {
		c.Fail("leak", "after (%s) %d files are open: %v", hist(), n, w.OpenFDs())
	}
	single(c, w, anyEnv(c), "close", func() { o.L.Close() })
	if d.files == nil && !idle(db) {
		n, r, t := db.Open()
		c.Fail("leak", "after (%s) and Close: %d connections, %d results, %d transactions", hist(), n, r, t)
	}
}
