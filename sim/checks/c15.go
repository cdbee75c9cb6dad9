package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

var readNames = []string{"balances", "transactions of accounts", "intervals", "conversions", "formatting", "export", "clone", "own clone", "look up", "sums of balances", "older clone"}

func init() {
	engine.Add(&engine.Check{
		ID:   "C15",
		Run:  c15,
		Race: true,
		Rule: "one run: one ledger (from a journal, a text or a PostgreSQL database, at times changed and recalculated, or not, after opening) is read by 2 to 5 goroutines, each doing up to 6 operations (" + strings.Join(readNames, ", ") + "), interleaved by the tape at statements and calls; " +
			"some change clones of their own meanwhile, made before or during the run; each must find exactly what it finds alone (in half of the runs on another ledger opened from the same data, so that the shared one has not been read before), and the ledger must be as before; half of the workers run under the race detector; a run is trivial if there was no switch between the goroutines' work",
		Real:   []string{"accounting (queries, conversion, formatting, Clone, Fill of clones)", "backend/ledger (Export)", "backend/txtdb, backend/postgres"},
		Stub:   []string{"goroutine scheduler, sync.Mutex and sync.RWMutex of the code under test", "disk, github.com/lib/pq and the PostgreSQL server", "clock, map iteration order"},
		Kinds:  []string{},
		Probes: []string{"not read before", "read alone before", "changed before", "not recalculated", "writer on a clone", "two exports at once", "two clones at once", "same operation twice at once", "text database", "PostgreSQL database"},
	})
}

type reading struct {
	kind  int
	a, b  int
	pokes []poke
}

func (r reading) String() string {
	if len(r.pokes) > 0 {
		return fmt.Sprint(readNames[r.kind], r.pokes)
	}
	return readNames[r.kind]
}

// do reads a ledger; old is a clone that belongs to the caller.
func (r reading) do(l, old *accounting.Ledger, times []time.Time) (out []string) {
	place := map[*accounting.Transaction]int{}
	for i, t := range l.Transactions {
		place[t] = i
	}
	list := func(ts []*accounting.Transaction) string {
		s := ""
		for _, t := range ts {
			s += fmt.Sprint(place[t], ",")
		}
		return s
	}
	change := func(x *accounting.Ledger) {
		for _, p := range r.pokes {
			out = append(out, p.what+": "+p.do(x))
		}
		if r.a%2 == 0 {
			out = append(out, fmt.Sprint(x.Fill()))
		}
		out = append(out, deep(x)...)
		if r.b%2 == 0 && timed(x) {
			var b buf
			out = append(out, fmt.Sprint(export(&b, x)), string(b))
		}
	}
	switch readNames[r.kind] {
	case "balances":
		for _, a := range l.Accounts {
			for _, t := range append(times, time.Time{}) {
				out = append(out, a.FullName()+" "+l.GetBalance(a, t).String())
			}
		}
	case "transactions of accounts":
		for _, a := range l.Accounts {
			out = append(out, list(l.TransactionsInAccount(a.ID)))
		}
	case "intervals":
		for _, t := range times {
			for _, u := range times {
				out = append(out, list(l.TransactionsInInterval(t, u)))
			}
		}
	case "conversions":
		to := append([]*accounting.Currency{l.DefaultCurrency}, l.Currencies...)
		for i := range to {
			for k := range to {
				x, y := to[(i+r.a)%len(to)], to[(k+r.b)%len(to)]
				v, err := l.Convert(accounting.Value{Amount: 3 * accounting.U, Currency: x}, times[(i+k)%len(times)], y)
				out = append(out, v.FullString(), fmt.Sprint(err))
			}
		}
	case "formatting":
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				out = append(out, s.Value.String(), s.Value.FullString(), s.Value.GetString(true, false), s.Balance.String(), s.Account.FullName())
			}
		}
		for _, p := range l.Prices {
			out = append(out, p.Value.FullString())
		}
	case "export":
		var b buf
		out = append(out, fmt.Sprint(export(&b, l)), string(b))
	case "clone":
		out = deep(l.Clone())
	case "own clone":
		change(l.Clone())
	case "older clone":
		change(old)
	case "look up":
		for _, a := range l.Accounts {
			x := l.Account(a.ID)
			n := -1
			for k, b := range l.Accounts {
				if x == b {
					n = k
				}
			}
			out = append(out, fmt.Sprint(n))
		}
		for _, c := range l.Currencies {
			x, isNew := l.GetCurrency(c.Name)
			out = append(out, fmt.Sprint(x.Name, x.Precision, isNew))
		}
		_, err := l.NewTransaction(accounting.Transaction{})
		out = append(out, fmt.Sprint(err, l.Flush()))
	case "sums of balances":
		var tot accounting.Balance
		for _, a := range l.Accounts {
			b := l.GetBalance(a, times[r.a%len(times)])
			tot.AddBalance(b)
			d := b.Dup()
			d.SubBalance(l.GetBalance(a, time.Time{}))
			for _, v := range d {
				d.Sub(v)
				break
			}
			out = append(out, d.String())
		}
		out = append(out, tot.String())
	}
	return out
}

func c15(c *engine.Ctx) {
	w := c.World()
	var source string
	dbs := map[string]*pq.Database{}
	f := &facts{times: []time.Time{time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC)}}
	switch c.N(8) {
	default:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 5, MaxPrices: 4, Includes: 1})
		files := j.Files()
		logFiles(c, files)
		put(w, files)
		source = j.Root
		f = factsOf(j)
	case 6:
		_, a, t := genTxt(c)
		putTxt(w, "/db", a, t)
		source = "txtdb:/db"
		c.Probe("text database")
	case 7:
		st := genPG(c)
		source = "postgres://db/x"
		dbs[source] = &pq.Database{State: st.pg()}
		c.Probe("PostgreSQL database")
	}
	dial(dbs)
	env := simos.Env{Zone: zones[c.N(len(zones))], MapSeed: 1}
	var before []poke
	for n := c.N(4) * c.N(2); n > 0; n-- {
		before = append(before, anyPoke(c))
	}
	filled := c.N(3) > 0
	make1 := func() *accounting.Ledger {
		o := open(w, env, source)
		must(c, o.Res, "opening "+source)
		if o.Err != nil {
			return nil
		}
		single(c, w, env, "changes before", func() {
			for _, p := range before {
				p.do(o.L)
			}
			if filled && len(before) > 0 {
				o.L.Fill()
			}
		})
		return o.L
	}
	l := make1()
	if l == nil || !timed(l) {
		c.Trivial = true
		return
	}
	if len(before) > 0 {
		c.Probe("changed before")
		if !filled {
			c.Probe("not recalculated")
		}
	}
	times := []time.Time{f.when(c), f.when(c)}
	var progs [][]reading
	for n := c.Range(2, 5); n > 0; n-- {
		var p []reading
		for k := c.Range(1, 6); k > 0; k-- {
			r := reading{kind: c.N(len(readNames)), a: c.N(8), b: c.N(8)}
			if len(progs) > 0 && c.N(4) == 3 {
				q := progs[c.N(len(progs))]
				r.kind = q[c.N(len(q))].kind
			}
			if strings.HasSuffix(readNames[r.kind], "n clone") || readNames[r.kind] == "older clone" {
				for i := c.Range(1, 4); i > 0; i-- {
					r.pokes = append(r.pokes, anyPoke(c))
				}
				c.Probe("writer on a clone")
			}
			p = append(p, r)
		}
		progs = append(progs, p)
		c.Logf("program %d: %v", len(progs), p)
	}
	seen := map[string]int{}
	for _, p := range progs {
		mine := map[string]bool{}
		for _, r := range p {
			mine[readNames[r.kind]] = true
		}
		for k := range mine {
			seen[k]++
		}
	}
	for k, n := range seen {
		if n > 1 {
			c.Probe("same operation twice at once")
			switch k {
			case "export":
				c.Probe("two exports at once")
			case "clone":
				c.Probe("two clones at once")
			}
		}
	}
	clones := func(l *accounting.Ledger) (r []*accounting.Ledger) {
		if seen["older clone"] == 0 { // this would be a way to read it, too
			return make([]*accounting.Ledger, len(progs))
		}
		single(c, w, env, "clones", func() {
			for range progs {
				r = append(r, l.Clone())
			}
		})
		return r
	}
	work := func(l, old *accounting.Ledger, p []reading) (out []string) {
		for _, r := range p {
			out = append(out, "--- "+r.String())
			out = append(out, r.do(l, old, times)...)
		}
		return out
	}
	want := make([][]string, len(progs))
	alone := func(l *accounting.Ledger) {
		olds := clones(l)
		for i, p := range progs {
			single(c, w, env, fmt.Sprintf("program %d alone", i), func() { want[i] = work(l, olds[i], p) })
		}
	}
	was := deep(l)
	if c.N(2) == 0 {
		c.Probe("not read before")
		pristine(func() {
			twin := make1()
			if twin == nil {
				c.Fail("unexpected error", "opening %s again", source)
			}
			alone(twin)
			twin.Close()
		})
	} else {
		c.Probe("read alone before")
		alone(l)
	}
	olds := clones(l)
	got := make([][]string, len(progs))
	var jobs []simos.Job
	for i := range progs {
		i := i
		jobs = append(jobs, simos.Job{Name: fmt.Sprint("program ", i), F: func() { got[i] = work(l, olds[i], progs[i]) }})
	}
	switches := w.Switches
	res := w.Run(sched(c), simos.Env{Zone: env.Zone, MapSeed: c.Seed()}, jobs...)
	must(c, res, fmt.Sprintf("%d readers at once", len(progs)))
	c.Trivial = w.Switches-switches < int64(len(progs))+2
	for i, p := range progs {
		diff(c, "interference", fmt.Sprintf("reader %d (%v) does not find what it finds alone", i, p), want[i], got[i], "alone", "together")
	}
	diff(c, "ledger changed", "reading changed the ledger", was, deep(l), "before", "after")
	// and it can be read as before
	single(c, w, env, "reading afterwards", func() { got[0] = work(l, l.Clone(), progs[0]) })
	diff(c, "ledger changed", fmt.Sprintf("afterwards reader 0 (%v) does not find what it found", progs[0]), want[0], got[0], "before", "after")
	c.Note = fmt.Sprintf("%d readers of %s, %d switches", len(progs), source, w.Switches-switches)
	l.Close()
}
