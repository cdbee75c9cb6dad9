package checks

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:   "C06",
		Run:  c06,
		Race: true,
		Rule: "one run: 2 to 5 programs, each on a goroutine of its own, open ledgers (journals of up to 3 files, text and PostgreSQL databases; some contradictory, damaged or with missing includes; sometimes the same one) and do up to 6 operations on them (" + strings.Join(pokeNames, ", ") + ", queries, clone), " +
			"interleaved by the tape at statements, calls and system calls, the disk being slow, fragmented and interrupted; each program must find exactly what it finds alone; half of the workers run under the race detector; a run is trivial if there was no switch between the programs' work",
		Real:   []string{"accounting (all of it)", "backend/ledger, backend/txtdb, backend/postgres", "os, bufio, database/sql of the standard library"},
		Stub:   []string{"goroutine scheduler, sync.Mutex and sync.RWMutex of the code under test", "openat, read, close, stat (simulated disk)", "github.com/lib/pq and the PostgreSQL server", "clock, map iteration order"},
		Kinds:  []string{"fragmented-reads", "read-short", "read-eintr", "open-eintr", "slow-call", "open-error", "damaged-bytes"},
		Probes: []string{"the same journal twice", "the same journal, revised", "error reported", "text database", "PostgreSQL database", "alone in another process", "several ledgers in one program"},
	})
}

// program is what one goroutine does with ledgers of its own.
type program struct {
	srcs  []string
	pokes [][]poke
	times []time.Time
	query []bool
	clone []bool
}

// run gives everything that the program sees.
func (p *program) run() (r []string) {
	var ls []*accounting.Ledger
	for _, src := range p.srcs {
		l, err := accounting.Open(src)
		if err != nil {
			r = append(r, src+": "+err.Error())
			l = nil
		}
		ls = append(ls, l)
	}
	for i, l := range ls {
		if l == nil {
			continue
		}
		r = append(r, deep(l)...)
		for _, k := range p.pokes[i] {
			r = append(r, k.what+": "+k.do(l))
		}
		if p.clone[i] {
			x := l.Clone()
			r = append(r, deep(x)...)
			if err := x.Fill(); err != nil {
				r = append(r, err.Error())
			}
		}
		if p.query[i] && timed(l) {
			times := p.times
			for i, x := range l.Prices {
				if i < 3 {
					times = append(times[:len(times):len(times)], x.Time)
				}
			}
			r = append(r, answers(l, times)...)
		}
	}
	for _, l := range ls {
		if l != nil {
			r = append(r, deep(l)...)
			l.Close()
		}
	}
	return r
}

// revised gives another version of a journal: with other prices, amounts,
// descriptions and comments, but at the same instants and of the same names.
func revised(c *engine.Ctx, j *jmodel.Journal) *jmodel.Journal {
	x := *j
	x.Items = nil
	k := int64(c.Range(2, 5))
	what := 1 + c.N(7)
	for _, it := range j.Items {
		y := *it
		if it.Price != nil && what&1 != 0 {
			p := *it.Price
			p.Val.Amt *= k
			y.Price = &p
		}
		if it.Txn != nil && what&6 != 0 {
			t := *it.Txn
			if what&2 != 0 {
				t.Desc = strings.TrimSpace(t.Desc + " again")
			}
			t.Splits = nil
			for _, s := range it.Txn.Splits {
				z := *s
				if what&4 != 0 {
					z.Val.Amt *= k
					if z.Cost == jmodel.TotalCost {
						z.CostVal.Amt *= k
					}
					if z.Assert != nil {
						v := *z.Assert
						v.Amt *= k
						z.Assert = &v
					}
				}
				t.Splits = append(t.Splits, &z)
			}
			y.Txn = &t
		}
		x.Items = append(x.Items, &y)
	}
	return &x
}

func c06(c *engine.Ctx) {
	type source struct {
		name  string
		files map[string][]byte
		db    pq.State
		j     *jmodel.Journal
		err   string
	}
	var sources []*source
	damaged := false
	for i := c.Range(2, 4); i > 0; i-- {
		dir := fmt.Sprintf("/n%d", i)
		s := &source{files: map[string][]byte{}}
		switch c.N(6) {
		default:
			if o := sources; len(o) > 0 && o[len(o)-1].j != nil && c.N(3) == 2 {
				s.j = revised(c, o[len(o)-1].j)
				c.Probe("the same journal, revised")
			} else {
				s.j = jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 4, MaxPrices: 2, Includes: 2})
			}
			files := s.j.Files()
			if c.N(4) == 3 {
				corrupt(c, files, 2)
				damaged = true
			}
			for n, b := range files {
				s.files[dir+n] = b
			}
			s.name = dir + s.j.Root
			if len(s.j.Inc) > 0 && c.N(6) == 5 {
				s.err = dir + s.j.Inc[c.N(len(s.j.Inc))].Path
			}
			if c.N(4) == 3 {
				s.name = "ledger:" + s.name
			}
		case 4:
			st, a, t := genTxt(c)
			_ = st
			s.files[dir+"/accounts"] = a
			if t != nil {
				s.files[dir+"/transactions"] = t
			}
			s.name = "txtdb:" + dir
			c.Probe("text database")
		case 5:
			st := genPG(c)
			s.db = st.pg()
			s.name = "postgres://" + dir[1:] + "/db"
			c.Probe("PostgreSQL database")
		}
		logFiles(c, s.files)
		sources = append(sources, s)
	}
	var progs []*program
	used := map[string]bool{}
	for i := c.Range(2, 5); i > 0; i-- {
		p := new(program)
		for k := 1 + c.N(2)*c.N(2); k > 0; k-- {
			s := sources[c.N(len(sources))]
			p.srcs = append(p.srcs, s.name)
			if used[s.name] && s.db == nil {
				c.Probe("the same journal twice")
			}
			used[s.name] = true
			var ps []poke
			for n := c.N(6); n > 0; n-- {
				ps = append(ps, anyPoke(c))
			}
			p.pokes = append(p.pokes, ps)
			p.query = append(p.query, c.N(3) == 0)
			p.clone = append(p.clone, c.N(3) == 0)
		}
		if len(p.srcs) > 1 {
			c.Probe("several ledgers in one program")
		}
		p.times = []time.Time{time.Date(2019+c.N(6), 6, 15, 0, 0, 0, 0, time.UTC), time.Date(2019+c.N(6), 1, 1, 12, 0, 0, 0, time.UTC)}
		progs = append(progs, p)
		c.Logf("program %d: %v %v", len(progs), p.srcs, p.pokes)
	}
	machine := func() *simos.World {
		w := c.World()
		dbs := map[string]*pq.Database{}
		for _, s := range sources {
			put(w, s.files)
			if s.err != "" && w.Nodes[s.err] != nil {
				w.Nodes[s.err].Err = syscall.EACCES
				w.Fire("open-error")
			}
			if s.db != nil {
				dbs[s.name] = &pq.Database{State: s.db}
			}
		}
		if damaged {
			w.Fire("damaged-bytes")
		}
		dial(dbs)
		return w
	}
	env := simos.Env{Zone: zones[c.N(len(zones))], MapSeed: 1}
	want := make([][]string, len(progs))
	alone := func() {
		for i, p := range progs {
			w := machine()
			pristine(func() {
				single(c, w, env, fmt.Sprintf("program %d alone (%v)", i, p.srcs), func() { want[i] = p.run() })
			})
		}
	}
	first := c.N(2) == 0
	if first {
		alone()
	}
	w := machine()
	fragment(c, w)
	w.Fault = softPlan(c, map[string]int{"open": 8, "read": 20}).hook
	got := make([][]string, len(progs))
	var jobs []simos.Job
	for i := range progs {
		i := i
		jobs = append(jobs, simos.Job{Name: fmt.Sprint("program ", i), F: func() { got[i] = progs[i].run() }})
	}
	before := w.Switches
	res := w.Run(sched(c), simos.Env{Zone: env.Zone, MapSeed: c.Seed()}, jobs...)
	must(c, res, fmt.Sprintf("%d programs at once", len(progs)))
	c.Trivial = w.Switches-before < int64(len(progs))+2
	if !first {
		alone()
	}
	for i, p := range progs {
		for _, l := range got[i] {
			if strings.HasPrefix(l, p.srcs[0]+": ") {
				c.Probe("error reported")
			}
		}
		diff(c, "interference", fmt.Sprintf("program %d (%v, %v) does not find what it finds alone", i, p.srcs, p.pokes), want[i], got[i], "alone", "together")
	}
	if c.N(40) == 39 && sources[0].db == nil && sources[0].err == "" {
		s := sources[0]
		var l *accounting.Ledger
		var err error
		w := machine()
		single(c, w, env, "opening afterwards", func() { l, err = accounting.Open(s.name) })
		jb := job{Files: s.files, Zone: 0, MapSeed: c.Seed(), Source: s.name}
		r := jb.alone(c)
		c.Probe("alone in another process")
		switch {
		case r.Died != "":
			c.Fail("panic", "in a process of its own: %s", r.Died)
		case err != nil && r.Err != err.Error():
			c.Fail("interference", "opening %s says %v, but in a process of its own %q", s.name, err, r.Err)
		case err == nil && r.Err != "":
			c.Fail("interference", "opening %s gives no error, but in a process of its own %q", s.name, r.Err)
		case err == nil:
			diff(c, "interference", "opening "+s.name+" is different in a process of its own", r.Dump, canon.Dump(l, exact), "alone", "here")
		}
	}
	c.Note = fmt.Sprintf("%d programs, %d sources, %d switches", len(progs), len(sources), w.Switches)
}
