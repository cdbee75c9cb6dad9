package checks

import (
	"fmt"
	"strings"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/engine"
	"verifsim/jmodel"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C12",
		Run: c12,
		Rule: "one run: 1 to 8 opens (one run in ten: 40, on a machine that allows 3 to 6 descriptors) of journals of up to 4 files, text databases and PostgreSQL databases, some damaged or contradictory, with up to 3 faults each; " +
			"after each failed open, and after closing each opened ledger (at once or later, several being open), the descriptors and connections that it was using are counted; a run is trivial if every open succeeded",
		Real:   []string{"accounting.Open, Close, Fill", "backend/ledger, backend/txtdb, backend/postgres", "database/sql, os, bufio of the standard library"},
		Stub:   []string{"openat, read, close, stat (simulated disk and descriptor table)", "github.com/lib/pq and the PostgreSQL server", "clock"},
		Kinds:  append(append([]string{}, readKinds...), "fragmented-reads", "damaged-bytes", "connection-refused", "connection-lost", "stale-connection", "server-error", "slow-query", "fd-limit"),
		Probes: []string{"failed open of a journal", "failed open of a text database", "failed open of a PostgreSQL database", "contradictory data", "closed while others were open", "failed with a connection open", "many opens"},
	})
}

func c12(c *engine.Ctx) {
	w := c.World()
	c.Trivial = true
	dbs := map[string]*pq.Database{}
	dial(dbs)
	n := 1 + c.N(8)
	limit := 0
	if c.N(10) == 9 {
		n = 40
		limit = 3 + c.N(4)
		c.Probe("many opens")
	}
	type live struct {
		l    *accounting.Ledger
		what string
		db   *pq.Database
	}
	var open1 []live
	var what string
	fds := func(when string) {
		// what is open must belong to a ledger that is open
		if len(open1) == 0 {
			if l := w.OpenFDs(); len(l) > 0 {
				c.Fail("leak", "%s: still open: %s", when, strings.Join(l, ", "))
			}
		}
		for name, db := range dbs {
			used := false
			for _, x := range open1 {
				if x.db == db {
					used = true
				}
			}
			if used {
				continue
			}
			if !idle(db) {
				a, b, t := db.Open()
				c.Fail("leak", "%s: %s has %d connections, %d results and %d transactions still open", when, name, a, b, t)
			}
		}
	}
	closeOne := func() {
		i := c.N(len(open1))
		x := open1[i]
		open1 = append(open1[:i], open1[i+1:]...)
		var err error
		single(c, w, anyEnv(c), "closing "+x.what, func() { err = x.l.Close() })
		c.Logf("close %s: %v", x.what, err)
		if len(open1) > 0 {
			c.Probe("closed while others were open")
		}
		fds("after closing " + x.what)
	}
	sizes := 0
	for i := 0; i < n; i++ {
		var src string
		var db *pq.Database
		base := copyCounts(w.Counts)
		var p *plan
		contradictory := false
		kind := c.N(3)
		switch kind {
		case 0:
			j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 4, MaxPrices: 2, Includes: 3, NoComments: true})
			files := j.Files()
			if c.N(3) == 2 {
				corrupt(c, files, 3)
				w.Fire("damaged-bytes")
			}
			if c.N(8) == 7 {
				longLine(c, files)
			}
			moved := map[string][]byte{}
			for name, b := range files {
				moved[fmt.Sprintf("/n%d", i)+name] = b
			}
			put(w, moved)
			if len(j.Inc) > 0 && c.N(8) == 7 {
				w.Nodes[fmt.Sprintf("/n%d", i)+j.Inc[c.N(len(j.Inc))].Path].Err = openErrs[c.N(3)]
			}
			sizes = sizeOf(files)
			src = fmt.Sprintf("/n%d", i) + j.Root
		case 1:
			s, a, t := genTxt(c)
			if c.N(3) == 2 {
				files := map[string][]byte{"accounts": a, "transactions": t}
				corrupt(c, files, 3)
				a, t = files["accounts"], files["transactions"]
				w.Fire("damaged-bytes")
			} else if _, bad := s.txtModel(); bad != nil {
				contradictory = true
			}
			dir := fmt.Sprintf("/n%d", i) + txtDir
			putTxt(w, dir, a, t)
			sizes = len(a) + len(t)
			src = "txtdb:" + dir
		case 2:
			s := genPG(c)
			contradictory = s.broken() != ""
			if c.N(6) == 5 {
				// accounts that are their own ancestors
				a, b := s.accs[c.N(len(s.accs))], s.accs[c.N(len(s.accs))]
				a.parent, b.parent = b, a
				contradictory = true
				if c.N(2) == 1 {
					s.txns = nil
				}
			}
			db = &pq.Database{State: s.pg(), Order: orders(c, w)}
			src = fmt.Sprintf("postgres://db%d/books", i)
			dbs[src] = db
			newPGFaults(c, w, db, 10+len(s.accs)+3*len(s.txns), 2)
		}
		if limit > 0 && c.N(3) > 0 {
			p = &plan{opens: map[string]bool{}}
		} else {
			fragment(c, w)
			more := map[string]int{"open": 4, "close": 4, "read": 5}
			if w.FragStyle > 0 {
				more["read"] += sizes / (1 + w.FragSize)
			}
			p = makePlan(c, more, 3)
		}
		for _, f := range p.faults {
			f.n += base[f.op]
		}
		w.Fault = p.hook
		w.FDLimit = limit
		o := open(w, anyEnv(c), src)
		w.Fault, w.FDLimit = nil, 0
		w.FragStyle = 0
		if db != nil {
			understood(db)
			db.On = nil
		}
		what = fmt.Sprintf("opening %s (faults: %s): %v", src, strings.Join(p.fired, "; "), o.Err)
		must(c, o.Res, what)
		c.Logf("%s", what)
		if o.Err != nil {
			c.Trivial = false
			c.Probe([]string{"failed open of a journal", "failed open of a text database", "failed open of a PostgreSQL database"}[kind])
			if contradictory {
				c.Probe("contradictory data")
			}
			if db != nil && db.Opened() > 0 {
				c.Probe("failed with a connection open")
			}
			fds("after " + what)
			if len(open1) > 0 {
				continue
			}
		} else {
			open1 = append(open1, live{o.L, src, db})
			// A ledger that is opened in spite of the limit must be the whole one;
			// that is another property's business.
		}
		for len(open1) > 0 && c.N(2) == 1 {
			closeOne()
		}
	}
	for len(open1) > 0 {
		closeOne()
	}
	fds("at the end")
	c.Note = fmt.Sprintf("%d opens, descriptors at most %d", n, w.MaxOpen)
}
