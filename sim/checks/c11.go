package checks

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C11",
		Run: c11,
		Rule: "one run: a generated PostgreSQL database (sometimes with contents that must be rejected) is opened without faults and compared with a model; then 4 times with up to 2 faults at the steps of connections (connecting, ping, begin, query, each row, commit) " +
			"and up to 6 commits of other clients at any step, rows coming in any order that the queries leave open; a run is trivial if no fault fired and nobody committed",
		Real:   []string{"accounting.Open, Fill", "backend/postgres", "database/sql of the standard library"},
		Stub:   []string{"github.com/lib/pq and the PostgreSQL server (an in-memory database with snapshots that runs the queries' SQL)", "the other clients (decided by the tape at each step)", "clock"},
		Kinds:  []string{"connection-refused", "connection-lost", "stale-connection", "server-error", "concurrent-commit", "slow-query", "unordered-rows"},
		Probes: []string{"rejected", "error reported", "opened despite faults", "opened as at first", "opened as in between", "opened as at the end", "connection lost at a row", "parent with a greater id", "retried connection"},
	})
}

const pgSource = "postgres://u:p@db/books"

// genPG makes a database's contents, sometimes ones that must be rejected.
func genPG(c *engine.Ctx) *store {
	s := genStore(c, false)
	if c.N(3) == 2 && len(s.accs) > 1 {
		// accounts renumbered: parents can come after their children
		i, j := c.N(len(s.accs)), c.N(len(s.accs))
		s.accs[i].id, s.accs[j].id = s.accs[j].id, s.accs[i].id
	}
	if c.N(8) == 7 {
		// any numbers are good
		first := []int{-2, -len(s.accs), 1<<31 - 2, 1 << 53, 1 << 62}[c.N(5)]
		for _, a := range s.accs {
			a.id += first
		}
		s.next += first
	}
	for _, a := range s.accs {
		if a.parent != nil && a.parent.id > a.id {
			c.Probe("parent with a greater id")
			break
		}
	}
	for _, t := range s.txns {
		if c.N(8) == 7 { // a transaction with no movements
			t.splits = nil
		}
	}
	if c.N(5) == 4 && len(s.txns) > 0 {
		t := s.txns[c.N(len(s.txns))]
		if len(t.splits) > 0 {
			sp := t.splits[c.N(len(t.splits))]
			if c.N(2) == 1 { // one more, so that the others still add up to zero
				sp = &stSplit{acc: sp.acc, when: sp.when}
				t.splits = append(t.splits, sp)
			}
			switch c.N(5) {
			case 0:
				sp.text = "NULL"
			case 1:
				sp.text = []string{"0.123456789", "0.000000001", "-0.0000000001"}[c.N(3)]
			case 2:
				sp.text = []string{"99999999999999999999.5", "184467440737.09551616", "92233720368.54775808", "-276701161105.64327424"}[c.N(4)]
				if c.N(2) == 1 { // and its opposite
					o := &stSplit{acc: sp.acc, when: sp.when, text: "-" + sp.text}
					o.text = strings.TrimPrefix(o.text, "--")
					t.splits = append(t.splits, o)
				}
			case 3:
				sp.amt += int64(c.Range(1, 100)) * 1_000_000
			case 4:
				sp.acc = &stAcc{id: 9999, name: "nobody"}
			}
		}
	}
	return s
}

// pgFaults injects faults into a simulated database.
type pgFaults struct {
	c       *engine.Ctx
	w       *simos.World
	db      *pq.Database
	at      map[int]error
	kinds   map[int]string
	commits map[int]func()
	n       int
	fired   []string
	did     int
	slow    map[int]time.Duration
	hard    bool
	ops     []string
}

func (f *pgFaults) on(op, detail string) error {
	i := f.n
	f.n++
	f.ops = append(f.ops, op)
	if f.commits[i] != nil {
		f.commits[i]()
		f.did++
		f.w.Fire("concurrent-commit")
		f.w.Logf("another client commits before step %d (%s)", i, op)
	}
	if d := f.slow[i]; d > 0 {
		f.w.Clock = f.w.Clock.Add(d)
		f.w.SimTime += d
		f.w.Fire("slow-query")
	}
	f.w.Logf("step %d: %s %s", i, op, detail)
	err := f.at[i]
	if err == nil {
		return nil
	}
	kind := f.kinds[i]
	if op == "connect" {
		kind = "connection-refused"
	}
	if err == driver.ErrBadConn && op != "ping" && op != "begin" && op != "query" {
		return nil // drivers say this only before the server could have done anything
	}
	if kind == "connection-lost" && op == "row" {
		f.c.Probe("connection lost at a row")
	}
	f.w.Fire(kind)
	if err == driver.ErrBadConn {
		f.c.Probe("retried connection")
	}
	f.hard = true
	f.fired = append(f.fired, fmt.Sprintf("%s at step %d (%s %s)", kind, i, op, detail))
	return err
}

func newPGFaults(c *engine.Ctx, w *simos.World, db *pq.Database, steps, max int) *pgFaults {
	f := &pgFaults{c: c, w: w, db: db, at: map[int]error{}, kinds: map[int]string{}, commits: map[int]func(){}, slow: map[int]time.Duration{}}
	for n := c.N(max + 1); n > 0; n-- {
		i := c.N(steps + 2)
		switch c.N(4) {
		case 0:
			f.at[i] = &pq.Error{Code: "57014", Message: "canceling statement due to user request"}
			f.kinds[i] = "server-error"
		case 1, 2:
			f.at[i] = []error{io.ErrUnexpectedEOF, syscall.ECONNRESET, errors.New("read tcp: i/o timeout"), io.EOF}[c.N(3)]
			f.kinds[i] = "connection-lost"
		case 3:
			f.at[i] = driver.ErrBadConn
			f.kinds[i] = "stale-connection"
		}
	}
	if c.N(4) == 3 {
		f.slow[c.N(steps+2)] = time.Duration(1+c.N(10000)) * time.Second
	}
	db.On = f.on
	return f
}

// orders makes rows come in any order that the query leaves open.
func orders(c *engine.Ctx, w *simos.World) func(n int) []int {
	if c.N(2) == 0 {
		return nil
	}
	w.Fire("unordered-rows")
	seed := c.Seed()
	return func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		for i := n - 1; i > 0; i-- {
			seed = seed*6364136223846793005 + 1442695040888963407
			k := int((seed >> 33) % uint64(i+1))
			p[i], p[k] = p[k], p[i]
		}
		return p
	}
}

// dial makes a database reachable by its name.
func dial(dbs map[string]*pq.Database) {
	pq.Dial = func(dsn string) (*pq.Database, error) {
		if d := dbs[dsn]; d != nil {
			return d, nil
		}
		return nil, syscall.ECONNREFUSED
	}
}

func understood(db *pq.Database) {
	if db.Unknown != "" {
		panic("the simulated server does not understand " + db.Unknown)
	}
}

// idle waits until database/sql's goroutines have ended.
func idle(db *pq.Database) bool {
	for i := 0; i < 2000; i++ {
		if n, r, t := db.Open(); n == 0 && r == 0 && t == 0 {
			return true
		}
		runtime.Gosched()
		if i > 200 {
			time.Sleep(100 * time.Microsecond)
		}
	}
	return false
}

func c11(c *engine.Ctx) {
	s := genPG(c)
	for _, a := range s.accs {
		c.Logf("account %d %q parent %v", a.id, a.full(), a.parent != nil)
	}
	for _, t := range s.txns {
		c.Logf("transaction %d %v %q", t.id, t.time, t.desc)
		for _, sp := range t.splits {
			c.Logf("  %q %d %s", sp.acc.full(), sp.amt, sp.text)
		}
	}
	c.Note = fmt.Sprintf("%d accounts, %d transactions", len(s.accs), len(s.txns))
	c.Trivial = true
	o := canon.Opt{PriceOrder: true}
	mustReject := func(s *store, l *accounting.Ledger) ([]string, string) {
		if b := s.broken(); b != "" {
			return nil, b
		}
		want, err := s.pgModel(l)
		if err != nil {
			return nil, err.Error()
		}
		return want, ""
	}
	w := c.World()
	db := &pq.Database{State: s.pg(), Order: orders(c, w)}
	f := newPGFaults(c, w, db, 0, 0)
	dial(map[string]*pq.Database{pgSource: db})
	x := open(w, anyEnv(c), pgSource)
	must(c, x.Res, "opening without faults")
	understood(db)
	want, bad := mustReject(s, x.L)
	if bad != "" {
		if x.Err == nil {
			c.Fail("silent loss", "%s, but Open gave no error", bad)
		}
		c.Probe("rejected")
	} else if x.Err != nil {
		c.Fail("error without fault", "nothing failed, but Open said: %v", x.Err)
	} else {
		diff(c, "wrong ledger", "the ledger is not what is stored", want, described(x.L, o), "stored", "opened")
	}
	steps := f.n
	for try := 0; try < 4; try++ {
		w := c.World()
		db := &pq.Database{State: s.pg(), Order: orders(c, w)}
		dial(map[string]*pq.Database{pgSource: db})
		f := newPGFaults(c, w, db, steps, []int{0, 1, 2, 2}[try])
		versions := []*store{s}
		n := 0
		if try != 1 {
			n = c.N(7)
		}
		last := s
		for ; n > 0; n-- {
			v := last.clone()
			if len(v.txns) > 0 && c.N(4) == 3 {
				// one is removed
				i := c.N(len(v.txns))
				v.txns = append(append([]*stTxn(nil), v.txns[:i]...), v.txns[i+1:]...)
			} else if len(v.txns) > 0 && c.N(3) == 2 {
				// an amount is changed at both ends
				i := c.N(len(v.txns))
				if t := *v.txns[i]; len(t.splits) >= 2 {
					t.splits = append([]*stSplit(nil), t.splits...)
					a, b := *t.splits[0], *t.splits[len(t.splits)-1]
					a.amt += 5 * accounting.U
					b.amt -= 5 * accounting.U
					t.splits[0], t.splits[len(t.splits)-1] = &a, &b
					v.txns[i] = &t
				}
			} else {
				for k := c.N(2); k >= 0; k-- {
					v.addAcc(c)
				}
				max := 0
				for _, t := range v.txns {
					if t.id > max {
						max = t.id
					}
				}
				for k := c.N(2); k >= 0; k-- {
					max++
					v.addTxn(c, false).id = max
				}
			}
			last = v
			i := c.N(steps + 1)
			prev := f.commits[i]
			f.commits[i] = func() {
				if prev != nil {
					prev()
				}
				versions = append(versions, v)
				db.State = v.pg()
			}
		}
		x := open(w, anyEnv(c), pgSource)
		what := fmt.Sprintf("%d commits of others at steps %v of %v, faults: %s", len(versions)-1, keysOf(f.commits), f.ops, strings.Join(f.fired, "; "))
		if len(f.fired) > 0 || len(versions) > 1 {
			c.Trivial = false
		}
		must(c, x.Res, what)
		understood(db)
		c.Logf("%s: %v", what, x.Err)
		if x.Err != nil {
			c.Probe("error reported")
			rejected := false
			for _, v := range versions {
				if _, bad := mustReject(v, nil); bad != "" {
					rejected = true
				}
			}
			if !f.hard && !rejected {
				c.Fail("error without fault", "%s: nothing really failed, but Open said: %v", what, x.Err)
			}
			continue
		}
		if f.hard {
			c.Probe("opened despite faults")
		}
		got := described(x.L, o)
		found := -1
		for i, v := range versions {
			if want, bad := mustReject(v, x.L); bad == "" && canon.Diff(want, got, "", "") == "" {
				found = i
				break
			}
		}
		switch {
		case found < 0 && len(versions) == 1 && bad != "":
			c.Fail("silent loss", "%s: %s, but Open gave no error", what, bad)
		case found < 0 && len(versions) == 1:
			want, _ := mustReject(s, x.L)
			diff(c, "silent loss", what+": Open gave no error, but the ledger is not what is stored", want, got, "stored", "opened")
		case found < 0:
			c.Fail("mixture", "%s: the ledger is not any of the %d states that the database was in\n    opened:\n        %s", what, len(versions), strings.Join(got, "\n        "))
		case len(versions) == 1:
		case found == 0:
			c.Probe("opened as at first")
		case found == len(versions)-1:
			c.Probe("opened as at the end")
		default:
			c.Probe("opened as in between")
		}
	}
}

func keysOf(m map[int]func()) []int {
	var l []int
	for i := 0; i < 1000; i++ {
		if m[i] != nil {
			l = append(l, i)
		}
	}
	return l
}
