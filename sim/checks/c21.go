package checks

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C21",
		Run: c21,
		Rule: "one run: a journal (in files that include each other) or a text database is stored on a simulated machine, then 1 to 6 commands of cmd/ledger run on it, at clocks that jump, on a disk whose reads are fragmented, interrupted and slow and an output whose writes are interrupted, " +
			"with any combination of begin and end dates, pivots, currencies, market values, negation, totals and account names; one command, or several in one invocation. " +
			"What each prints is read back and compared, account by account and amount by amount, with sums over the stored movements made by a reference model; one command in ten cannot be carried out (unknown command, invalid date, option or period, no price, a ledger that cannot be opened) and must end with an error status, a message and no report; trivial: no transactions",
		Real:   []string{"cmd/ledger, cmd/tacc, and cmd/acc and cmd/muscular where they cannot do their work (main functions)", "accounting, backend/ledger, backend/txtdb, backend/postgres", "fmt, flag, log, bufio, os, time above the system calls"},
		Stub:   []string{"openat, read, write, close (simulated disk and standard output)", "clock, time zone, map iteration order", "github.com/cespedes/tableview (terminal user interface; it prints the tables)", "github.com/lib/pq and the PostgreSQL server"},
		Kinds:  []string{"fragmented-reads", "read-short", "read-eintr", "open-eintr", "slow-call", "clock-jump", "write-short", "write-eintr", "open-error"},
		Probes: []string{"big amounts", "sum too big", "balance", "balance of some accounts", "income statement", "income of some accounts", "delta", "accounts", "tree", "stats", "print", "tables", "pivot", "pivot leaves some out", "market", "currency", "total", "negate", "begin date", "end date", "several commands", "text database", "movements of other dates", "net not zero", "PostgreSQL database", "table viewer", "cannot be done: unknown command", "cannot be done: invalid date", "cannot be done: unknown option", "cannot be done: no price", "cannot be done: no journal given", "cannot be done: invalid period", "cannot be done: ledger that cannot be opened"},
	})
}

// tally is an exact sum.
type tally map[*accounting.Currency]*big.Int

func (m tally) add(v accounting.Value) { m.plus(v.Currency, big.NewInt(v.Amount)) }

func (m tally) plus(x *accounting.Currency, n *big.Int) {
	if n.Sign() == 0 {
		return
	}
	sum := new(big.Int).Set(n)
	if old := m[x]; old != nil {
		sum.Add(sum, old)
	}
	if m[x] = sum; sum.Sign() == 0 {
		delete(m, x)
	}
}

func (m tally) plusAll(o tally, sign int64) {
	for x, n := range o {
		m.plus(x, new(big.Int).Mul(n, big.NewInt(sign)))
	}
}

// fits tells if all its amounts can be represented.
func (m tally) fits() bool {
	for _, n := range m {
		if !n.IsInt64() || n.Int64() == math.MinInt64 {
			return false
		}
	}
	return true
}

func (m tally) shown(sign int64) []string {
	o := map[*accounting.Currency]int64{}
	for x, n := range m {
		o[x] = n.Int64()
	}
	return shown(o, sign)
}

func (m tally) text() string { return joinOr0(m.shown(1)) }

// tooBig judges a report with sums that cannot be represented: it must be an error.
func (r *rep) tooBig(what, out string, p *proc, sums ...tally) bool {
	for _, m := range sums {
		if !m.fits() {
			r.c.Probe("sum too big")
			if p.Exit == 0 || len(p.Err) == 0 || out != "" {
				r.c.Fail("wrong report", "%s: status %d, although an amount does not fit; output %q, standard error %q", what, p.Exit, out, clip(p.Err, 500))
			}
			return true
		}
	}
	if len(r.pivot) > 0 && p.Exit != 0 {
		// the balances after some of the movements may not fit
		for _, a := range r.l.Accounts {
			m := tally{}
			for _, s := range a.Splits {
				if r.takes(s.Transaction) {
					m.add(s.Value)
				}
				if !m.fits() {
					r.c.Probe("sum too big")
					return true
				}
			}
		}
	}
	return false
}

// sorted gives a list of amounts in a fixed order.
func sorted(s string) string {
	l := strings.Split(strings.TrimSpace(s), ", ")
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// rep is the reference model of the reports: sums of movements.
type rep struct {
	c      *engine.Ctx
	l      *accounting.Ledger
	span   *span
	pivot  []string
	blocks []string // transactions as printed
	at     []time.Time
	env    simos.Env
	w      *simos.World
}

func matches(a *accounting.Account, parts []string) bool {
	for _, p := range parts {
		if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(p)) {
			return true
		}
	}
	return false
}

// takes tells whether a transaction takes part.
func (r *rep) takes(t *accounting.Transaction) bool {
	if len(r.pivot) == 0 {
		return true
	}
	for _, s := range t.Splits {
		if matches(s.Account, r.pivot) {
			return true
		}
	}
	return false
}

// each calls f for all movements of the chosen transactions.
func (r *rep) each(f func(t *accounting.Transaction, s *accounting.Split)) {
	for _, t := range r.l.Transactions {
		if !r.takes(t) {
			continue
		}
		for _, s := range t.Splits {
			f(t, s)
		}
	}
}

// until sums up to the end date, within within the dates, before before the begin date.
func (r *rep) until(a *accounting.Account) tally {
	m := tally{}
	r.each(func(t *accounting.Transaction, s *accounting.Split) {
		if s.Account == a && (r.span.end.IsZero() || !s.Time.After(r.span.end)) {
			m.add(s.Value)
		}
	})
	return m
}

func (r *rep) within(a *accounting.Account) (m tally, n int) {
	m = tally{}
	r.each(func(t *accounting.Transaction, s *accounting.Split) {
		if s.Account == a && r.span.has(*s.Time) {
			m.add(s.Value)
			n++
		}
	})
	return m, n
}

func (r *rep) before(a *accounting.Account) tally {
	m := tally{}
	if r.span.begin.IsZero() {
		return m
	}
	r.each(func(t *accounting.Transaction, s *accounting.Split) {
		if s.Account == a && s.Time.Before(r.span.begin) {
			m.add(s.Value)
		}
	})
	return m
}

// market converts a sum; it is false if that is not possible.
func (r *rep) market(m tally, at time.Time) (tally, bool) {
	res, ok := tally{}, true
	single(r.c, r.w, r.env, "conversion", func() {
		for x, v := range m {
			nv, err := r.l.Convert(accounting.Value{Amount: v.Int64(), Currency: x}, at, r.l.DefaultCurrency)
			if err != nil {
				ok = false
				return
			}
			res.add(nv)
		}
	})
	return res, ok && m.fits() && res.fits()
}

type row struct {
	level  int
	name   string
	amount string // "" if none is shown
}

func (x row) String() string { return fmt.Sprintf("%d %s: %s", x.level, x.name, x.amount) }

// shownAccounts are the accounts a balance report is about.
func (r *rep) shownAccounts(parts []string) (accs []*accounting.Account, names []string, levels []int) {
	if len(parts) == 0 {
		for _, a := range r.l.Accounts {
			accs, names, levels = append(accs, a), append(names, a.Name), append(levels, a.Level)
		}
		return
	}
	seen := map[*accounting.Account]bool{}
	var insert func(a *accounting.Account, name string, level int)
	insert = func(a *accounting.Account, name string, level int) {
		if seen[a] {
			return
		}
		seen[a] = true
		accs, names, levels = append(accs, a), append(names, name), append(levels, level)
		for _, k := range a.Children {
			insert(k, k.Name, level+1)
		}
	}
	for _, a := range r.l.Accounts {
		if matches(a, parts) {
			insert(a, a.FullName(), 0)
		}
	}
	return
}

// readBalance reads a balance report.
func readBalance(c *engine.Ctx, out string, totals bool) (rows []string, total []string) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if totals {
		for _, l := range lines {
			total = append(total, strings.TrimSpace(l))
		}
		sort.Strings(total)
		return
	}
	dash := -1
	for i, l := range lines {
		if strings.Trim(l, "-") == "" && (l != "" || i == len(lines)-2) {
			dash = i
		}
	}
	if dash < 0 {
		c.Fail("strange report", "no line of dashes in the balance report:\n%s", out)
	}
	width := len(lines[dash])
	var amounts []string
	for _, l := range lines[:dash] {
		r := []rune(l)
		if len(r) < width {
			c.Fail("strange report", "a line of the balance report is too short:\n%s", out)
		}
		amount := strings.TrimSpace(string(r[:width]))
		if amount != "" {
			amounts = append(amounts, amount)
		}
		name := string(r[width:])
		if strings.TrimSpace(name) == "" {
			continue
		}
		indent := len(name) - len(strings.TrimLeft(name, " ")) - 1
		sort.Strings(amounts)
		rows = append(rows, row{indent / 2, strings.TrimLeft(name, " "), strings.Join(amounts, ", ")}.String())
		amounts = nil
	}
	if amounts != nil {
		c.Fail("strange report", "amounts without an account in the balance report:\n%s", out)
	}
	for _, l := range lines[dash+1:] {
		total = append(total, strings.TrimSpace(l))
	}
	sort.Strings(total)
	return
}

func c21(c *engine.Ctx) {
	w := c.World()
	var source string
	dbs := map[string]*pq.Database{}
	switch c.N(16) {
	case 14:
		_, a, t := genTxt(c)
		putTxt(w, "/db", a, t)
		source = "txtdb:/db"
		c.Probe("text database")
	case 15:
		st := genPG(c)
		source = "postgres://db/x"
		dbs[source] = &pq.Database{State: st.pg()}
		c.Probe("PostgreSQL database")
	default:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 2})
		if c.N(8) == 7 {
			bigSums(c, j)
		}
		put(w, j.Files())
		logFiles(c, j.Files())
		source = j.Root
	}
	dial(dbs)
	o := open(w, anyEnv(c), source)
	must(c, o.Res, "opening "+source)
	if o.Err != nil {
		c.Trivial = true
		return
	}
	l := o.L
	f := factsIn(l)
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			f.times = append(f.times, *s.Time)
		}
	}
	c.Trivial = len(l.Transactions) == 0
	c.Note = fmt.Sprintf("%s: %d transactions, %d accounts", source, len(l.Transactions), len(l.Accounts))
	for _, a := range l.Accounts {
		if a.Parent == nil && a.Name == accounting.TransferAccount.Name && len(a.Splits) > 0 {
			c.Probe("movements of other dates")
		}
	}
	name, args := "ledger", []string{"-f", source, "print"}
	if len(dbs) > 0 { // this program has not this backend
		name, args = "acc", []string{source}
	}
	whole := command(w, plainEnv(), name, args)
	if whole.Exit != 0 {
		c.Fail("unexpected error", "print: %v", whole)
	}
	all, at := blocks(c, whole.Out)
	if len(all) != len(l.Transactions) {
		c.Fail("strange report", "print shows %d of %d transactions", len(all), len(l.Transactions))
	}
	for n := c.Range(1, 6); n > 0; n-- {
		if c.N(10) == 9 {
			c21bad(c, w, source)
			continue
		}
		r := &rep{c: c, l: l, span: new(span), blocks: all, at: at, env: anyEnv(c), w: w}
		if len(dbs) > 0 || c.N(16) == 15 { // the table viewer has no options
			clockJump(c, w)
			fragment(c, w)
			w.Fault = softWrites(c, map[string]int{"open": 2, "read": 4, "write": 8}).hook
			p := command(w, anyEnv(c), "tacc", []string{source})
			w.Fault = nil
			c.Probe("table viewer")
			r.tables(fmt.Sprintf("tacc %s", source), string(p.Out), p)
			continue
		}
		if c.N(2) == 1 {
			r.span = anySpan(c, f, true)
		}
		if !r.span.end.IsZero() {
			c.Probe("end date")
		}
		opts := append([]string(nil), r.span.args...)
		if c.N(3) == 2 {
			for k := c.Range(1, 2); k > 0; k-- {
				p := f.part(c)
				r.pivot = append(r.pivot, p)
				opts = append(opts, "-pivot", p)
			}
			c.Probe("pivot")
			in := 0
			for _, t := range l.Transactions {
				if r.takes(t) {
					in++
				}
			}
			if in > 0 && in < len(l.Transactions) {
				c.Probe("pivot leaves some out")
			}
		}
		clockJump(c, w)
		args, judge := r.any(c, f, opts)
		line := append([]string{"-f", source}, args...)
		if len(args) > 0 && c.N(4) == 3 { // after another command in the same invocation
			line = append([]string{"-f", source, "-e", "1066-10-14", "stats", "--"}, args...)
			c.Probe("several commands")
		}
		fragment(c, w)
		w.Fault = softWrites(c, map[string]int{"open": 2, "read": 4, "write": 8}).hook
		p := command(w, anyEnv(c), "ledger", line)
		w.Fault = nil
		out := string(p.Out)
		if len(line) != len(args)+2 {
			const first = "No transactions in ledger\n"
			if !strings.HasPrefix(out, first) {
				c.Fail("wrong report", "ledger %q says %q first", line, out)
			}
			out = strings.TrimPrefix(out, first)
		}
		judge(fmt.Sprintf("ledger %q", line), out, p)
	}
	l.Close()
}

func (r *rep) ok(what string, p *proc) {
	if p.Exit != 0 {
		r.c.Fail("unexpected error", "%s: status %d%s\n%s", what, p.Exit, p.Died, p.Err)
	}
}

// c21bad runs a command that cannot be carried out.
func c21bad(c *engine.Ctx, w *simos.World, source string) {
	type bad struct {
		what, prog string
		args       []string
		partly     bool // some of it can be done
	}
	badDate := []string{"yesterday", "2021-13", "2021-00-10", "20", "2021-02-x1", "2021-01-01/25:00:00"}[c.N(6)]
	unbalanced := "2021-01-01 one\n  A  1.00 EUR\n  B  2.00 EUR\n"
	good := [][]string{{"balance"}, {"print"}, {"stats"}, {}}[c.N(4)]
	prog := []string{"ledger", "muscular"}[c.N(2)]
	if prog == "muscular" {
		good = nil
	}
	var b bad
	switch c.N(8) {
	case 0:
		b = bad{"unknown command", "ledger", []string{"-f", source, []string{"blance", "statss", "", "table", "Print"}[c.N(5)]}, false}
	case 1:
		b = bad{"invalid date", prog, append([]string{"-f", source, []string{"-b", "-e"}[c.N(2)], badDate}, good...), false}
	case 2:
		b = bad{"unknown option", prog, append([]string{"-f", source, "-frob"}, good...), false}
	case 3:
		b = bad{"no price", "ledger", []string{"-f", source, "price", "NONESUCH"}, true}
		if prog == "muscular" {
			b = bad{"no price", prog, []string{"-f", source, "NONESUCH"}, false}
		}
	case 4:
		b = bad{"no journal given", prog, append([]string{"-f", ""}, good...), false}
	case 5:
		b = bad{"invalid period", "muscular", []string{"-f", source, []string{"-period", "-measureperiod"}[c.N(2)], []string{"often", "1y", "m", ""}[c.N(4)]}, false}
	default:
		var from string
		switch c.N(4) {
		case 0:
			from = "/nowhere/to/be/found"
		case 1:
			from = "nobackend://x"
		case 2:
			from = "/unbalanced"
			put(w, map[string][]byte{from: []byte(unbalanced)})
		case 3:
			from = "/unreadable"
			put(w, map[string][]byte{from: []byte("2021-01-01 one\n  A  1.00 EUR\n  B\n")})
			w.Nodes[from].Err = openErrs[c.N(3)]
			w.Fire("open-error")
		}
		switch c.N(3) {
		case 0:
			b = bad{"ledger that cannot be opened", "acc", []string{from}, false}
		case 1:
			b = bad{"ledger that cannot be opened", "tacc", []string{from}, false}
		default:
			b = bad{"ledger that cannot be opened", prog, append([]string{"-f", from}, good...), false}
		}
	}
	if strings.HasPrefix(source, "postgres:") && (b.prog == "ledger" || b.prog == "muscular") {
		return // these have no such backend
	}
	fragment(c, w)
	w.Fault = softWrites(c, map[string]int{"open": 2, "read": 4, "write": 8}).hook
	p := command(w, anyEnv(c), b.prog, b.args)
	w.Fault = nil
	what := fmt.Sprintf("%s %q (%s)", b.prog, b.args, b.what)
	c.Probe("cannot be done: " + b.what)
	if p.Died != "" {
		c.Fail("panic", "%s: %s", what, p.Died)
	}
	if p.Exit == 0 {
		c.Fail("error not reported", "%s: status 0, output %q, standard error %q", what, clip(p.Out, 500), clip(p.Err, 500))
	}
	if len(p.Err) == 0 {
		c.Fail("error not explained", "%s: status %d, but nothing on standard error", what, p.Exit)
	}
	if len(p.Out) > 0 && !b.partly {
		c.Fail("report despite an error", "%s: output %q", what, clip(p.Out, 500))
	}
}

// any chooses a command, and gives what judges its output.
func (r *rep) any(c *engine.Ctx, f *facts, opts []string) (args []string, judge func(what, out string, p *proc)) {
	l := r.l
	ok := r.ok
	some := func(n int) (parts []string) {
		for i := c.N(n + 1); i > 0; i-- {
			parts = append(parts, f.part(c))
		}
		return
	}
	switch c.N(10) {
	default: // balances
		c.Probe("balance")
		var curs []string
		for k := c.N(5); k > 2; k-- {
			curs = append(curs, f.cur(c))
			opts = append(opts, "-currency", curs[len(curs)-1])
			c.Probe("currency")
		}
		// without an end date the market depends on the clock: see C14
		market := !r.span.end.IsZero() && c.N(3) == 2
		if market {
			opts = append(opts, "-market")
			c.Probe("market")
		}
		totals := c.N(5) == 4
		if totals {
			opts = append(opts, "-total")
			c.Probe("total")
		}
		parts := some(2)
		if len(parts) > 0 {
			c.Probe("balance of some accounts")
		}
		args = append(append(opts, []string{"balance", "bal", "b"}[c.N(3)]), parts...)
		return args, func(what, out string, p *proc) {
			accs, names, levels := r.shownAccounts(parts)
			var want []string
			total := tally{}
			fit := true
			for i, a := range accs {
				m := r.until(a)
				fit = fit && m.fits()
				if len(curs) > 0 {
					for x := range m {
						keep := false
						for _, n := range curs {
							keep = keep || x.Name == n
						}
						if !keep {
							delete(m, x)
						}
					}
				}
				if market {
					var can bool
					if m, can = r.market(m, r.span.end); !can {
						if p.Exit != 1 {
							c.Fail("wrong report", "%s: status %d, although an amount cannot be converted", what, p.Exit)
						}
						return
					}
				}
				total.plusAll(m, 1)
				_, n := r.within(a)
				if len(m) > 0 || n == 0 {
					want = append(want, row{levels[i], names[i], strings.Join(m.shown(1), ", ")}.String())
				}
			}
			if r.tooBig(what, out, p, total) || !fit && p.Exit != 0 {
				return
			}
			ok(what, p)
			rows, tot := readBalance(c, out, totals)
			if !totals {
				sameLines(c, "wrong report", what, want, rows)
			}
			wantTotal := total.shown(1)
			if len(wantTotal) == 0 {
				wantTotal = []string{"0"}
			}
			sameLines(c, "wrong report", what+": the total is not the sum of the lines", wantTotal, tot)
		}
	case 4, 5:
		c.Probe("income statement")
		totals := c.N(4) == 3
		if totals {
			opts = append(opts, "-total")
			c.Probe("total")
		}
		parts := some(2)
		if len(parts) > 0 {
			c.Probe("income of some accounts")
		}
		args = append(append(opts, []string{"incomestatement", "is"}[c.N(2)]), parts...)
		return args, func(what, out string, p *proc) {
			net := tally{}
			sums := []tally{net}
			var want []string
			for _, side := range []struct {
				title, prefix string
				sign          int64
			}{{"Revenues", "Income", -1}, {"Expenses", "Expense", 1}} {
				sum := tally{}
				sums = append(sums, sum)
				want = append(want, side.title)
				for _, a := range l.Accounts {
					full := a.FullName()
					switch {
					case !strings.HasPrefix(full, side.prefix), len(parts) > 0 && !matches(a, parts):
						continue
					case len(parts) == 0 && !strings.HasPrefix(full, side.prefix+":"):
						continue
					}
					m, n := r.within(a)
					if n == 0 {
						continue
					}
					want = append(want, full+": "+sorted(joinOr0(m.shown(side.sign))))
					sums = append(sums, m)
					sum.plusAll(m, side.sign)
					net.plusAll(m, -1)
				}
				want = append(want, ": "+sum.text())
			}
			if len(net) > 0 {
				c.Probe("net not zero")
			}
			want = append(want, "Net:: "+net.text())
			if r.tooBig(what, out, p, sums...) {
				return
			}
			ok(what, p)
			if totals {
				sameLines(c, "wrong report", what, []string{net.text()}, []string{sorted(out)})
				return
			}
			var got []string
			for _, line := range strings.Split(out, "\n") {
				if i := strings.Index(line, "||"); i >= 0 {
					name, amount := strings.TrimSpace(line[:i]), strings.TrimSpace(line[i+2:])
					if amount == "" {
						got = append(got, name)
					} else {
						got = append(got, name+": "+sorted(amount))
					}
				}
			}
			sameLines(c, "wrong report", what, want, got)
		}
	case 6:
		c.Probe("delta")
		market := !r.span.end.IsZero() && c.N(3) == 2
		if market {
			opts = append(opts, "-market")
			c.Probe("market")
		}
		negate := c.N(3) == 2
		if negate {
			opts = append(opts, "-negate")
			c.Probe("negate")
		}
		parts := append([]string{f.part(c)}, some(1)...)
		args = append(append(opts, "delta"), parts...)
		return args, func(what, out string, p *proc) {
			begin, delta := tally{}, tally{}
			for _, a := range l.Accounts {
				if matches(a, parts) {
					begin.plusAll(r.before(a), 1)
					m, _ := r.within(a)
					delta.plusAll(m, 1)
				}
			}
			if market {
				b, can1 := r.market(begin, r.span.begin)
				begin.plusAll(delta, 1)
				e, can2 := r.market(begin, r.span.end)
				if !can1 || !can2 {
					if p.Exit != 1 {
						c.Fail("wrong report", "%s: status %d, although an amount cannot be converted", what, p.Exit)
					}
					return
				}
				e.plusAll(b, -1)
				delta = e
			}
			if r.tooBig(what, out, p, delta) {
				return
			}
			ok(what, p)
			if negate {
				d := tally{}
				d.plusAll(delta, -1)
				delta = d
			}
			sameLines(c, "wrong report", what, []string{delta.text()}, []string{sorted(out)})
		}
	case 7:
		args = append(opts, []string{"accounts", "a"}[c.N(2)])
		tree := c.N(2) == 1
		if tree {
			args = append(args, "-tree")
			c.Probe("tree")
		}
		return args, func(what, out string, p *proc) {
			c.Probe("accounts")
			if r.tooBig(what, out, p) {
				return
			}
			ok(what, p)
			var want []string
			for _, a := range l.Accounts {
				if tree {
					want = append(want, strings.Repeat(" ", 2*a.Level)+a.Name)
				} else {
					want = append(want, a.FullName())
				}
			}
			sameLines(c, "wrong report", what, want, strings.Split(strings.TrimSuffix(out, "\n"), "\n"))
		}
	case 8:
		if c.N(2) == 1 {
			args = append(opts, "print")
			return args, func(what, out string, p *proc) {
				c.Probe("print")
				if r.tooBig(what, out, p) {
					return
				}
				ok(what, p)
				got, _ := blocks(c, []byte(out))
				var want []string
				for i, t := range l.Transactions {
					if r.takes(t) && r.span.has(r.at[i]) {
						want = append(want, r.blocks[i])
					}
				}
				sameLines(c, "wrong report", what+": these are not the transactions asked for", want, got)
			}
		}
		args = append(opts, "stats")
		return args, func(what, out string, p *proc) {
			c.Probe("stats")
			if r.tooBig(what, out, p) {
				return
			}
			ok(what, p)
			n := 0
			var first, last time.Time
			for _, t := range l.Transactions {
				if r.takes(t) && r.span.has(t.Time) {
					if n++; n == 1 {
						first = t.Time
					}
					last = t.Time
				}
			}
			want := []string{"No transactions in ledger"}
			if n > 0 {
				days := int(last.UTC().Truncate(24*time.Hour).Sub(first.UTC().Truncate(24*time.Hour))/(24*time.Hour)) + 1
				var names []string
				for _, x := range l.Currencies {
					names = append(names, x.Name)
				}
				want = []string{
					fmt.Sprintf("Transaction span : %s to %s (%d days)", first.Format("2006-01-02"), last.Format("2006-01-02"), days),
					fmt.Sprintf("Transactions     : %d (%.1f per day)", n, float64(n)/float64(days)),
					fmt.Sprintf("Accounts         : %d", len(l.Accounts)),
					fmt.Sprintf("Commodities      : %d (%s)", len(l.Currencies), strings.Join(names, " ")),
					fmt.Sprintf("Market prices    : %d", len(l.Prices)),
				}
			}
			sameLines(c, "wrong report", what, want, strings.Split(strings.TrimSuffix(out, "\n"), "\n"))
		}
	case 9:
		c.Probe("tables")
		return opts, r.tables
	}
}

// tables judges the interactive tables.
func (r *rep) tables(what, out string, p *proc) {
	c, l := r.c, r.l
	if r.tooBig(what, out, p) {
		return
	}
	r.ok(what, p)
	want := []string{`table account balance`}
	for _, a := range l.Accounts {
		want = append(want, a.FullName()+" | "+r.until(a).text())
	}
	for i, a := range l.Accounts {
		if i >= 4 { // the stand-in for the terminal looks at so many
			break
		}
		bal := r.before(a)
		var rows []string
		for _, s := range a.Splits {
			if !r.takes(s.Transaction) || !r.span.has(*s.Time) {
				continue
			}
			bal.add(s.Value)
			value := s.Value.String()
			if value == "0" {
				value = ""
			}
			rows = append(rows, strings.Join([]string{s.Time.Format("02-01-2006"), s.Transaction.Description, value, bal.text()}, " | "))
		}
		want = append(want, fmt.Sprintf("account %s: %d splits", a.FullName(), len(rows)), "table date description value balance")
		want = append(want, rows...)
	}
	var got []string
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		switch {
		case strings.HasPrefix(line, "table "):
			got = append(got, "table "+strings.Join(cells(line), " "))
		case strings.HasPrefix(line, "row "):
			x := cells(line)
			if len(x) > 1 {
				x[len(x)-1] = sorted(x[len(x)-1])
			}
			for len(x) < 2 {
				x = append(x, "")
			}
			got = append(got, strings.Join(x, " | "))
		default:
			got = append(got, line)
		}
	}
	sameLines(c, "wrong report", what, want, got)
}

func joinOr0(l []string) string {
	if len(l) == 0 {
		return "0"
	}
	return strings.Join(l, ", ")
}

// cells reads the quoted strings of a line.
func cells(line string) (r []string) {
	for {
		i := strings.IndexByte(line, '"')
		if i < 0 {
			return r
		}
		line = line[i:]
		q, err := strconv.QuotedPrefix(line)
		if err != nil {
			return append(r, line)
		}
		s, _ := strconv.Unquote(q)
		r = append(r, s)
		line = line[len(q):]
	}
}

// bigSums gives some transactions amounts that fit, but whose sums may not.
func bigSums(c *engine.Ctx, j *jmodel.Journal) {
	var x *jmodel.Cur
	for _, k := range j.Curs {
		if !k.Implicit {
			x = k
		}
	}
	if x == nil {
		return
	}
	// each account once, so that its balance fits
	plus := []string{"Assets:Bank", "Assets:Cash", "Assets:Savings", "Expense:Food", "Expense:Rent"}
	minus := []string{"Income:Salary", "Income:Gifts", "Income:Other", "Equity", "Liabilities:Card"}
	for _, it := range j.Items {
		if it.Txn == nil || c.N(3) == 0 || len(plus) == 0 {
			continue
		}
		t := *it.Txn
		t.Splits = nil
		v := int64(c.Range(30, 91)) * 1_000_000_000 * jmodel.U
		for i, l := range []*[]string{&plus, &minus} {
			k := c.N(len(*l))
			t.Splits = append(t.Splits, &jmodel.Split{Acc: (*l)[k], Val: jmodel.Value{Amt: v - 2*int64(i)*v, Cur: x}})
			*l = append((*l)[:k:k], (*l)[k+1:]...)
		}
		if c.N(8) == 7 {
			d := t.Time.AddDate(0, 0, c.Range(1, 20))
			t.Splits[1].Date = &d
		}
		it.Txn = &t
	}
	c.Probe("big amounts")
}
