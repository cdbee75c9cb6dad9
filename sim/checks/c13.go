package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C13",
		Run: c13,
		Rule: "one run: in two thirds of them a journal without movements of other days grows on a simulated disk while the clock advances, and is opened and reported on at up to 3 instants; the final journal, asked as of each instant (queries, and up to 5 reports with that end date, written as a second, minute, day, month or year), must say what was seen then. " +
			"In the others, and for the final journal, text and PostgreSQL databases and movements of other days: balances at up to 8 instants, intervals and balance, transaction, income, delta and statistics reports with begin and end dates are compared with the plain sums of the movements before and between them; trivial: no transactions",
		Real:   []string{"accounting", "backend/ledger, backend/txtdb, backend/postgres", "cmd/ledger (main function)", "fmt, bufio, os, time, flag above the system calls"},
		Stub:   []string{"openat, read, write, close (simulated disk)", "clock, time zone, map iteration order", "github.com/lib/pq and the PostgreSQL server"},
		Kinds:  []string{"fragmented-reads", "read-short", "read-eintr", "open-eintr", "slow-call", "clock-jump"},
		Probes: []string{"grown", "observed before anything", "observed in between", "balances added up", "exactly at a transaction", "several movements in the account", "movements of other dates", "text database", "PostgreSQL", "begin date", "begin after the first", "nothing between", "several currencies in an account"},
	})
}

// span is a part of time as the arguments of a command say it.
type span struct {
	args       []string
	begin, end time.Time // zero if not said
}

func (s *span) has(t time.Time) bool {
	return (s.begin.IsZero() || !t.Before(s.begin)) && (s.end.IsZero() || !t.After(s.end))
}

// endOf is the last instant of what date wrote, and beginOf the first.
func beginOf(s string) time.Time {
	for _, f := range []string{"2006-01-02/15:04:05", "2006-01-02/15:04", "2006-01-02", "2006-01", "2006"} {
		if t, err := time.Parse(f, s); err == nil {
			return t
		}
	}
	panic(s)
}

func endOf(s string) time.Time {
	t := beginOf(s)
	switch len(s) {
	case 4:
		t = t.AddDate(1, 0, 0)
	case 7:
		t = t.AddDate(0, 1, 0)
	case 10:
		t = t.AddDate(0, 0, 1)
	default:
		return t
	}
	return t.Add(-time.Second)
}

func anySpan(c *engine.Ctx, f *facts, begin bool) *span {
	s := new(span)
	b, e := date(c, f.when(c)), date(c, f.when(c))
	if begin && c.N(3) > 0 {
		c.Probe("begin date")
		s.begin = beginOf(b)
		s.args = append(s.args, "-b", b)
	}
	if s.begin.IsZero() || c.N(3) > 0 {
		if !s.begin.IsZero() && endOf(e).Before(s.begin) {
			e = b
		}
		s.end = endOf(e)
		s.args = append(s.args, "-e", e)
	}
	return s
}

// sums adds up the movements of each account that an interval has.
func sums(l *accounting.Ledger, s *span) map[*accounting.Account]map[*accounting.Currency]int64 {
	r := map[*accounting.Account]map[*accounting.Currency]int64{}
	for _, a := range l.Accounts {
		r[a] = map[*accounting.Currency]int64{}
	}
	for _, t := range l.Transactions {
		for _, x := range t.Splits {
			if !s.has(*x.Time) || x.Value.Amount == 0 {
				continue
			}
			m := r[x.Account]
			m[x.Value.Currency] += x.Value.Amount
			if m[x.Value.Currency] == 0 {
				delete(m, x.Value.Currency)
			}
		}
	}
	return r
}

// shown are the amounts of a sum as a report shows them.
func shown(m map[*accounting.Currency]int64, sign int64) []string {
	var l []string
	for c, a := range m {
		l = append(l, accounting.Value{Amount: a * sign, Currency: c}.String())
	}
	sort.Strings(l)
	return l
}

func balanceOf(b accounting.Balance) []string {
	var l []string
	for _, v := range b {
		l = append(l, accounting.Value{Amount: v.Amount, Currency: v.Currency}.FullString())
	}
	sort.Strings(l)
	return l
}

// balanceRows reads a balance report: "name: amounts" of each account with any, and the total.
func balanceRows(c *engine.Ctx, out []byte) (rows []string, total []string) {
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	dash := -1
	for i, l := range lines {
		if strings.Trim(l, "-") == "" && (l != "" || i == len(lines)-2) {
			dash = i
		}
	}
	if dash < 0 {
		c.Fail("strange report", "no line of dashes in the balance report:\n%s", out)
	}
	width := len(lines[dash])
	var amounts []string
	for _, l := range lines[:dash] {
		r := []rune(l)
		if len(r) < width {
			c.Fail("strange report", "a line of the balance report is too short:\n%s", out)
		}
		amount := strings.TrimSpace(string(r[:width]))
		if amount == "" {
			continue
		}
		amounts = append(amounts, amount)
		if name := strings.TrimSpace(string(r[width:])); name != "" {
			sort.Strings(amounts)
			rows = append(rows, name+": "+strings.Join(amounts, ", "))
			amounts = nil
		}
	}
	for _, l := range lines[dash+1:] {
		total = append(total, strings.TrimSpace(l))
	}
	sort.Strings(total)
	return rows, total
}

// blocks are the transactions of an exported ledger, and their dates.
func blocks(c *engine.Ctx, out []byte) (text []string, at []time.Time) {
	in := false
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case l == "":
			in = false
		case l[0] >= '0' && l[0] <= '9':
			d, err := ledger.GetDate(strings.SplitN(l, " ", 2)[0])
			if err != nil {
				c.Fail("strange report", "%q: %v", l, err)
			}
			text, at, in = append(text, l), append(at, d), true
		case (l[0] == ' ' || l[0] == '\t') && in:
			text[len(text)-1] += "\n" + l
		default:
			in = false
		}
	}
	return text, at
}

func sameLines(c *engine.Ctx, kind, what string, want, got []string) {
	diff(c, kind, what, want, got, "expected", "reported")
}

func c13(c *engine.Ctx) {
	w := c.World()
	dbs := map[string]*pq.Database{}
	var source string
	var f *facts
	grow := false
	k := c.N(12)
	switch {
	case k < 8:
		grow = true
		source, f = growing(c, w)
	case k < 10:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 2, Includes: 2})
		put(w, j.Files())
		logFiles(c, j.Files())
		source, f = j.Root, factsOf(j)
	case k == 10:
		_, a, t := genTxt(c)
		putTxt(w, "/db", a, t)
		source = "txtdb:/db"
		c.Probe("text database")
	default:
		st := genPG(c)
		source = "postgres://db/x"
		dbs[source] = &pq.Database{State: st.pg()}
		c.Probe("PostgreSQL")
	}
	dial(dbs)
	o := open(w, anyEnv(c), source)
	must(c, o.Res, "opening "+source)
	if o.Err != nil {
		c.Trivial = true
		if grow {
			c.Fail("unexpected error", "%v", o.Err)
		}
		return
	}
	l := o.L
	c.Trivial = len(l.Transactions) == 0
	c.Note = fmt.Sprintf("%s: %d transactions, %d accounts, growing: %v", source, len(l.Transactions), len(l.Accounts), grow)
	if f == nil {
		f = factsIn(l)
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			f.times = append(f.times, *s.Time)
		}
	}
	for _, a := range l.Accounts {
		if a.Parent == nil && a.Name == accounting.TransferAccount.Name && len(a.Splits) > 0 {
			c.Probe("movements of other dates")
		}
	}
	// queries
	for n := c.Range(1, 8); n > 0; n-- {
		t := f.when(c)
		switch c.N(4) {
		case 1:
			t = t.Add(time.Nanosecond)
		case 2:
			t = t.Add(-time.Nanosecond)
		}
		t = t.In(zones[c.N(len(zones))])
		s := sums(l, &span{end: t})
		var got, want []string
		env := anyEnv(c)
		single(c, w, env, "queries", func() {
			for _, a := range l.Accounts {
				b := l.GetBalance(a, t)
				got = append(got, fmt.Sprint(a.FullName(), " ", balanceOf(b)))
			}
		})
		for _, a := range l.Accounts {
			var b accounting.Balance
			for x, v := range s[a] {
				b = append(b, accounting.Value{Amount: v, Currency: x})
			}
			if len(b) > 1 {
				c.Probe("several currencies in an account")
			}
			want = append(want, fmt.Sprint(a.FullName(), " ", balanceOf(b)))
		}
		sameLines(c, "wrong balance", fmt.Sprintf("balances at %v are not the sums of the movements until then", t), want, got)
		if c.N(3) == 2 { // a program adds them up
			which := make([]int, c.Range(1, 6))
			var total, copied accounting.Balance
			sum := map[*accounting.Currency]int64{}
			for i := range which {
				which[i] = c.N(2 * len(l.Accounts))
				for x, v := range s[l.Accounts[which[i]/2]] {
					if which[i]%2 == 1 {
						v = -v
					}
					sum[x] += v
				}
			}
			single(c, w, env, "sums", func() {
				for i, k := range which {
					b := l.GetBalance(l.Accounts[k/2], t)
					if i == len(which)/2 {
						copied = total.Dup()
						if i%2 == 0 {
							total, copied = copied, total
						}
					}
					if k%2 == 1 {
						total.SubBalance(b)
					} else {
						total.AddBalance(b)
					}
				}
			})
			var b accounting.Balance
			for x, v := range sum {
				if v != 0 {
					b = append(b, accounting.Value{Amount: v, Currency: x})
				}
			}
			c.Probe("balances added up")
			sameLines(c, "wrong balance", fmt.Sprintf("the sum of the balances of %v at %v", which, t), balanceOf(b), balanceOf(total))
			got = nil
			single(c, w, env, "queries", func() {
				for _, a := range l.Accounts {
					got = append(got, fmt.Sprint(a.FullName(), " ", balanceOf(l.GetBalance(a, t))))
				}
			})
			sameLines(c, "wrong balance", fmt.Sprintf("balances at %v after adding some up", t), want, got)
		}
		from, to := f.when(c), f.when(c)
		if c.N(8) > 0 && to.Before(from) {
			from, to = to, from
		}
		got, want = nil, nil
		single(c, w, env, "queries", func() {
			for _, t := range l.TransactionsInInterval(from, to) {
				got = append(got, fmt.Sprintf("%v %s %p", t.Time, t.Description, t))
			}
		})
		for _, t := range l.Transactions {
			if !t.Time.Before(from) && !t.Time.After(to) {
				want = append(want, fmt.Sprintf("%v %s %p", t.Time, t.Description, t))
			}
			if t.Time.Equal(from) || t.Time.Equal(to) {
				c.Probe("exactly at a transaction")
			}
		}
		if len(want) == 0 {
			c.Probe("nothing between")
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("wrong interval", "transactions from %v to %v: %d, but there are %d", from, to, len(got), len(want))
		}
		if len(l.Accounts) > 0 && c.N(3) == 2 {
			// all the transactions with movements in an account, once each
			a := l.Accounts[c.N(len(l.Accounts))]
			got, want = nil, nil
			single(c, w, env, "queries", func() {
				for _, t := range l.TransactionsInAccount(a.ID) {
					got = append(got, fmt.Sprintf("%v %s %p", t.Time, t.Description, t))
				}
			})
			for _, t := range l.Transactions {
				n := 0
				for _, s := range t.Splits {
					if s.Account.ID == a.ID {
						n++
					}
				}
				if n > 0 {
					want = append(want, fmt.Sprintf("%v %s %p", t.Time, t.Description, t))
				}
				if n > 1 {
					c.Probe("several movements in the account")
				}
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.Fail("wrong transactions", "transactions in account %s: %d, but there are %d", a.FullName(), len(got), len(want))
			}
		}
	}
	if dbs[source] != nil { // no program opens this one twice
		return
	}
	// reports
	whole := command(w, plainEnv(), "ledger", []string{"-f", source, "print"})
	if whole.Exit != 0 {
		c.Fail("unexpected error", "print: %v", whole)
	}
	all, at := blocks(c, whole.Out)
	if len(all) != len(l.Transactions) {
		c.Fail("strange report", "print shows %d of %d transactions", len(all), len(l.Transactions))
	}
	for n := c.Range(1, 5); n > 0; n-- {
		s := anySpan(c, f, true)
		if len(at) > 0 && !s.begin.IsZero() && at[0].Before(s.begin) {
			c.Probe("begin after the first")
		}
		clockJump(c, w)
		run := func(a ...string) (string, []byte) {
			args := append(append([]string{"-f", source}, s.args...), a...)
			p := command(w, anyEnv(c), "ledger", args)
			if p.Exit != 0 {
				c.Fail("unexpected error", "ledger %q: exit %d%s\n%s", args, p.Exit, p.Died, p.Err)
			}
			return fmt.Sprintf("ledger %q", args), p.Out
		}
		switch c.N(6) {
		case 0, 1: // balances: what lies before the begin is in the starting balance
			what, out := run([]string{"balance", "bal", "b"}[c.N(3)])
			rows, total := balanceRows(c, out)
			until := sums(l, &span{end: s.end})
			tot := map[*accounting.Currency]int64{}
			var want []string
			for _, a := range l.Accounts {
				if len(until[a]) > 0 {
					want = append(want, a.Name+": "+strings.Join(shown(until[a], 1), ", "))
				}
				for x, v := range until[a] {
					tot[x] += v
				}
			}
			for x, v := range tot {
				if v == 0 {
					delete(tot, x)
				}
			}
			sameLines(c, "wrong report", what, want, rows)
			w := shown(tot, 1)
			if len(w) == 0 {
				w = []string{"0"}
			}
			sameLines(c, "wrong report", what+": the total", w, total)
		case 2: // transactions
			what, out := run("print")
			got, _ := blocks(c, out)
			var want []string
			for i, t := range at {
				if s.has(t) {
					want = append(want, all[i])
				}
			}
			sameLines(c, "wrong report", what+": these are not the transactions of that time", want, got)
		case 3: // income
			what, out := run([]string{"incomestatement", "is"}[c.N(2)])
			in := sums(l, s)
			var got, want []string
			for _, line := range strings.Split(string(out), "\n") {
				if i := strings.Index(line, "||"); i > 0 {
					name := strings.TrimSpace(line[:i])
					amounts := strings.Split(strings.TrimSpace(line[i+2:]), ", ")
					if name != "Revenues" && name != "Expenses" && name != "" && name != "Net:" {
						sort.Strings(amounts)
						got = append(got, name+": "+strings.Join(amounts, ", "))
					}
				}
			}
			for _, side := range []struct {
				prefix string
				sign   int64
			}{{"Income:", -1}, {"Expense:", 1}} {
				for _, a := range l.Accounts {
					if !strings.HasPrefix(a.FullName(), side.prefix) {
						continue
					}
					any := false
					for _, x := range a.Splits {
						any = any || s.has(*x.Time)
					}
					if any {
						v := shown(in[a], side.sign)
						if len(v) == 0 {
							v = []string{"0"}
						}
						want = append(want, a.FullName()+": "+strings.Join(v, ", "))
					}
				}
			}
			sameLines(c, "wrong report", what, want, got)
		case 4: // how much one account changed
			name := f.part(c)
			what, out := run("delta", name)
			in := sums(l, s)
			tot := map[*accounting.Currency]int64{}
			for _, a := range l.Accounts {
				if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(name)) {
					for x, v := range in[a] {
						tot[x] += v
						if tot[x] == 0 {
							delete(tot, x)
						}
					}
				}
			}
			want := shown(tot, 1)
			if len(want) == 0 {
				want = []string{"0"}
			}
			got := strings.Split(strings.TrimSuffix(string(out), "\n"), ", ")
			sort.Strings(got)
			sameLines(c, "wrong report", what, want, got)
		case 5:
			what, out := run("stats")
			n := 0
			var first, last time.Time
			for _, t := range at {
				if s.has(t) {
					if n == 0 {
						first = t
					}
					last = t
					n++
				}
			}
			want := []string{"No transactions in ledger"}
			if n > 0 {
				days := int(last.Truncate(24*time.Hour).Sub(first.Truncate(24*time.Hour))/(24*time.Hour)) + 1
				want = []string{fmt.Sprintf("Transaction span : %s to %s (%d days)", first.Format("2006-01-02"), last.Format("2006-01-02"), days),
					fmt.Sprintf("Transactions     : %d (%.1f per day)", n, float64(n)/float64(days))}
			}
			got := strings.Split(string(out), "\n")
			sameLines(c, "wrong report", what, want, got[:len(want)])
		}
	}
	l.Close()
}

// clockJump sets the clock somewhere else: reports about the past must not care.
func clockJump(c *engine.Ctx, w *simos.World) {
	if c.N(2) == 1 {
		anyClock(c, w)
		w.Fire("clock-jump")
	}
}

// growing lets a journal grow, looks at it from time to time, and compares
// what was seen with what the final one says about that time.
func growing(c *engine.Ctx, w *simos.World) (string, *facts) {
	j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 8, MaxPrices: 3, NoDates: true, NoImplicit: true, NoUnnamed: c.N(3) > 0})
	c.Probe("grown")
	// all accounts are declared from the beginning
	known := map[string]bool{}
	mark := func(full string) {
		for known[full] = true; strings.Contains(full, ":"); known[full] = true {
			full = full[:strings.LastIndexByte(full, ':')]
		}
	}
	var head, rest, late []*jmodel.Item
	for _, it := range j.Items {
		if it.Acc != nil {
			mark(it.Acc.Full)
		}
	}
	for _, it := range j.Items {
		switch {
		case it.Txn != nil:
			for _, s := range it.Txn.Splits {
				if !known[s.Acc] {
					mark(s.Acc)
					late = append(late, &jmodel.Item{Acc: &jmodel.Acc{Full: s.Acc}})
				}
			}
			rest = append(rest, it)
		case it.Price != nil, len(rest) > 0:
			rest = append(rest, it)
		default:
			head = append(head, it)
		}
	}
	j.Items = append(append(head, late...), rest...)
	full := j.Items
	f := factsOf(j)
	path := simos.Abs(j.Root)

	type view struct {
		s        *span
		balances []string
		txns     []string
		cmds     [][]string
		procs    []*proc
	}
	var views []*view
	for n := c.Range(1, 3); n > 0; n-- {
		views = append(views, &view{s: anySpan(c, f, false)})
	}
	sort.SliceStable(views, func(i, k int) bool { return views[i].s.end.Before(views[k].s.end) })
	balances := func(l *accounting.Ledger, t time.Time) (r []string) {
		for _, a := range l.Accounts {
			r = append(r, fmt.Sprint(a.FullName(), " ", balanceOf(l.GetBalance(a, t))))
		}
		return r
	}
	describe := func(ts []*accounting.Transaction) (r []string) {
		for _, t := range ts {
			r = append(r, canon.Time(t.Time)+" "+t.Description)
			for _, s := range t.Splits {
				r = append(r, "  "+s.Account.FullName()+" "+s.Value.FullString()+" "+fmt.Sprint(balanceOf(s.Balance)))
			}
		}
		return r
	}
	far := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC)
	for _, v := range views {
		// the journal as it is at that time
		j.Items = nil
		seen := 0
		for _, it := range full {
			switch {
			case it.Txn != nil && it.Txn.Time.After(v.s.end), it.Price != nil && it.Price.Time.After(v.s.end):
				continue
			case it.Txn != nil:
				seen++
			}
			j.Items = append(j.Items, it)
		}
		if seen == 0 {
			c.Probe("observed before anything")
		} else if seen < len(rest) {
			c.Probe("observed in between")
		}
		files := j.Files()
		logFiles(c, files)
		put(w, files)
		w.Clock = v.s.end.Add(time.Duration(c.N(2)) * time.Millisecond)
		fragment(c, w)
		w.Fault = softPlan(c, map[string]int{"open": 1, "read": 3}).hook
		l := mustOpen(c, w, anyEnv(c), j.Root)
		w.Fault = nil
		single(c, w, anyEnv(c), "queries", func() {
			v.balances = balances(l, time.Time{})
			v.txns = describe(l.TransactionsInInterval(time.Time{}, far))
		})
		for n := c.N(6); n > 0; n-- {
			var a []string
			for _, o := range f.report(c, false) { // without dates and market values
				a = append(a, o)
			}
			a = undated(a)
			v.cmds = append(v.cmds, a)
			p := command(w, anyEnv(c), "ledger", append([]string{"-f", j.Root}, a...))
			v.procs = append(v.procs, p)
		}
		l.Close()
	}
	j.Items = full
	files := j.Files()
	logFiles(c, files)
	put(w, files)
	if w.Nodes[path] == nil {
		panic("no journal")
	}
	w.Clock = w.Clock.AddDate(0, c.N(30), 0)
	l := mustOpen(c, w, anyEnv(c), j.Root)
	for _, v := range views {
		var bals, ts []string
		single(c, w, anyEnv(c), "queries", func() {
			bals = balances(l, v.s.end)
			ts = describe(l.TransactionsInInterval(time.Time{}, v.s.end))
		})
		diff(c, "another past", fmt.Sprintf("balances at %v are not what they were then", v.s.end), v.balances, bals, "seen then", "reported later")
		diff(c, "another past", fmt.Sprintf("transactions until %v are not what they were then", v.s.end), v.txns, ts, "seen then", "reported later")
		for i, a := range v.cmds {
			p := v.procs[i]
			clockJump(c, w)
			args := append(append([]string{"-f", j.Root}, v.s.args...), a...)
			q := command(w, anyEnv(c), "ledger", args)
			what := fmt.Sprintf("ledger %q does not say what was said at that time", args)
			if p.Exit != q.Exit {
				c.Fail("another past", "%s: status %d then, %d now", what, p.Exit, q.Exit)
			}
			x, y := pastLines(a, p.Out), pastLines(a, q.Out)
			diff(c, "another past", what, x, y, "then", "later")
		}
	}
	l.Close()
	return j.Root, f
}

// undated removes from a command what makes it depend on dates or prices.
func undated(a []string) (r []string) {
	for i := 0; i < len(a); i++ {
		switch {
		case a[i] == "-b" || a[i] == "-e":
			i++
		case a[i] == "-market":
		case a[i] == "price":
			return append(r, "accounts")
		default:
			r = append(r, a[i])
		}
	}
	return r
}

// pastLines are the lines of a report that do not mention what comes later:
// prices and currencies are listed as they are in the end.
func pastLines(cmd []string, out []byte) []string {
	l := strings.Split(string(out), "\n")
	for _, a := range cmd {
		switch a {
		case "stats":
			if len(l) > 3 {
				l = l[:3]
			}
			return l
		case "print":
			var r []string
			in := false
			for _, x := range l {
				if strings.HasPrefix(x, "P ") || strings.HasPrefix(x, "D ") {
					in = true
					continue
				}
				if in && strings.HasPrefix(x, "\t") {
					continue
				}
				in = false
				r = append(r, x)
			}
			return r
		}
	}
	return l
}
