package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"

	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C14",
		Run: c14,
		Rule: "one run: a journal with up to 12 prices; up to 12 conversions at instants at, between, before and after the prices, in any zone, are compared with a model of the statement in rational arithmetic (straight line between the neighbouring prices of the pair, or a chain of pairs if it has none); " +
			"then 2 to 6 price and market reports (cmd/ledger) or momentum reports (cmd/muscular) run on a machine whose clock is set to, jumps between and advances (slow disk, slow output) over such instants, with and without an end date; what a report without end date says must be the conversion at the clock when it ran, and a report with an end date the conversion at that date, with any clock; trivial: no prices",
		Real:   []string{"accounting", "backend/ledger", "cmd/ledger, cmd/muscular (main functions)", "fmt, bufio, os, time, flag, math/big"},
		Stub:   []string{"clock, time zone, map iteration order", "openat, read, write, close (simulated disk and standard output)"},
		Kinds:  []string{"clock-jump", "clock-back", "slow-call", "slow-output", "fragmented-reads", "read-short", "read-eintr", "open-eintr"},
		Probes: []string{"at a price", "between two prices", "before the first price", "after the last price", "chain of prices", "not convertible", "does not fit", "between prices centuries apart", "prices at the same instant", "clock changed while it ran", "clock equal to a price", "market balance", "market delta", "momentum", "no momentum", "end date is the clock", "several reports in one invocation", "same clock again"},
	})
}

// span of amounts: rounding is not part of the property.
type amounts struct{ lo, hi *big.Rat }

func rat(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

// at multiplies amounts by a price that may be off by one unit.
func (x amounts) at(p amounts) amounts {
	var r amounts
	for _, a := range []*big.Rat{x.lo, x.hi} {
		for _, b := range []*big.Rat{p.lo, p.hi} {
			v := new(big.Rat).Mul(a, b)
			v.Quo(v, rat(accounting.U))
			if r.lo == nil || v.Cmp(r.lo) < 0 {
				r.lo = v
			}
			if r.hi == nil || v.Cmp(r.hi) > 0 {
				r.hi = v
			}
		}
	}
	r.lo = new(big.Rat).Sub(r.lo, rat(1))
	r.hi = new(big.Rat).Add(r.hi, rat(1))
	return r
}

func (x amounts) has(v int64) bool { return x.lo.Cmp(rat(v)) <= 0 && x.hi.Cmp(rat(v)) >= 0 }

func (x amounts) String() string {
	f := func(r *big.Rat) string { return new(big.Rat).Quo(r, rat(accounting.U)).FloatString(9) }
	return f(x.lo) + ".." + f(x.hi)
}

// pricesAt are the prices of one currency in another at an instant: more than
// one if several were declared for the same instant.
func pricesAt(c *engine.Ctx, l *accounting.Ledger, from, to *accounting.Currency, when time.Time) (r []amounts, how string) {
	var same, prev, next []*accounting.Price
	for _, p := range l.Prices {
		if p.Currency != from || p.Value.Currency != to {
			continue
		}
		switch {
		case p.Time.Equal(when):
			same = append(same, p)
		case p.Time.Before(when):
			if len(prev) > 0 && p.Time.After(prev[0].Time) {
				prev = nil
			}
			if len(prev) == 0 || p.Time.Equal(prev[0].Time) {
				prev = append(prev, p)
			}
		default:
			if len(next) > 0 && p.Time.Before(next[0].Time) {
				next = nil
			}
			if len(next) == 0 || p.Time.Equal(next[0].Time) {
				next = append(next, p)
			}
		}
	}
	if len(same)+len(prev)+len(next) > 1 && (len(same) > 1 || len(prev) > 1 || len(next) > 1) {
		c.Probe("prices at the same instant")
	}
	exactly := func(l []*accounting.Price) {
		for _, p := range l {
			r = append(r, amounts{rat(p.Value.Amount), rat(p.Value.Amount)})
		}
	}
	switch {
	case len(same) > 0:
		exactly(same)
		return r, "at a price"
	case len(prev) == 0 && len(next) == 0:
		return nil, ""
	case len(next) == 0:
		exactly(prev)
		return r, "after the last price"
	case len(prev) == 0:
		exactly(next)
		return r, "before the first price"
	}
	part := new(big.Rat).SetFrac(span64(prev[0].Time, when), span64(prev[0].Time, next[0].Time))
	for _, p := range prev {
		for _, n := range next {
			v := new(big.Rat).Sub(rat(n.Value.Amount), rat(p.Value.Amount))
			v.Mul(v, part)
			v.Add(v, rat(p.Value.Amount))
			r = append(r, amounts{new(big.Rat).Sub(v, rat(1)), new(big.Rat).Add(v, rat(1))})
		}
	}
	return r, "between two prices"
}

// span64 is the time between two instants in nanoseconds.
func span64(a, b time.Time) *big.Int {
	r := big.NewInt(b.Unix() - a.Unix())
	r.Mul(r, big.NewInt(1e9))
	return r.Add(r, big.NewInt(int64(b.Nanosecond()-a.Nanosecond())))
}

// converted gives the amounts that a value may be converted to, and whether
// no way to do it exists, and whether there is no way to fail.
func converted(c *engine.Ctx, l *accounting.Ledger, v accounting.Value, when time.Time, to *accounting.Currency) (r []amounts, how string, sure bool) {
	start := amounts{rat(v.Amount), rat(v.Amount)}
	if v.Currency == to {
		return []amounts{start}, "the same currency", true
	}
	if ps, how := pricesAt(c, l, v.Currency, to, when); len(ps) > 0 {
		for _, p := range ps {
			r = append(r, start.at(p))
		}
		return r, how, true
	}
	// chains of prices
	sure = true
	var walk func(x []amounts, cur *accounting.Currency, seen []*accounting.Currency)
	walk = func(x []amounts, cur *accounting.Currency, seen []*accounting.Currency) {
		if cur == to {
			r = append(r, x...)
			return
		}
		seen = append(seen[:len(seen):len(seen)], cur)
		end := true
		done := map[*accounting.Currency]bool{}
	price:
		for _, p := range l.Prices {
			n := p.Value.Currency
			if p.Currency != cur || done[n] {
				continue
			}
			done[n] = true
			for _, s := range seen {
				if s == n {
					continue price
				}
			}
			end = false
			ps, _ := pricesAt(c, l, cur, n, when)
			var y []amounts
			for _, a := range x {
				for _, p := range ps {
					y = append(y, a.at(p))
				}
			}
			if !fits(y) {
				sure = false
			}
			walk(y, n, seen)
		}
		if end {
			sure = false
		}
	}
	walk([]amounts{start}, v.Currency, nil)
	return r, "chain of prices", sure
}

// fits tells if everything that a conversion may compute fits.
func fits(r []amounts) bool {
	max := rat(jmodel.Max)
	min := rat(-jmodel.Max)
	for _, a := range r {
		if a.lo.Cmp(min) < 0 || a.hi.Cmp(max) > 0 {
			return false
		}
	}
	return true
}

type reportAt struct {
	args []string // options and command
	end  time.Time
	said string // how the end is written
}

func c14(c *engine.Ctx) {
	cfg := jmodel.Config{MaxTxns: 5, MaxPrices: 12, Includes: 1, NoImplicit: c.N(4) > 0, NoUnnamed: c.N(2) == 0, NoComments: true}
	if c.N(3) > 0 {
		cfg.Currencies = 2 + c.N(3)
	}
	j := jmodel.Gen(c.Tape, cfg)
	var ps []*jmodel.Price
	for _, it := range j.Items {
		if it.Price != nil {
			ps = append(ps, it.Price)
		}
	}
	apart := c.N(5) == 4 && len(ps) > 1 // some of the prices are from other centuries
	if apart {
		k := c.N(len(ps) + 1)
		past, future := 50+c.N(600), 50+c.N(900)
		for i, p := range ps {
			if i < k {
				p.Time = p.Time.AddDate(-past, 0, 0)
			}
		}
		k += c.N(len(ps) + 1 - k)
		for _, p := range ps[k:] {
			p.Time = p.Time.AddDate(future, 0, 0)
		}
		for i, p := range ps { // not every year has a 29th of February
			if i > 0 && p.Time.Before(ps[i-1].Time) {
				p.Time = ps[i-1].Time
			}
		}
	}
	big := c.N(6) == 5 // amounts near the limits
	if big {
		for _, p := range ps {
			if c.N(2) == 1 {
				if p.Val.Amt = huge(c.N); p.Val.Amt < 0 {
					p.Val.Amt = -p.Val.Amt
				}
			}
		}
	}
	files := j.Files()
	logFiles(c, files)
	w := c.World()
	put(w, files)
	f := factsOf(j)
	l := mustOpen(c, w, plainEnv(), j.Root)
	c.Note = noteJournal(j, files)
	if apart {
		c.Note += ", prices of other centuries"
	}
	if big {
		c.Note += ", huge prices"
	}
	c.Trivial = len(l.Prices) == 0
	times := f.times
	if len(l.Prices) > 0 && c.N(4) > 0 {
		times = nil
		for _, p := range l.Prices {
			times = append(times, p.Time)
		}
	}
	f.times = times
	when := func() time.Time {
		if c.N(4) == 3 && len(times) > 1 { // between two of them
			a, b := times[c.N(len(times))], times[c.N(len(times))]
			n := int64(2 + c.N(3))
			return time.Unix(a.Unix()+(b.Unix()-a.Unix())/n, int64(a.Nanosecond())).UTC()
		}
		t := f.when(c)
		switch c.N(5) {
		case 3:
			t = t.Add(time.Nanosecond)
		case 4:
			t = t.Add(-time.Nanosecond)
		}
		return t
	}
	names := func(x *accounting.Currency) string {
		if x == nil {
			return "nothing"
		}
		return fmt.Sprintf("%q", x.Name)
	}
	// convert asks the ledger, and checks the answer
	convert := func(v accounting.Value, t time.Time, to *accounting.Currency) (accounting.Value, bool) {
		var got accounting.Value
		var err error
		single(c, w, plainEnv(), "conversion", func() { got, err = l.Convert(v, t, to) })
		what := fmt.Sprintf("%d of %s in %s at %v", v.Amount, names(v.Currency), names(to), t)
		if to == nil {
			if err == nil {
				c.Fail("wrong conversion", "%s: no error", what)
			}
			return got, false
		}
		want, how, sure := converted(c, l, v, t, to)
		if err != nil {
			c.Probe("not convertible")
			if sure && !fits(want) {
				c.Probe("does not fit")
			} else if sure {
				c.Fail("wrong conversion", "%s: %v, but there are prices (%s)", what, err, how)
			}
			return got, false
		}
		c.Probe(how)
		if apart && how == "between two prices" {
			c.Probe("between prices centuries apart")
		}
		if len(want) == 0 {
			c.Fail("wrong conversion", "%s: %d, but there is no price", what, got.Amount)
		}
		if got.Currency != to {
			c.Fail("wrong conversion", "%s gives an amount of %s", what, names(got.Currency))
		}
		for _, x := range want {
			if x.has(got.Amount) {
				return got, true
			}
		}
		c.Fail("wrong conversion", "%s (%s): %s, expected %v", what, how, accounting.Value{Amount: got.Amount}.FullString(), want)
		return got, false
	}
	for n := c.Range(1, 12); n > 0; n-- {
		from, to := someCur(l, c.N(8)), someCur(l, c.N(8))
		if c.N(3) > 0 {
			to = l.DefaultCurrency
		}
		if len(l.Prices) > 0 && c.N(3) > 0 {
			p := l.Prices[c.N(len(l.Prices))]
			from, to = p.Currency, p.Value.Currency
		}
		if from == nil {
			continue
		}
		v := accounting.Value{Amount: accounting.U, Currency: from}
		switch c.N(4) {
		case 1:
			v.Amount = int64(c.Range(-100000, 100000)) * 1000000
		case 2:
			v.Amount = int64(c.Range(-1000, 1000))
		}
		if big && c.N(2) == 1 {
			v.Amount = huge(c.N)
		}
		convert(v, when().In(zones[c.N(len(zones))]), to)
	}

	// reports
	last := time.Time{}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Time.After(last) {
				last = *s.Time
			}
		}
	}
	// price gives what a price report says, and whether it can be made
	price := func(names []string, batch bool, t time.Time) (out string, ok bool) {
		for _, n := range names {
			var cur *accounting.Currency
			for _, x := range l.Currencies {
				if x.Name == n {
					cur = x
					break
				}
			}
			if cur == nil {
				if l.DefaultCurrency == nil || n != l.DefaultCurrency.Name {
					return out, false
				}
				return out, false // another currency of that name
			}
			v, ok := convert(accounting.Value{Amount: accounting.U, Currency: cur}, t, l.DefaultCurrency)
			if !ok {
				return out, false
			}
			if batch {
				out += v.FullString() + "\n"
			} else {
				out += fmt.Sprintf("Price for %s: %s\n", n, v.FullString())
			}
		}
		return out, true
	}
	add := func(m map[*accounting.Currency]int64, v accounting.Value) {
		m[v.Currency] += v.Amount
		if m[v.Currency] == 0 {
			delete(m, v.Currency)
		}
	}
	text := func(m map[*accounting.Currency]int64) string {
		s := shown(m, 1)
		if len(s) == 0 {
			return "0"
		}
		return strings.Join(s, ", ")
	}
	// balance gives the rows of a balance report, and its total
	balance := func(curs []string, t time.Time) (rows []string, total string, ok bool) {
		tot := map[*accounting.Currency]int64{}
		sum := sums(l, &span{})
		for _, a := range l.Accounts {
			m := map[*accounting.Currency]int64{}
			for _, x := range someOrder(l, sum[a]) {
				in := len(curs) == 0
				for _, n := range curs {
					in = in || n == x.Name
				}
				if !in {
					continue
				}
				v, ok := convert(accounting.Value{Amount: sum[a][x], Currency: x}, t, l.DefaultCurrency)
				if !ok {
					return nil, "", false
				}
				add(m, v)
				add(tot, v)
			}
			if len(m) > 0 {
				rows = append(rows, a.Name+": "+text(m))
			}
		}
		return rows, text(tot), true
	}
	// delta gives what a delta report says
	delta := func(part string, begin, t time.Time) (out string, ok bool) {
		before, all := map[*accounting.Currency]int64{}, map[*accounting.Currency]int64{}
		sum := sums(l, &span{})
		var pre map[*accounting.Account]map[*accounting.Currency]int64
		if !begin.IsZero() {
			pre = sums(l, &span{end: begin.Add(-1)})
		}
		for _, a := range l.Accounts {
			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(part)) {
				for x, v := range sum[a] {
					add(all, accounting.Value{Amount: v, Currency: x})
				}
				for x, v := range pre[a] {
					add(before, accounting.Value{Amount: v, Currency: x})
				}
			}
		}
		m := map[*accounting.Currency]int64{}
		for _, x := range someOrder(l, all) {
			v, ok := convert(accounting.Value{Amount: all[x], Currency: x}, t, l.DefaultCurrency)
			if !ok {
				return "", false
			}
			add(m, v)
		}
		for _, x := range someOrder(l, before) {
			v, ok := convert(accounting.Value{Amount: before[x], Currency: x}, begin, l.DefaultCurrency)
			if !ok {
				return "", false
			}
			v.Amount = -v.Amount
			add(m, v)
		}
		return text(m), true
	}

	var past map[string]string // report and clock -> what it said
	past = map[string]string{}
	setClock := func(t time.Time) {
		w.Fire("clock-jump")
		if t.Before(w.Clock) {
			w.Fire("clock-back")
		}
		w.Clock = t
		for _, p := range l.Prices {
			if p.Time.Equal(t) {
				c.Probe("clock equal to a price")
			}
		}
	}
	// visited are the instants the clock showed while a program ran, and where
	// its output was then.
	type instant struct {
		at  time.Time
		out int // this much of the output was written before, -1 if nothing is being written
	}
	var visited []instant
	run := func(name string, args []string, slow bool) *proc {
		w.Fault = nil
		fragment(c, w)
		var p *plan
		w.Counts = map[string]int{}
		if slow {
			p = softPlan(c, map[string]int{"open": len(files), "read": 2 * len(files)})
			for n := c.N(3); n > 0; n-- {
				x := &fault{op: "write", n: c.N(6), kind: "slow-output"}
				x.out.Kind, x.out.Delay = x.kind, time.Duration(1+c.N(100))*time.Hour*24
				p.faults = append(p.faults, x)
			}
		}
		start := len(w.Stdout)
		visited = []instant{{w.Clock, -1}}
		w.Fault = func(a simos.Access) (o simos.Outcome) {
			x := instant{w.Clock, -1}
			if a.Op == "write" && a.FD == 1 {
				x.out = len(w.Stdout) - start
			}
			visited = append(visited, x)
			if p != nil {
				o = p.hook(a)
			}
			return o
		}
		full := append([]string{"-f", j.Root}, args...)
		r := command(w, anyEnv(c), name, full)
		w.Fault = nil
		visited = append(visited, instant{w.Clock, -1})
		if r.Died != "" {
			c.Fail("panic", "%s %q: %s", name, full, r.Died)
		}
		return r
	}
	// clocks are the instants at which a report that begins at a place of the
	// output may have been made.
	clocks := func(first bool, out int) (r []time.Time) {
		for i, v := range visited {
			if first {
				if len(r) == 0 || !r[len(r)-1].Equal(v.at) {
					r = append(r, v.at)
				}
				if v.out >= 0 {
					break
				}
				continue
			}
			if v.out >= 0 && v.out <= out {
				last := true
				for _, y := range visited[i+1:] {
					if y.out >= 0 && y.out <= out {
						last = false
					}
				}
				if last {
					r = []time.Time{v.at}
					// a report that fails writes nothing there
					if v.out < out && i+1 < len(visited) && !visited[i+1].at.Equal(v.at) {
						r = append(r, visited[i+1].at)
					}
				}
			}
		}
		if len(r) > 1 {
			c.Probe("clock changed while it ran")
		}
		return r
	}
	someNames := func(max int) (r []string) {
		for n := c.Range(1, max); n > 0; n-- {
			r = append(r, f.cur(c))
		}
		return r
	}
	for n := c.Range(2, 6); n > 0; n-- {
		now := when()
		if c.N(5) == 4 {
			anyClock(c, w)
			now = w.Clock
		}
		said := date(c, when())
		end := endOf(said)
		// an explicit end date, with any clock
		explicit := c.N(3) == 2
		var opts []string
		if explicit {
			opts = []string{"-e", said}
		}
		slow := c.N(3) == 2
		ends := func(first bool, out int) []time.Time {
			if explicit {
				return []time.Time{end}
			}
			return clocks(first, out)
		}
		setClock(now)
		// oneOf finds out if a report says what it should at one of some instants
		oneOf := func(what string, p *proc, ts []time.Time, try func(t time.Time) (string, bool), norm func(string) string) {
			var wants []string
			for _, t := range ts {
				want, ok := try(t)
				if !ok {
					if p.Exit != 0 {
						return
					}
					want = "a failure"
				} else if p.Exit == 0 && norm(string(p.Out)) == want {
					return
				}
				wants = append(wants, fmt.Sprintf("at %v: %s", t, want))
			}
			c.Fail("wrong report", "%s, clock %v: status %d, %s\nexpected %s", what, now, p.Exit, norm(string(p.Out)), strings.Join(wants, "\nor "))
		}
		id := func(s string) string { return s }
		k := c.N(8)
		if big {
			k %= 3 // totals may not fit
		}
		switch k {
		case 0, 1, 2:
			ns := someNames(2)
			batch := c.N(4) == 3
			if batch {
				opts = append(opts, "-batch")
			}
			args := append(append(opts[:len(opts):len(opts)], "price"), ns...)
			p := run("ledger", args, slow)
			what := fmt.Sprintf("ledger %q", args)
			oneOf(what, p, ends(true, 0), func(t time.Time) (string, bool) { return price(ns, batch, t) }, id)
			if !slow {
				key := fmt.Sprint(args, now)
				if explicit {
					key = fmt.Sprint(args)
				}
				if old, ok := past[key]; ok && old != string(p.Out) {
					c.Fail("wrong report", "%s says %q, but said %q", what, p.Out, old)
				}
				past[key] = string(p.Out)
				// and again
				if c.N(2) == 1 {
					setClock(when())
					run("ledger", append([]string{"price"}, ns...), false)
					if explicit {
						setClock(when())
					} else {
						setClock(now)
					}
					c.Probe("same clock again")
					q := run("ledger", args, false)
					if string(q.Out) != string(p.Out) || q.Exit != p.Exit {
						c.Fail("wrong report", "%s says %q, status %d, but said %q, status %d", what, q.Out, q.Exit, p.Out, p.Exit)
					}
				}
				// the same, said otherwise
				if c.N(2) == 1 {
					var other []string
					if explicit {
						other = args[2:]
						setClock(end)
					} else {
						if now.Nanosecond() != 0 {
							continue
						}
						other = append([]string{"-e", now.UTC().Format("2006-01-02/15:04:05")}, args...)
						setClock(when())
					}
					c.Probe("end date is the clock")
					q := run("ledger", other, false)
					if string(q.Out) != string(p.Out) || q.Exit != p.Exit {
						c.Fail("wrong report", "%s at %v says %q, status %d; %q at %v says %q, status %d", what, now, p.Out, p.Exit, other, w.Clock, q.Out, q.Exit)
					}
				}
			}
		case 3: // several reports in one invocation
			c.Probe("several reports in one invocation")
			var reports [][]string
			var args []string
			for n := c.Range(2, 4); n > 0; n-- {
				ns := someNames(2)
				reports = append(reports, ns)
				if len(args) > 0 {
					args = append(args, "--")
				}
				args = append(append(append(args, opts...), "price"), ns...)
			}
			p := run("ledger", args, slow)
			what := fmt.Sprintf("ledger %q", args)
			out := string(p.Out)
			at := 0
			failed := false
			for i, ns := range reports {
				var wants []string
				ok := false
				for _, t := range ends(i == 0, at) {
					want, can := price(ns, false, t)
					if !can {
						if p.Exit != 0 && strings.HasPrefix(want, out[at:]) {
							ok, failed = true, true
							break
						}
						want += " and a failure"
					} else if strings.HasPrefix(out[at:], want) {
						ok = true
						at += len(want)
						break
					}
					wants = append(wants, fmt.Sprintf("at %v: %s", t, want))
				}
				if !ok {
					c.Fail("wrong report", "%s, clock %v, command %d: status %d, %q\nexpected %s", what, now, i+1, p.Exit, out[at:], strings.Join(wants, "\nor "))
				}
				if failed {
					break
				}
			}
			if !failed && (at != len(out) || p.Exit != 0) {
				c.Fail("wrong report", "%s: status %d, and %q after the expected output", what, p.Exit, out[at:])
			}
		case 4, 5:
			c.Probe("market balance")
			if explicit && end.Before(last) { // movements are left out: see C13
				explicit, opts = false, nil
			}
			var curs []string
			args := append(opts[:len(opts):len(opts)], "-market")
			if c.N(4) == 3 {
				curs = someNames(1)
				args = append(args, "-currency", curs[0])
			}
			total := c.N(4) == 3
			if total {
				args = append(args, "-total")
			}
			args = append(args, "bal")
			p := run("ledger", args, slow)
			what := fmt.Sprintf("ledger %q", args)
			oneOf(what, p, ends(true, 0), func(t time.Time) (string, bool) {
				rows, tot, ok := balance(curs, t)
				if total {
					rows = nil
				}
				return strings.Join(append(rows, "total "+tot), "\n"), ok
			}, func(s string) string {
				if p.Exit != 0 {
					return s
				}
				if total {
					return "total " + joined(strings.Split(strings.TrimSuffix(s, "\n"), "\n"))
				}
				rows, tot := balanceRows(c, []byte(s))
				return strings.Join(append(rows, "total "+joined(tot)), "\n")
			})
		case 6:
			c.Probe("market delta")
			if explicit && end.Before(last) {
				explicit, opts = false, nil
			}
			begin := time.Time{}
			args := append(opts[:len(opts):len(opts)], "-market")
			if c.N(2) == 1 {
				b := date(c, when())
				if !explicit || !endOf(said).Before(beginOf(b)) {
					begin = beginOf(b)
					args = append(args, "-b", b)
				}
			}
			part := strings.Split(f.accs[c.N(len(f.accs))], ":")[0]
			args = append(args, "delta", part)
			p := run("ledger", args, slow)
			what := fmt.Sprintf("ledger %q", args)
			oneOf(what, p, ends(true, 0), func(t time.Time) (string, bool) { return delta(part, begin, t) }, func(s string) string {
				return joined(strings.Split(strings.TrimSuffix(s, "\n"), ", "))
			})
		case 7:
			c.Probe("momentum")
			ns := someNames(2)
			m, months := c.Range(1, 3), c.Range(0, 4)
			days := c.Range(0, 40)
			period := fmt.Sprintf("%dm%dd", months, days)
			switch c.N(6) {
			case 4:
				days, period = 0, fmt.Sprintf("%dm", months)
			case 5:
				months, period = 0, fmt.Sprintf("%dd", days)
			}
			args := append(opts[:len(opts):len(opts)], "-measures", fmt.Sprint(m))
			if c.N(8) == 7 { // the default
				months, days = 3, 0
			} else {
				args = append(args, "-measureperiod", period)
			}
			// these do not change prices
			if c.N(3) == 2 {
				args = append(args, "-b", date(c, when()))
			}
			if c.N(4) == 3 {
				args = append(args, "-period", []string{"1m0d", "0m7d", "2m", "40d"}[c.N(4)])
			}
			if c.N(4) == 3 {
				args = append(args, [][]string{{"-batch"}, {"-simulate"}, {"-num", "2"}, {"-divide", "0.5"}}[c.N(4)]...)
			}
			args = append(args, ns...)
			p := run("muscular", args, slow)
			what := fmt.Sprintf("muscular %q", args)
			got := strings.Split(strings.TrimSuffix(string(p.Out), "\n"), "\n")
			ok := false
			var wants []string
			for _, t := range ends(true, 0) {
				all := len(got) == len(ns) && p.Exit == 0
				missing := ""
				for i, n := range ns {
					var cur *accounting.Currency
					for _, x := range l.Currencies {
						if x.Name == n {
							cur = x
							break
						}
					}
					if cur == nil {
						missing = n
						continue
					}
					v := accounting.Value{Amount: accounting.U, Currency: cur}
					zero := false
					first, can := convert(v, t, l.DefaultCurrency)
					sum := 0.0
					u := t
					for k := 0; k < m && can; k++ {
						u = u.AddDate(0, -months, -days)
						var o accounting.Value
						o, can = convert(v, u, l.DefaultCurrency)
						zero = zero || o.Amount == 0
						sum += float64(first.Amount) / float64(o.Amount)
					}
					if !can {
						missing = n
						continue
					}
					if zero { // what is said then is not specified
						continue
					}
					want := sum/float64(m) - 1
					wants = append(wants, fmt.Sprintf("at %v: %f %s", t, want, n))
					if i < len(got) {
						var x float64
						if _, err := fmt.Sscan(got[i], &x); err != nil || !strings.HasSuffix(got[i], " "+n) || x-want > 2e-6*(1+want*want) || want-x > 2e-6*(1+want*want) {
							all = false
						}
					}
				}
				if missing != "" {
					c.Probe("no momentum")
					all = p.Exit != 0 && len(p.Out) == 0 && len(p.Err) > 0
					wants = append(wants, fmt.Sprintf("at %v: an error (no price for %q)", t, missing))
				}
				ok = ok || all
			}
			if !ok {
				c.Fail("wrong report", "%s, clock %v: status %d, %q\nexpected %s", what, now, p.Exit, got, strings.Join(wants, "\n"))
			}
		}
	}
	l.Close()
}

func joined(l []string) string {
	l = append([]string(nil), l...)
	for i := range l {
		l[i] = strings.TrimSpace(l[i])
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// someOrder lists the currencies of a sum in a fixed order.
func someOrder(l *accounting.Ledger, m map[*accounting.Currency]int64) (r []*accounting.Currency) {
	done := map[*accounting.Currency]bool{}
	for _, x := range l.Currencies {
		if m[x] != 0 && !done[x] {
			r = append(r, x)
			done[x] = true
		}
	}
	for _, t := range l.Transactions { // a currency without a name is not listed
		for _, s := range t.Splits {
			if x := s.Value.Currency; m[x] != 0 && !done[x] {
				r = append(r, x)
				done[x] = true
			}
		}
	}
	if len(r) != len(m) {
		panic("an amount of a currency that no movement has")
	}
	return r
}
