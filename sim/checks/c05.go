package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespedes/accounting"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C05",
		Run: c05,
		Rule: "one run: a history of up to 16 operations (" + strings.Join(pokeNames, ", ") + ", clone) on a ledger opened from a journal or built by hand and on the clones made of it; after each one every other ledger must be as it was, " +
			"and operations done to a ledger and its twin must do the same; a run is trivial if nothing was done after cloning",
		Real:   []string{"accounting.Ledger.Clone, Fill, Convert, GetBalance, GetCurrency, TransactionsIn*, SortAccounts", "ledger.Export", "accounting.Open, backend/ledger"},
		Stub:   []string{"disk, clock, time zone, map iteration order"},
		Kinds:  []string{},
		Probes: []string{"clone before the first recalculation", "clone of a clone", "clone after trimming", "clone with deduced and automatic data", "twins in step"},
	})
}

// shared looks for storage that two ledgers have in common.
func shared(a, b *accounting.Ledger) string {
	mem := map[interface{}]string{}
	walk := func(l *accounting.Ledger, see func(p interface{}, what string)) {
		cur := func(c *accounting.Currency, what string) {
			if c != nil {
				see(c, "the currency "+what)
			}
		}
		bal := func(x accounting.Balance, what string) {
			if len(x) > 0 {
				see(&x[0], "the balance "+what)
			}
			for _, v := range x {
				cur(v.Currency, "in the balance "+what)
			}
		}
		done := map[interface{}]bool{}
		var acc func(x *accounting.Account, what string)
		var txn func(x *accounting.Transaction, what string)
		split := func(x *accounting.Split, what string) {
			if x == nil || done[x] {
				return
			}
			done[x] = true
			see(x, what)
			acc(x.Account, "the account of "+what)
			txn(x.Transaction, "the transaction of "+what)
			if x.Time != nil {
				see(x.Time, "the time of "+what)
			}
			cur(x.Value.Currency, "of "+what)
			bal(x.Balance, "of "+what)
		}
		acc = func(x *accounting.Account, what string) {
			if x == nil || done[x] {
				return
			}
			done[x] = true
			see(x, what)
			acc(x.Parent, "the parent of "+what)
			if len(x.Children) > 0 {
				see(&x.Children[0], "the list of children of "+what)
			}
			for _, y := range x.Children {
				acc(y, "a child of "+what)
			}
			if len(x.Splits) > 0 {
				see(&x.Splits[0], "the list of movements of "+what)
			}
			for _, y := range x.Splits {
				split(y, "a movement of "+what)
			}
			bal(x.StartBalance, "at the start of "+what)
		}
		txn = func(x *accounting.Transaction, what string) {
			if x == nil || done[x] {
				return
			}
			done[x] = true
			see(x, what)
			if len(x.Splits) > 0 {
				see(&x.Splits[0], "the list of movements of "+what)
			}
			for i, y := range x.Splits {
				split(y, fmt.Sprintf("movement %d of %s", i, what))
			}
		}
		if len(l.Accounts) > 0 {
			see(&l.Accounts[0], "the list of accounts")
		}
		for _, x := range l.Accounts {
			acc(x, "account "+canon.FullName(x))
		}
		if len(l.Transactions) > 0 {
			see(&l.Transactions[0], "the list of transactions")
		}
		for i, x := range l.Transactions {
			txn(x, fmt.Sprint("transaction ", i))
		}
		if len(l.Currencies) > 0 {
			see(&l.Currencies[0], "the list of currencies")
		}
		for _, x := range l.Currencies {
			cur(x, x.Name)
		}
		if len(l.Prices) > 0 {
			see(&l.Prices[0], "the list of prices")
		}
		for i, x := range l.Prices {
			see(x, fmt.Sprint("price ", i))
			cur(x.Currency, fmt.Sprint("of price ", i))
			cur(x.Value.Currency, fmt.Sprint("of the value of price ", i))
		}
		cur(l.DefaultCurrency, "by default")
		for s, v := range l.Assertions {
			split(s, "a movement with an assertion")
			cur(v.Currency, "of an assertion")
		}
		for s, v := range l.SplitPrices {
			split(s, "a movement with a cost")
			cur(v.Currency, "of a cost")
		}
		for _, x := range l.Comments {
			if len(x) > 0 {
				see(&x[0], "a list of comments")
			}
		}
	}
	walk(a, func(p interface{}, what string) { mem[p] = what })
	r := ""
	walk(b, func(p interface{}, what string) {
		if _, ok := mem[p]; ok && (r == "" || what < r) {
			r = what
		}
	})
	return r
}

func c05(c *engine.Ctx) {
	env := anyEnv(c)
	cfg := jmodel.Config{MaxTxns: 4, MaxPrices: 3}
	m, h, w, _ := start(c, env, cfg)
	built := h.l.Transactions != nil && len(h.l.Accounts) > 0 && !isTransfer(h.l.Accounts[len(h.l.Accounts)-1])
	if built && c.N(4) == 3 && len(h.l.Assertions) == 0 {
		h.l.Assertions = nil
	}
	c.Note = fmt.Sprintf("%d accounts, %d transactions, %d currencies", len(m.accs), len(m.txns), len(m.curs))
	times := []time.Time{}
	for i := 0; i < 3; i++ {
		times = append(times, anyTime(c, m))
	}
	type led struct {
		l    *accounting.Ledger
		now  []string
		name string
	}
	var all []*led
	add := func(l *accounting.Ledger) *led {
		x := &led{l: l, now: deep(l), name: fmt.Sprintf("ledger %d", len(all))}
		all = append(all, x)
		return x
	}
	add(h.l)
	var history []string
	what := func() string { return strings.Join(history, "; ") }
	others := func(except ...*led) {
	next:
		for _, x := range all {
			for _, y := range except {
				if x == y {
					continue next
				}
			}
			diff(c, "not independent", "after ("+what()+") "+x.name+" is not as it was", x.now, deep(x.l), "before", "after")
		}
	}
	do := func(x *led, p poke) (r string) {
		single(c, w, env, what(), func() { r = p.do(x.l) })
		return r
	}
	trimmed := false
	c.Trivial = true
	for n := c.Range(2, 16); n > 0; n-- {
		x := all[c.N(len(all))]
		if (len(all) < 4 && c.N(3) == 2) || (n == 1 && len(all) == 1) {
			var l *accounting.Ledger
			history = append(history, "clone "+x.name)
			c.Logf("%s", history[len(history)-1])
			single(c, w, env, what(), func() { l = x.l.Clone() })
			diff(c, "not faithful", "after ("+what()+") the clone is not like the ledger", deep(x.l), deep(l), "ledger", "clone")
			others()
			for _, m := range []struct {
				what string
				a, b bool
			}{{"assertions", x.l.Assertions == nil, l.Assertions == nil}, {"costs", x.l.SplitPrices == nil, l.SplitPrices == nil}, {"comments", x.l.Comments == nil, l.Comments == nil}} {
				if m.b && !m.a {
					c.Fail("not faithful", "after (%s) adding %s to the clone would panic, but not to the ledger", what(), m.what)
				}
			}
			if s := shared(x.l, l); s != "" {
				c.Fail("not independent", "after (%s) the clone shares %s with the ledger", what(), s)
			}
			if timed(l) {
				var qa, qb []string
				var ta, tb string
				single(c, w, env, what(), func() {
					qa = answers(x.l, times)
					ta = poke{kind: len(pokeNames) - 1}.do(x.l)
				})
				single(c, w, simos.Env{Zone: env.Zone, MapSeed: env.MapSeed + 1}, what(), func() {
					qb = answers(l, times)
					tb = poke{kind: len(pokeNames) - 1}.do(l)
				})
				diff(c, "not faithful", "after ("+what()+") the clone answers differently", qa, qb, "ledger", "clone")
				diff(c, "not faithful", "after ("+what()+") the clone is exported differently", strings.Split(ta, "\n"), strings.Split(tb, "\n"), "ledger", "clone")
				others()
			} else {
				c.Probe("clone before the first recalculation")
			}
			if x != all[0] {
				c.Probe("clone of a clone")
			}
			if trimmed {
				c.Probe("clone after trimming")
			}
			if len(l.Prices) > len(m.prices) {
				c.Probe("clone with deduced and automatic data")
			}
			y := add(l)
			// the twins do the same for a while
			for k := c.N(4); k > 0; k-- {
				p := anyPoke(c)
				history = append(history, p.what+" on both")
				c.Logf("%s", history[len(history)-1])
				a, b := do(x, p), do(y, p)
				c.Probe("twins in step")
				if a != b {
					diff(c, "not faithful", "after ("+what()+") the ledger and its clone behave differently", strings.Split(a, "\n"), strings.Split(b, "\n"), "ledger", "clone")
				}
				diff(c, "not faithful", "after ("+what()+") the ledger and its clone are different", deep(x.l), deep(y.l), "ledger", "clone")
				others(x, y)
				x.now, y.now = deep(x.l), deep(y.l)
			}
			continue
		}
		p := anyPoke(c)
		history = append(history, p.what+" on "+x.name)
		c.Logf("%s", history[len(history)-1])
		do(x, p)
		if strings.HasPrefix(p.what, "trim") {
			trimmed = true
		}
		if len(all) > 1 {
			c.Trivial = false
		}
		others(x)
		x.now = deep(x.l)
	}
}
