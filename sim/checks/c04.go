package checks

import (
	"fmt"
	"strings"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C04",
		Run: c04,
		Rule: "one run: a history of up to 24 edits (accounts, transactions, movements, amounts, dates, assertions, costs, prices, spoiled derived data) and recalculations, on a ledger opened from a journal or built by hand; after each recalculation it is compared " +
			"with a ledger newly built from the same primary data and with the reference model; a run is trivial if there was no recalculation after an edit",
		Real:   []string{"accounting.Ledger.Fill", "accounting.Open, backend/ledger"},
		Stub:   []string{"disk, clock, time zone, map iteration order"},
		Kinds:  []string{},
		Probes: []string{"recalculation succeeded", "recalculation failed", "succeeded after a failure", "amounts deduced", "transfer movements", "automatic prices", "does not fit", "huge amounts fit"},
		Assume: []string{"parents of accounts form no cycle"},
	})
}

// start makes a ledger to work with: opened, or built by hand and not yet filled.
func start(c *engine.Ctx, env simos.Env, cfg jmodel.Config) (*abstract, *handles, *simos.World, *jmodel.Journal) {
	j := jmodel.Gen(c.Tape, cfg)
	b, err := jmodel.Eval(j.Items)
	if err != nil {
		panic(err)
	}
	w := c.World()
	m := abstractOf(j, b)
	if c.N(2) == 1 {
		for _, t := range m.txns {
			for _, s := range t.Splits {
				if v, ok := b.Costs[s]; ok {
					s.Cost, s.CostVal = jmodel.TotalCost, v
				}
			}
		}
		return m, m.build(), w, j
	}
	put(w, j.Files())
	l := mustOpen(c, w, env, j.Root)
	m.settle(b)
	return m, m.bind(c, l), w, j
}

func c04(c *engine.Ctx) {
	env := anyEnv(c)
	cfg := jmodel.Config{MaxTxns: 5, MaxPrices: 3, NoComments: c.N(2) == 1}
	if c.N(8) == 7 {
		cfg.MaxTxns, cfg.MaxPrices = 30, 20 // enough for sorting them to be another matter
	}
	m, h, w, j := start(c, env, cfg)
	c.Note = fmt.Sprintf("%d accounts, %d transactions, %d currencies", len(m.accs), len(m.txns), len(m.curs))
	_ = j
	if m.huge = c.N(6) == 5; m.huge {
		c.Note += ", huge amounts"
	}
	var history []string
	edits, failed := 0, false
	c.Trivial = true
	fill := func(h *handles) (err error) {
		single(c, w, env, "recalculation ("+strings.Join(history, "; ")+")", func() { err = h.l.Fill() })
		return err
	}
	for n := c.Range(1, 24); n > 0; n-- {
		if failed && c.N(3) == 2 {
			history = append(history, m.repair(c, h))
			c.Logf("%s", history[len(history)-1])
			continue
		}
		if c.N(3) > 0 {
			history = append(history, m.edit(c, h))
			c.Logf("%s", history[len(history)-1])
			edits++
			continue
		}
		if edits > 0 {
			c.Trivial = false
		}
		m.sorted()
		fresh := m.build()
		book, want := jmodel.Eval(m.items())
		err := fill(h)
		ferr := fill(fresh)
		history = append(history, fmt.Sprintf("Fill: %v", err))
		c.Logf("%s", history[len(history)-1])
		what := strings.Join(history, "; ")
		switch {
		case (err == nil) != (ferr == nil):
			c.Fail("history matters", "after (%s) recalculating says %v, but in a new ledger with the same data %v", what, err, ferr)
		case err == nil && want != nil:
			c.Fail("inconsistent books accepted", "after (%s) recalculating gives no error, but %v", what, want)
		case err != nil && want == nil:
			c.Fail("consistent books rejected", "after (%s) recalculating says %v", what, err)
		}
		if err != nil && want != nil && strings.Contains(want.Error(), "not fit") {
			c.Probe("does not fit")
		} else if err == nil && m.huge {
			c.Probe("huge amounts fit")
		}
		if err != nil {
			c.Probe("recalculation failed")
			failed = true
			m.follow(h)
			continue
		}
		c.Probe("recalculation succeeded")
		if failed {
			c.Probe("succeeded after a failure")
			failed = false
		}
		if len(book.Transfer) > 0 {
			c.Probe("transfer movements")
		}
		if len(book.Auto) > 0 {
			c.Probe("automatic prices")
		}
		for _, t := range m.txns {
			for _, s := range t.Splits {
				if s.Elided {
					c.Probe("amounts deduced")
				}
			}
		}
		got := canon.Dump(h.l, canon.Opt{PriceOrder: true})
		diff(c, "history matters", "after ("+what+") the ledger is not like a new one with the same data", canon.Dump(fresh.l, canon.Opt{PriceOrder: true}), got, "new", "edited")
		diff(c, "wrong ledger", "after ("+what+") the ledger is not what its primary data says", book.Lines(modelOpt), canon.Dump(h.l, modelOpt), "model", "ledger")
		if why := inconsistency(h.l); why != "" {
			c.Fail("inconsistent books", "after (%s) %s", what, why)
		}
		if err := fill(h); err != nil {
			c.Fail("not idempotent", "after (%s) recalculating again says %v", what, err)
		}
		diff(c, "not idempotent", "after ("+what+") recalculating again changes the ledger", got, canon.Dump(h.l, canon.Opt{PriceOrder: true}), "once", "twice")
		m.settle(book)
	}
}
