package checks

import (
	"strings"
	"time"

	"verifsim/engine"
	"verifsim/jmodel"
)

// facts are what commands about a journal can mention.
type facts struct {
	times []time.Time
	accs  []string
	curs  []string
}

func factsOf(j *jmodel.Journal) *facts {
	f := new(facts)
	for _, it := range j.Items {
		switch {
		case it.Txn != nil:
			f.times = append(f.times, it.Txn.Time)
			for _, s := range it.Txn.Splits {
				f.accs = append(f.accs, s.Acc)
				if s.Date != nil {
					f.times = append(f.times, *s.Date)
				}
			}
		case it.Price != nil:
			f.times = append(f.times, it.Price.Time)
		case it.Acc != nil:
			f.accs = append(f.accs, it.Acc.Full)
		}
	}
	for _, c := range j.Curs {
		if c.Name != "" {
			f.curs = append(f.curs, c.Name)
		}
	}
	if len(f.times) == 0 {
		f.times = []time.Time{time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC)}
	}
	if len(f.accs) == 0 {
		f.accs = []string{"Assets"}
	}
	return f
}

// when chooses an instant near something in the journal.
func (f *facts) when(c *engine.Ctx) time.Time {
	t := f.times[c.N(len(f.times))]
	switch c.N(6) {
	case 1:
		t = t.Add(-time.Second)
	case 2:
		t = t.Add(time.Second)
	case 3:
		t = t.AddDate(0, 0, c.Range(-40, 40))
	case 4:
		t = t.AddDate(c.Range(-2, 2), c.Range(-5, 5), 0)
	}
	return t.Truncate(time.Second)
}

// date writes an instant as an argument of a command: sometimes as a day, month or year.
func date(c *engine.Ctx, t time.Time) string {
	t = t.UTC()
	switch c.N(6) {
	case 0:
		return t.Format("2006-01-02")
	case 1:
		return t.Format("2006-01")
	case 2:
		return t.Format("2006")
	case 3:
		return t.Format("2006-01-02/15:04")
	}
	return t.Format("2006-01-02/15:04:05")
}

// part chooses a part of an account's name.
func (f *facts) part(c *engine.Ctx) string {
	a := f.accs[c.N(len(f.accs))]
	switch c.N(4) {
	case 0:
		return a
	case 1:
		return strings.ToLower(a[strings.LastIndexByte(a, ':')+1:])
	case 2:
		return strings.Split(a, ":")[0]
	}
	return "nowhere"
}

func (f *facts) cur(c *engine.Ctx) string {
	if len(f.curs) == 0 || c.N(8) == 7 {
		return "XYZ"
	}
	return f.curs[c.N(len(f.curs))]
}

// report chooses a command of cmd/ledger. If end is set, it always says an
// end date, so that the time now does not matter.
func (f *facts) report(c *engine.Ctx, end bool) []string {
	var a []string
	if c.N(3) == 2 {
		a = append(a, "-b", date(c, f.when(c)))
	}
	if end || c.N(3) == 2 {
		a = append(a, "-e", date(c, f.when(c)))
	}
	if c.N(3) == 2 {
		a = append(a, "-market")
	}
	if c.N(6) == 5 {
		a = append(a, "-total")
	}
	if c.N(6) == 5 {
		a = append(a, "-negate")
	}
	if c.N(6) == 5 {
		a = append(a, "-batch")
	}
	if c.N(6) == 5 {
		a = append(a, "-currency", f.cur(c))
	}
	if c.N(6) == 5 {
		a = append(a, "-pivot", f.part(c))
	}
	some := func(n int) {
		for i := c.N(n + 1); i > 0; i-- {
			a = append(a, f.part(c))
		}
	}
	switch c.N(8) {
	case 0, 1:
		a = append(a, []string{"balance", "bal", "b"}[c.N(3)])
		some(2)
	case 2:
		a = append(a, []string{"accounts", "a"}[c.N(2)])
		if c.N(2) == 1 {
			a = append(a, "-tree")
		}
	case 3:
		a = append(a, "stats")
	case 4:
		a = append(a, "print")
	case 5:
		a = append(a, []string{"incomestatement", "is"}[c.N(2)])
		some(2)
	case 6:
		a = append(a, "delta", f.part(c))
		some(1)
	case 7:
		a = append(a, "price", f.cur(c))
		if c.N(2) == 1 {
			a = append(a, f.cur(c))
		}
	}
	return a
}
