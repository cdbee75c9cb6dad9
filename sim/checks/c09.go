package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/engine"
	"verifsim/jmodel"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C09",
		Run: c09,
		Rule: "one run: the stored data are a generated journal (up to 4 files) damaged in up to 8 places, or lines put together from pieces of the syntax, or files that include one another in cycles under various spellings, or a damaged text database, or an odd PostgreSQL database; " +
			"they are opened while up to 4 open/read/database faults strike; on the ledger, if any, every query and conversion (at times from year 1 to 9999), clone, recalculation, export and up to 8 other operations are done, and up to 6 invocations of the programs are run on the same data; " +
			"every thread must end by itself, without panic or exit, within a budget of 20 million statements; trivial: opening failed before anything was parsed",
		Real:   []string{"accounting", "backend/ledger, backend/txtdb, backend/postgres", "cmd/ledger, cmd/acc, cmd/muscular, cmd/tacc", "bufio, os, fmt, time, log, flag above the system calls"},
		Stub:   []string{"openat, read, write, close, stat (simulated disk)", "clock, time zone, map iteration order", "github.com/lib/pq and the PostgreSQL server", "github.com/cespedes/tableview (terminal user interface)"},
		Kinds:  []string{"damaged-bytes", "include-cycle", "open-error", "read-error", "read-short", "read-eintr", "open-eintr", "close-error", "slow-call", "fragmented-reads"},
		Probes: []string{"rejected", "accepted", "pieces accepted", "cycle", "text database", "PostgreSQL", "opened despite faults", "command succeeded", "command failed", "extreme amounts", "fill failed"},
	})
}

// pieces of journals, put together at random.
var pieces = []string{"2021-01-01", "2021/02/03-10:11:12", "2021.12.31/23:59", "9999-12-31", "0001-01-01", "0000-01-01", "2021-13-01", "2021-02-30", "1677-09-21", "2262-04-12", "10000-01-01", "-0001-01-01",
	"Assets", "Assets:Cash", "Assets:Bank:Checking", "Expense", "Income", ":", "A:", ":A", "A::B", "Assets:Transfer account", "Equity  ",
	"10", "-10", "+10", "0", "-0", "0.00", "10 EUR", "-10 EUR", "EUR 10", "$5", "-$5", "$-5", "5$", "92233720368.54775807 EUR", "-92233720368.54775808 EUR", "92233720368.54775808 EUR", "0.00000001 EUR", "1,000,000.00 USD", "1.000.000,00 EUR", "1'000 CHF", "1_000 X", "1,2,3", "1.2.3 Y", "0x10", "1e5", "...", ",", "--5", "5-", "10 \"two words\"", "10 two words",
	"@", "@@", "=", "= 0", "@ 0 USD", "@@ 0 USD", "@ 2 USD", "@@ -2 USD", "= 10 EUR", "= =", "@ @", "@@ 5 EUR = 5 USD", "= 5 USD @ 3 EUR", "@ 92233720368 USD", "@@ 0.00000001 USD", "@ 1 EUR",
	";", "; note", "# x", "* y", ";date:2021-01-05", "; date:2019-12-31/10:00", "; date:", "; date:zzz", "; code:1", "; isin:X", "%", "|", "~", "!", "*", "(code)",
	"account", "account ", "commodity", "commodity ", "D", "D ", "P", "P ", "include", "include ", "P 2021-01-01 EUR 2 USD", "P 2021-01-01 EUR", "P 2021-01-01 EUR 0 USD", "P 9999-01-01 USD 5 EUR", "P 2021-01-02 EUR 92233720368 USD", "P 2021-01-02 EUR 1 EUR", "P 2021-01-02 EUR 5 EUR", "P 2021-01-03 EUR -2 USD", "D 1.000,00 EUR", "D", "D 5", "commodity 1,000.00 USD", "commodity $1.000", "commodity 5", "commodity EUR", "account Assets:Cash", "account Assets", "account",
	"year 2020", "apply", "tag", "alias a=b", "  ", "\t", " ", "", "\r", "\x00", "\xff\xfe", "\u00a0", "é", "日本", strings.Repeat("a", 5000), strings.Repeat("A:", 200) + "B", strings.Repeat("9", 400), strings.Repeat("x", 70000)}

// soup makes lines of pieces; many of them look like transactions.
func soup(c *engine.Ctx, includes []string) []byte {
	var b bytes.Buffer
	any := func() string { return pieces[c.N(len(pieces))] }
	val := func() string { return pieces[23+c.N(56)] }
	for i := c.Range(1, 14); i > 0; i-- {
		switch c.N(8) {
		case 0, 1, 2:
			b.WriteString(pieces[c.N(6)] + " " + any() + "\n")
			for k := c.N(4); k > 0; k-- {
				b.WriteString([]string{"  ", "\t", " ", ""}[c.N(4)] + pieces[12+c.N(11)] + []string{"  ", " ", "\t"}[c.N(3)] + val())
				for m := c.N(4) - 1; m > 0; m-- {
					b.WriteString(" " + val())
				}
				if c.N(4) == 3 {
					b.WriteString(" " + any())
				}
				if c.N(6) == 5 { // marks of costs and assertions in any order
					for m := c.Range(1, 4); m > 0; m-- {
						b.WriteString([]string{"", " ", "  "}[c.N(3)] + []string{"@", "@@", "=", "=="}[c.N(4)] + []string{"", " "}[c.N(2)] + []string{"5 EUR", "2 USD", ""}[c.N(3)])
					}
				}
				b.WriteString("\n")
			}
		case 3: // two movements that add up
			v := val()
			n := v
			if strings.HasPrefix(v, "-") {
				n = v[1:]
			} else {
				n = "-" + v
			}
			b.WriteString(pieces[c.N(6)] + "\n  Assets:Cash  " + v + "\n  Expense  " + n + "\n")
		case 4:
			b.WriteString(any() + "\n")
		case 5, 6:
			for k := c.Range(1, 4); k > 0; k-- {
				b.WriteString([]string{"", " ", "  "}[c.N(3)] + any())
			}
			b.WriteString("\n")
		case 7:
			if len(includes) > 0 {
				b.WriteString("include " + includes[c.N(len(includes))] + "\n")
			}
		}
	}
	r := b.Bytes()
	if c.N(4) == 3 && len(r) > 0 {
		r = r[:len(r)-1]
	}
	return r
}

// factsIn collects what commands can mention about a ledger.
func factsIn(l *accounting.Ledger) *facts {
	f := new(facts)
	for _, t := range l.Transactions {
		f.times = append(f.times, t.Time)
	}
	for _, a := range l.Accounts {
		f.accs = append(f.accs, a.FullName())
	}
	for _, x := range l.Currencies {
		f.curs = append(f.curs, x.Name)
	}
	if len(f.times) == 0 {
		f.times = []time.Time{time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)}
	}
	if len(f.accs) == 0 {
		f.accs = []string{"Assets"}
	}
	return f
}

func c09(c *engine.Ctx) {
	w := c.World()
	files := map[string][]byte{}
	dbs := map[string]*pq.Database{}
	var db *pq.Database
	source := ""
	pieced := false
	switch k := c.N(12); {
	case k < 4:
		j := jmodel.Gen(c.Tape, jmodel.Config{MaxTxns: 6, MaxPrices: 3, Includes: 3})
		files = j.Files()
		corrupt(c, files, 8)
		source = j.Root
		w.Fire("damaged-bytes")
	case k < 9: // pieces, in files that include one another
		names := []string{"/b/main.ledger", "/b/a.ledger", "/b/sub/x y.ledger", "/c/z.ledger"}[:c.Range(1, 4)]
		var spell []string
		for _, n := range names {
			base := n[strings.LastIndexByte(n, '/')+1:]
			spell = append(spell, n, base, "./"+base, "../b/"+base, "sub/"+base, "sub/../"+base, ".//"+base, "/b/../"+n[1:], "nowhere/"+base)
		}
		spell = append(spell, ".", "..", "/", "*", "\"a\"", "")
		for _, n := range names {
			files[n] = soup(c, spell)
		}
		if c.N(3) == 2 {
			w.Fire("include-cycle")
			c.Probe("cycle")
			for _, n := range names {
				files[n] = append(append([]byte(nil), files[n]...), []byte("\ninclude "+spell[c.N(len(spell))]+"\n")...)
			}
		}
		source = names[0]
		pieced = true
	case k < 11:
		_, a, t := genTxt(c)
		files["/db/accounts"] = a
		if t != nil {
			files["/db/transactions"] = t
		}
		corrupt(c, files, 8)
		source = "txtdb:/db"
		c.Probe("text database")
		w.Fire("damaged-bytes")
	default:
		st := genPG(c)
		db = &pq.Database{State: st.pg()}
		source = "postgres://db/x"
		dbs[source] = db
		c.Probe("PostgreSQL")
	}
	dial(dbs)
	logFiles(c, files)
	put(w, files)
	if c.N(4) == 3 {
		fragment(c, w)
	}
	anyClock(c, w)
	// under faults
	if c.N(3) == 2 {
		p := makePlan(c, map[string]int{"open": 5, "read": 8, "close": 4}, 4)
		w.Fault = p.hook
		if db != nil {
			newPGFaults(c, w, db, 30, 2)
		}
		o := open(w, anyEnv(c), source)
		if k, m := died(o.Res); k != "" {
			c.Fail(k, "opening %s with faults (%v): %s", source, p.fired, m)
		}
		if o.Err == nil {
			c.Probe("opened despite faults")
			single(c, w, anyEnv(c), "using what was opened with faults", func() { use(c, o.L, nil) })
		}
		w.Fault = nil
		if db != nil {
			db.On = nil
		}
	}
	env := anyEnv(c)
	o := open(w, env, source)
	must(c, o.Res, "opening "+source)
	f := &facts{times: []time.Time{time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)}, accs: []string{"Assets"}, curs: []string{"EUR"}}
	if o.Err != nil {
		c.Probe("rejected")
		c.Trivial = sizeOf(files) == 0 && db == nil
	} else {
		c.Probe("accepted")
		if pieced && len(o.L.Transactions) > 0 {
			c.Probe("pieces accepted")
		}
		f = factsIn(o.L)
		var ps []poke
		for n := c.N(9); n > 0; n-- {
			ps = append(ps, anyPoke(c))
		}
		c.Logf("operations %v", ps)
		single(c, w, env, fmt.Sprintf("operations (%v) on a ledger", ps), func() { use(c, o.L, ps) })
	}
	if db != nil {
		return
	}
	for n := c.N(7); n > 0; n-- {
		name, args := "ledger", append([]string{"-f", source}, f.report(c, false)...)
		switch c.N(11) {
		case 8:
			name, args = "acc", []string{source}
		case 10:
			name, args = "tacc", []string{source}
		case 9:
			name, args = "muscular", append([]string{"-f", source}, muscularArgs(c, f)...)
		}
		p := command(w, anyEnv(c), name, args)
		if p.Died != "" {
			c.Fail("panic", "%s %q: %s", name, args, p.Died)
		}
		if p.Exit == 0 {
			c.Probe("command succeeded")
		} else {
			c.Probe("command failed")
		}
	}
	c.Note = fmt.Sprintf("%s: %d files, %d bytes, opened: %v", source, len(files), sizeOf(files), o.Err == nil)
}

var extremes = []time.Time{{}, time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)}

// use does everything that can be done with a ledger.
func use(c *engine.Ctx, l *accounting.Ledger, ps []poke) {
	all := func(l *accounting.Ledger) {
		deep(l)
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				if s.Value.Amount > 1<<60 || s.Value.Amount < -1<<60 {
					c.Probe("extreme amounts")
				}
				_, _ = s.Value.String(), s.Balance.String()
			}
		}
		if !timed(l) {
			return
		}
		times := append([]time.Time(nil), extremes...)
		var own []time.Time
		for _, t := range l.Transactions {
			own = append(own, t.Time)
		}
		for _, p := range l.Prices {
			own = append(own, p.Time, p.Time.Add(time.Hour))
		}
		sort.Slice(own, func(i, j int) bool { return own[i].Before(own[j]) })
		for i := 0; i < len(own); i += 1 + len(own)/4 {
			times = append(times, own[i])
		}
		answers(l, times)
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				for _, x := range l.Currencies {
					l.Convert(s.Value, t.Time, x)
				}
			}
		}
		var b buf
		export(&b, l)
	}
	all(l)
	x := l.Clone()
	all(x)
	if x.Fill() != nil {
		c.Probe("fill failed")
	}
	for _, p := range ps {
		p.do(x)
	}
	if x.Fill() == nil {
		all(x)
	} else {
		c.Probe("fill failed")
	}
	l.Refresh()
	all(l)
	l.Close()
}

func muscularArgs(c *engine.Ctx, f *facts) []string {
	var a []string
	if c.N(2) == 1 {
		a = append(a, "-b", date(c, f.when(c)))
	}
	if c.N(2) == 1 {
		a = append(a, "-e", date(c, f.when(c)))
	}
	if c.N(2) == 1 {
		a = append(a, "-measures", fmt.Sprint(c.Range(0, 4)), "-measureperiod", []string{"1m", "2d", "1m1d", "0m0d"}[c.N(4)])
	}
	for n := c.N(4); n > 0; n-- {
		a = append(a, f.cur(c))
	}
	return a
}
