package checks

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/simos"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C10",
		Run: c10,
		Rule: "one run: a generated text database (accounts in any order, transactions sorted or not, sometimes without a file of transactions, sometimes contradictory) is opened without faults and compared with a model; then 3 times with up to 3 faults at system calls of the fault-free run, " +
			"and 3 times while another program appends to and replaces its files at system calls, sometimes with faults too, and once with its file of transactions cut at any byte by a crash, with one damaged line (or a damaged line in its file of accounts), or with a line longer than 64 KiB; a run is trivial if no fault fired and the writer did nothing",
		Real:   []string{"accounting.Open, Fill, SortAccounts", "backend/txtdb", "io/ioutil, bufio, os, internal/poll above the system calls"},
		Stub:   []string{"openat, read, close, stat (simulated disk)", "the program that writes (decided by the tape at each system call)", "standard error"},
		Kinds:  append(append([]string{}, readKinds...), "fragmented-reads", "concurrent-append", "concurrent-replace", "crash-truncation", "damaged-line"),
		Probes: []string{"no file of transactions", "parents after children", "rejected", "error reported", "opened completely despite faults", "opened as before", "opened in between", "opened as at the end", "transactions not sorted", "movements of other days", "cut short", "damaged line", "damaged account", "amounts too big", "long line", "many transactions", "accounts replaced by as many bytes"},
	})
}

const txtDir = "/home/u/db"

// benign tells that nothing on standard error says that data is missing.
func benign(stderr []byte) bool {
	for _, l := range strings.Split(string(stderr), "\n") {
		if l != "" && !strings.Contains(l, "NOTICE") && !strings.Contains(l, "not sorted") {
			return false
		}
	}
	return true
}

func putTxt(w *simos.World, dir string, a, t []byte) {
	w.Write(dir+"/accounts", append([]byte(nil), a...))
	if t != nil {
		w.Write(dir+"/transactions", append([]byte(nil), t...))
	}
}

// genTxt makes a text database's contents, sometimes odd.
func genTxt(c *engine.Ctx) (s *store, accounts, transactions []byte) {
	return genTxtOf(c, genStore(c, true))
}

func genTxtOf(c *engine.Ctx, s *store) (_ *store, accounts, transactions []byte) {
	if c.N(4) == 3 && len(s.txns) > 1 {
		for k := 1 + len(s.txns)/10; k > 0; k-- {
			i, j := c.N(len(s.txns)), c.N(len(s.txns))
			s.txns[i], s.txns[j] = s.txns[j], s.txns[i]
		}
		c.Probe("transactions not sorted")
	}
	if c.N(4) == 3 && len(s.txns) > 0 {
		t := s.txns[c.N(len(s.txns))]
		sp := t.splits[1+c.N(len(t.splits)-1)]
		sp.when = t.time.AddDate(0, 0, c.Range(-3, 9))
		c.Probe("movements of other days")
	}
	if c.N(4) == 3 && len(s.txns) > 0 {
		// a line that says a balance
		a := s.accs[c.N(len(s.accs))]
		t := s.txns[len(s.txns)-1]
		x := &stTxn{id: len(s.txns) + 1, time: s.last.AddDate(0, 0, 30), desc: "check"}
		_ = t
		var bal int64
		for _, t := range s.txns {
			for _, sp := range t.splits {
				if sp.acc == a {
					bal += sp.amt
				}
			}
		}
		if c.N(4) == 3 {
			bal += 1_000_000
		}
		x.assert = &bal
		x.splits = []*stSplit{{acc: a, when: x.time}}
		s.last = x.time
		s.txns = append(s.txns, x)
	}
	accounts, transactions = s.txt(c)
	if len(s.txns) == 0 && c.N(2) == 1 {
		transactions = nil
		c.Probe("no file of transactions")
	}
	for i, a := range s.accs {
		for _, b := range s.accs[i+1:] {
			if b.parent == a && bytes.Index(accounts, []byte(b.line())) < bytes.Index(accounts, []byte(a.line())) {
				c.Probe("parents after children")
			}
		}
	}
	return s, accounts, transactions
}

func c10(c *engine.Ctx) {
	s := genStore(c, true)
	for k := c.N(8) - 5; k > 0; k-- {
		// spaces are part of the text
		if len(s.txns) > 0 {
			t := s.txns[c.N(len(s.txns))]
			t.desc = []string{" " + t.desc, t.desc + " ", "\t" + t.desc}[c.N(3)]
		}
	}
	s, accounts, transactions := genTxtOf(c, s)
	c.Logf("accounts:\n%s", accounts)
	c.Logf("transactions:\n%s", transactions)
	c.Note = fmt.Sprintf("%d accounts, %d transactions", len(s.accs), len(s.txns))
	c.Trivial = true
	src := "txtdb:" + txtDir
	o0 := canon.Opt{PriceOrder: true}
	want, bad := s.txtModel()
	w := c.World()
	putTxt(w, txtDir, accounts, transactions)
	o := open(w, anyEnv(c), src)
	must(c, o.Res, "opening without faults")
	if bad != nil {
		if o.Err == nil {
			c.Fail("contradiction accepted", "the database is contradictory (%v), but Open gave no error", bad)
		}
		c.Probe("rejected")
	} else if o.Err != nil {
		c.Fail("error without fault", "nothing failed, but Open said: %v", o.Err)
	} else {
		diff(c, "wrong ledger", "the ledger is not what is stored", want, described(o.L, o0), "stored", "opened")
		if !benign(w.Stderr) {
			c.Fail("unexpected diagnostic", "nothing failed, but Open printed %q", w.Stderr)
		}
		want = canon.Dump(o.L, exact)
	}
	counts := copyCounts(w.Counts)
	fix := func(p *plan) {
		for _, f := range p.faults {
			if f.out.Errno == syscall.ENOENT {
				f.out.Errno = syscall.EACCES // a file that is not there is another matter
			}
		}
	}
	for try := 0; try < 3; try++ {
		w := c.World()
		putTxt(w, txtDir, accounts, transactions)
		fragment(c, w)
		n := copyCounts(counts)
		if w.FragStyle > 0 {
			n["read"] = 4 + 2*(len(accounts)+len(transactions))/(1+w.FragSize)
		}
		p := makePlan(c, n, 3)
		fix(p)
		w.Fault = p.hook
		o := open(w, anyEnv(c), src)
		what := "faults: " + strings.Join(p.fired, "; ")
		if len(p.fired) > 0 || w.FragStyle > 0 {
			c.Trivial = false
		}
		must(c, o.Res, what)
		c.Logf("%s: %v", what, o.Err)
		switch {
		case o.Err != nil:
			c.Probe("error reported")
			if !p.hard && bad == nil {
				c.Fail("error without fault", "%s: nothing really failed, but Open said: %v", what, o.Err)
			}
		case bad != nil:
			c.Fail("contradiction accepted", "%s: the database is contradictory (%v), but Open gave no error", what, bad)
		default:
			diff(c, "silent loss", what+": Open gave no error, but the ledger is not the whole one", want, canon.Dump(o.L, exact), "stored", "opened")
			if p.hard {
				c.Probe("opened completely despite faults")
			}
		}
	}
	for try := 0; try < 3; try++ {
		c10writer(c, s, accounts, transactions, counts, src, fix)
	}
	c10damaged(c, s, accounts, src)
}

// c10damaged opens the database after a crash cut its file of transactions short,
// or one of its lines was damaged, or with a very long line.
func c10damaged(c *engine.Ctx, s *store, accounts []byte, src string) {
	var text strings.Builder
	var offs []int // where each transaction begins
	style := c.N(8)
	bals := map[*stAcc]int64{}
	for i, t := range s.txns {
		offs = append(offs, text.Len())
		text.WriteString(t.lines(i, style, bals))
	}
	all := text.String()
	type result struct {
		l    []string
		said bool // a diagnostic says that something is missing
		err  error
		o    opened
	}
	try := func(kind string, a, t []byte, what string) result {
		w := c.World()
		if kind != "" {
			w.Fire(kind)
		}
		putTxt(w, txtDir, a, t)
		fragment(c, w)
		p := softPlan(c, copyCounts(w.Counts))
		w.Fault = p.hook
		o := open(w, anyEnv(c), src)
		must(c, o.Res, what)
		r := result{o: o, err: o.Err, said: !benign(w.Stderr)}
		if o.Err == nil {
			r.l = described(o.L, canon.Opt{PriceOrder: true})
		}
		c.Logf("%s: error %v, diagnostic %v", what, r.err, r.said)
		return r
	}
	switch k := c.N(7); {
	case k == 6: // a damaged account
		lines := strings.SplitAfter(string(accounts), "\n")
		var where []int
		for i, l := range lines {
			if strings.Count(l, ":") == 5 {
				where = append(where, i)
			}
		}
		i := where[c.N(len(where))]
		old := lines[i]
		f := strings.Split(strings.TrimSuffix(old, "\n"), ":")
		bad := func(l ...string) string { return l[c.N(len(l))] }
		switch c.N(4) {
		case 0:
			f[0] = bad("x", "", "1x", "1.0", "99999999999999999999")
		case 1:
			f[5] = bad("x", "9999", "1x", " ", "99999999999999999999")
		case 2:
			f[c.N(6)] += ":"
		case 3:
			f = f[:1+c.N(5)]
		}
		lines[i] = strings.Join(f, ":") + "\n"
		what := fmt.Sprintf("%q instead of %q", lines[i], old)
		r := try("damaged-line", []byte(strings.Join(lines, "")), []byte(all), what)
		c.Probe("damaged account")
		c.Trivial = false
		if r.err == nil && !r.said {
			c.Fail("silent loss", "%s: Open gave no error, and nothing says so", what)
		}
	case len(all) == 0 || k == 5: // a line that is very long
		long := strings.Repeat("long ", 9000+c.N(9000)) + "."
		if c.N(64) == 63 { // longer than a megabyte
			long = strings.Repeat(long, 25)
		}
		v := s.clone()
		x := c.N(len(v.accs) + len(v.txns))
		if x < len(v.accs) {
			// the accounts are shared with the original
			a := v.accs[x]
			name := a.name
			a.name += long
			defer func() { a.name = name }()
		} else {
			t := *v.txns[x-len(v.accs)]
			t.desc += long
			v.txns[x-len(v.accs)] = &t
		}
		a, t := v.txt(c)
		want, bad := v.txtModel()
		r := try("", a, t, "a long line")
		c.Trivial = false
		c.Probe("long line")
		switch {
		case r.err != nil:
		case bad != nil:
			c.Fail("contradiction accepted", "the database is contradictory (%v), but Open gave no error", bad)
		default:
			for i := range want {
				want[i] = strings.ReplaceAll(want[i], long, "<long>")
			}
			for i := range r.l {
				r.l[i] = strings.ReplaceAll(r.l[i], long, "<long>")
			}
			diff(c, "silent loss", "a line is very long: Open gave no error, but the ledger is not the whole one", want, r.l, "stored", "opened")
		}
	case k < 3: // cut short
		cut := c.N(len(all) + 1)
		part := all[:cut]
		c.Probe("cut short")
		n := 0 // whole transactions
		for n < len(offs) && (n+1 < len(offs) && offs[n+1] <= cut+1 || cut+1 >= len(all)) {
			n++
		}
		v := s.clone()
		v.txns = v.txns[:n:n]
		lost := false // a whole movement of the transaction that was cut
		if n < len(s.txns) && offs[n] < cut {
			t := *s.txns[n]
			t.splits = nil
			var sum int64
			lines := strings.Split(part[offs[n]:], "\n")
			for i, l := range lines {
				f := strings.Split(l, ":")
				if len(f) != 7 || t.assert != nil && (i == len(lines)-1 && l+"\n" != all[offs[n]:offs[n]+len(l)+1]) {
					if len(f) == 7 {
						lost = f[6] != ""
					}
					break
				}
				t.splits = append(t.splits, s.txns[n].splits[i])
				sum += s.txns[n].splits[i].amt
				lost = true
			}
			if len(t.splits) > 0 && sum == 0 {
				// nothing tells that there was more
				v.txns = append(v.txns, &t)
				lost = false
			}
		}
		want, bad := v.txtModel()
		r := try("crash-truncation", accounts, []byte(part), fmt.Sprintf("cut at byte %d of %d", cut, len(all)))
		c.Trivial = false
		switch {
		case r.err != nil:
			if bad == nil && !lost {
				c.Fail("error without fault", "cut at byte %d, after %d transactions: Open said: %v", cut, len(v.txns), r.err)
			}
		case lost && s.txns[n].assert != nil:
			// a balance whose last digits are missing: may be right by chance
		case bad != nil:
			c.Fail("contradiction accepted", "cut at byte %d: the database is contradictory (%v), but Open gave no error", cut, bad)
		default:
			diff(c, "silent loss", fmt.Sprintf("cut at byte %d, after %d transactions", cut, len(v.txns)), want, r.l, "stored", "opened")
			if lost && !r.said {
				c.Fail("silent loss", "cut at byte %d: the movements of a transaction that was cut short were left out, and nothing says so", cut)
			}
		}
	default: // a damaged line
		i := c.N(len(s.txns))
		t := s.txns[i]
		j := c.N(len(t.splits))
		end := len(all)
		if i+1 < len(offs) {
			end = offs[i+1]
		}
		lines := strings.SplitAfter(all[offs[i]:end], "\n")
		f := strings.Split(lines[j], ":")
		bad := func(l ...string) string { return l[c.N(len(l))] }
		switch c.N(6) {
		case 5: // too few, and nothing that looks like a record
			f = []string{bad("", " ", "x", "-", ";", "transaction") + f[2+c.N(3)], f[5], f[6]}
			if f[0] == "" || f[0][0] == '#' {
				f[0] = "x"
			}
		case 0:
			f[1] = bad("2021-13-45", "x", "", "2021-02-30", "20210-01-01", "2021-01-01 25.00")
		case 1:
			f[4] = bad("9999", "x", "", "1 2", "0x1", "99999999999999999999")
		case 2:
			if t.assert != nil {
				f[6] = bad("x\n", "+\n", "1,00\n", "--1.00\n", "1.00 EUR\n")
			} else {
				f[5] = bad("x", "+", "-", "+x", "1.00", "+1,00", "+1.00 EUR", "+1.0.0")
			}
		case 3: // too many fields
			f[c.N(6)] += ":"
		case 4: // too few
			f = append([]string{f[0]}, f[2+c.N(5):]...)
		}
		damaged := strings.Join(f, ":")
		what := fmt.Sprintf("%q instead of %q", damaged, lines[j])
		lines[j] = damaged
		if t.assert == nil && len(t.splits) > 1 && c.N(5) == 4 {
			// instead, amounts that do not fit, which add up to zero
			c.Probe("amounts too big")
			lines = strings.SplitAfter(all[offs[i]:end], "\n")[:2]
			big := bad("100000000000.00", "92233720368.55", "1e300", "Inf", "184467440737.10", "184467440737095516.17")
			for j, sign := range []string{"+", "-"} {
				f := strings.Split(lines[j], ":")
				f[5] = sign + big
				lines[j] = strings.Join(f, ":")
			}
			what = fmt.Sprintf("%q instead of transaction %d", lines, i)
		}
		r := try("damaged-line", accounts, []byte(all[:offs[i]]+strings.Join(lines, "")+all[end:]), what)
		c.Probe("damaged line")
		c.Trivial = false
		if r.err == nil && !r.said {
			c.Fail("silent loss", "%s: Open gave no error, and nothing says so", what)
		}
		if r.err != nil {
			break
		}
		// What came before is there.
		have := map[string]int{}
		for _, t := range r.o.L.Transactions {
			key := t.Time.String() + t.Description
			for _, sp := range t.Splits {
				key += fmt.Sprintf(" %s %d", sp.Account.FullName(), sp.Value.Amount)
			}
			have[key]++
		}
		for _, t := range s.txns[:i] {
			key := t.time.String() + t.desc
			days := false
			for _, sp := range t.splits {
				days = days || !sp.when.Equal(t.time) // has movements of Fill's own
				key += fmt.Sprintf(" %s %d", sp.acc.full(), sp.amt)
			}
			if have[key]--; have[key] < 0 && t.assert == nil && !days {
				c.Fail("silent loss", "%s: an earlier transaction is missing: %s", what, key)
			}
		}
		if len(r.o.L.Accounts) < len(s.accs) {
			c.Fail("silent loss", "%s: %d of %d accounts", what, len(r.o.L.Accounts), len(s.accs))
		}
	}
}

// c10writer opens the database while another program writes to it.
// swapNames gives one account of a file the name and code of another, and the other way around.
func swapNames(c *engine.Ctx, accounts []byte) bool {
	lines := strings.Split(string(accounts), "\n")
	var which []int
	for i, l := range lines {
		if strings.Count(l, ":") == 5 {
			which = append(which, i)
		}
	}
	if len(which) < 2 {
		return false
	}
	k := c.N(len(which) - 1)
	i, j := which[k], which[k+1+c.N(len(which)-k-1)]
	a, b := strings.Split(lines[i], ":"), strings.Split(lines[j], ":")
	if a[3] == b[3] && a[4] == b[4] {
		return false
	}
	a[3], a[4], b[3], b[4] = b[3], b[4], a[3], a[4]
	lines[i], lines[j] = strings.Join(a, ":"), strings.Join(b, ":")
	copy(accounts, strings.Join(lines, "\n"))
	return true
}

func c10writer(c *engine.Ctx, s *store, accounts, transactions []byte, counts map[string]int, src string, fix func(*plan)) {
	w := c.World()
	putTxt(w, txtDir, accounts, transactions)
	fragment(c, w)
	type state struct{ a, t []byte }
	now := func() state {
		st := state{a: append([]byte(nil), w.Nodes[txtDir+"/accounts"].Data...)}
		if n := w.Nodes[txtDir+"/transactions"]; n != nil {
			st.t = append([]byte{}, n.Data...)
		}
		return st
	}
	states := []state{now()}
	// The program's plan: whole versions of the database, each written in several steps.
	var steps []func()
	var said []string
	version := s.clone()
	appendTo := func(file string, text string) {
		for len(text) > 0 {
			k := len(text)
			if c.N(2) == 1 {
				k = 1 + c.N(len(text))
			}
			piece := text[:k]
			text = text[k:]
			steps = append(steps, func() {
				n := w.Nodes[txtDir+"/"+file]
				if n == nil {
					n = w.Write(txtDir+"/"+file, nil)
				}
				n.Data = append(n.Data[:len(n.Data):len(n.Data)], piece...)
				w.Fire("concurrent-append")
				said = append(said, fmt.Sprintf("append %q to %s", piece, file))
			})
		}
	}
	bals := map[*stAcc]int64{}
	for n := 1 + c.N(3); n > 0; n-- {
		old := len(version.accs)
		for k := c.N(3); k > 0; k-- {
			version.addAcc(c)
		}
		var added []*stTxn
		for k := c.N(3); k > 0; k-- {
			added = append(added, version.addTxn(c, true))
		}
		if c.N(3) == 2 {
			// written anew
			same := c.N(2) == 1
			if old == len(version.accs) && !same {
				version.addAcc(c)
			}
			v := version.clone()
			if c.N(2) == 1 && len(v.txns) > 0 && len(added) < len(v.txns) {
				v.txns = v.txns[1:] // one is gone
				v.txns = append([]*stTxn(nil), v.txns...)
				version.txns = version.txns[1:]
			}
			a, t := v.txt(c)
			if same && swapNames(c, a) {
				// not again: the accounts would be as they were before
				n = 1
				c.Probe("accounts replaced by as many bytes")
			} else if same && old == len(version.accs) {
				continue
			}
			fa := func() {
				w.Write(txtDir+"/accounts", a)
				w.Fire("concurrent-replace")
				said = append(said, "replace accounts")
			}
			ft := func() {
				w.Write(txtDir+"/transactions", t)
				w.Fire("concurrent-replace")
				said = append(said, "replace transactions")
			}
			if c.N(2) == 0 {
				fa, ft = ft, fa
			}
			steps = append(steps, fa, ft)
			continue
		}
		text := ""
		for _, a := range version.accs[old:] {
			text += a.line()
		}
		appendTo("accounts", text)
		text = ""
		for i, t := range added {
			text += t.lines(len(version.txns)-len(added)+i, 0, bals)
		}
		appendTo("transactions", text)
	}
	// When they happen: some together.
	total := counts["open"] + counts["read"] + counts["close"] + 6
	if w.FragStyle > 0 {
		total += 2 * (len(accounts) + len(transactions)) / (1 + w.FragSize)
	}
	at := 0
	var when []int
	for range steps {
		if c.N(3) > 0 {
			at += c.N(1 + total/len(steps)*2)
		}
		when = append(when, at)
	}
	calls := 0
	w.OnAccess = func(a simos.Access) {
		if strings.HasPrefix(a.Path, "std") {
			return
		}
		for len(steps) > 0 && when[0] <= calls {
			steps[0]()
			steps, when = steps[1:], when[1:]
			states = append(states, now())
		}
		calls++
	}
	p := makePlan(c, counts, 0)
	if c.N(3) == 2 {
		p = makePlan(c, counts, 2)
		fix(p)
	}
	w.Fault = p.hook
	o := open(w, anyEnv(c), src)
	what := "meanwhile: " + strings.Join(said, "; ") + ", faults: " + strings.Join(p.fired, "; ")
	if len(said) > 0 {
		c.Trivial = false
	}
	must(c, o.Res, what)
	c.Logf("%s: %v", what, o.Err)
	if o.Err != nil {
		c.Probe("error reported")
		if !p.hard && len(said) == 0 {
			if _, bad := s.txtModel(); bad == nil {
				c.Fail("error without fault", "nothing failed, but Open said: %v", o.Err)
			}
		}
		return
	}
	got := canon.Dump(o.L, exact)
	for i, st := range states {
		v := c.World()
		putTxt(v, txtDir, st.a, st.t)
		same := false
		pristine(func() {
			x := open(v, plainEnv(), src)
			must(c, x.Res, "opening a state of the database")
			same = x.Err == nil && canon.Diff(canon.Dump(x.L, exact), got, "", "") == ""
		})
		if same {
			switch {
			case len(states) == 1:
			case i == 0:
				c.Probe("opened as before")
			case i < len(states)-1:
				c.Probe("opened in between")
			default:
				c.Probe("opened as at the end")
			}
			return
		}
	}
	if !benign(w.Stderr) {
		return // a diagnostic
	}
	c.Fail("mixture", "%s: the ledger is in none of the %d states that the database went through, and nothing says so\n    opened:\n        %s", what, len(states), strings.Join(got, "\n        "))
}
