package checks

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
)

func init() {
	engine.Add(&engine.Check{
		ID:  "C03",
		Run: c03,
		Rule: "one run: a generated journal of up to 3 files; either opened undamaged and compared with the reference model, or (2 of 6) with records lost, repeated, swapped, torn off or changed and compared with the model's verdict and ledger, " +
			"or (3 of 6) with its bytes damaged and, if accepted, checked for contradictions; a run is trivial if the journal has no transactions",
		Real:   []string{"accounting", "backend/ledger", "bufio, os, internal/poll above the system calls"},
		Stub:   []string{"openat, read, close, stat (simulated disk)", "clock, time zone, map iteration order"},
		Kinds:  []string{"fragmented-reads", "lost-record", "repeated-record", "swapped-records", "torn-tail", "changed-amount", "changed-assertion", "lost-movement", "changed-date", "unreadable-amount", "unreadable-movement", "unreadable-entry", "unreadable-price", "huge-amounts", "damaged-bytes"},
		Probes: []string{"undamaged", "inconsistent and rejected", "damaged but consistent", "damaged and accepted", "damaged and rejected", "does not fit", "accepted with huge amounts", "left out and said so", "lines below what cannot be understood"},
	})
}

// model says what the items of a journal stand for.
func model(items []*jmodel.Item, o canon.Opt) ([]string, error) {
	b, err := jmodel.Eval(items)
	if err != nil {
		return nil, err
	}
	return b.Lines(o), nil
}

var modelOpt = canon.Opt{} // the order of prices of the same instant is not written anywhere

// alter damages the journal one record at a time, so that it still can be
// read: what it stands for is known.
func alter(c *engine.Ctx, j *jmodel.Journal, fire func(string)) (what []string) {
	for i := c.Range(1, 3); i > 0; i-- {
		var recs, txns []int
		for k, it := range j.Items {
			if it.Txn != nil || it.Price != nil || it.Text != "" {
				recs = append(recs, k)
			}
			if it.Txn != nil {
				txns = append(txns, k)
			}
		}
		if len(recs) == 0 {
			return what
		}
		remove := func(k int) {
			j.Items = append(append([]*jmodel.Item(nil), j.Items[:k]...), j.Items[k+1:]...)
			for x := range j.Inc {
				in := &j.Inc[x]
				if in.Lo > k {
					in.Lo--
				}
				if in.Hi > k {
					in.Hi--
				}
			}
		}
		kind := c.N(11)
		if kind == 9 { // the first word of an entry cannot be understood
			k := c.N(len(j.Items))
			it := *j.Items[k]
			heads := []string{"2021-13-01", "2021-02-30", "2021-01-00", "21-01-01", "2o21-01-01", "20210101", "2021-01", "x", "-", "2021-01-01/24:00", "2021-01-01/10:60:00", "2021-01-01T10:00", "02021-01-01", "2021\xff-01-01", "\x00"}
			if it.Acc != nil {
				heads = []string{"acount", "ccount", "account\x00", "accounts", "Account", "account\xff"}
			}
			if it.Acc == nil && it.Txn == nil && it.Price == nil {
				continue
			}
			if it.Price != nil && it.Price.Val.Cur != nil && c.N(2) == 1 {
				it.Tail = it.Price.Cur.Name + " " + jmodel.Unreadable(it.Price.Val.Cur, c.N)
				if c.N(4) == 3 {
					it.Tail = it.Price.Cur.Name
				}
				j.Items = append([]*jmodel.Item(nil), j.Items...)
				j.Items[k] = &it
				fire("unreadable-price")
				what = append(what, fmt.Sprintf("record %d is the price %q", k, it.Tail))
				continue
			}
			it.Head = heads[c.N(len(heads))]
			j.Items = append([]*jmodel.Item(nil), j.Items...)
			j.Items[k] = &it
			fire("unreadable-entry")
			what = append(what, fmt.Sprintf("record %d begins with %q", k, it.Head))
			continue
		}
		if len(txns) == 0 && kind >= 4 {
			kind = 0
		}
		var s *jmodel.Split
		var t *jmodel.Txn
		si := 0
		if kind >= 4 {
			k := txns[c.N(len(txns))]
			// records are changed in a copy: the original belongs to the caller
			x := *j.Items[k].Txn
			x.Splits = nil
			for _, o := range j.Items[k].Txn.Splits {
				n := *o
				x.Splits = append(x.Splits, &n)
			}
			j.Items = append([]*jmodel.Item(nil), j.Items...)
			it := *j.Items[k]
			it.Txn = &x
			j.Items[k] = &it
			t = &x
			if len(t.Splits) == 0 {
				continue
			}
			si = c.N(len(t.Splits))
			s = t.Splits[si]
		}
		switch kind {
		case 0:
			k := recs[c.N(len(recs))]
			remove(k)
			fire("lost-record")
			what = append(what, fmt.Sprintf("record %d lost", k))
		case 1: // repeated, in the same file
			k := recs[c.N(len(recs))]
			it := *j.Items[k]
			if it.Txn != nil {
				x := *it.Txn
				x.Splits = nil
				for _, o := range it.Txn.Splits {
					n := *o
					x.Splits = append(x.Splits, &n)
				}
				it.Txn = &x
			}
			if it.Price != nil {
				x := *it.Price
				it.Price = &x
			}
			j.Items = append(append(append([]*jmodel.Item(nil), j.Items[:k+1]...), &it), j.Items[k+1:]...)
			for x := range j.Inc {
				in := &j.Inc[x]
				if in.Lo > k {
					in.Lo++
				}
				if in.Hi > k {
					in.Hi++
				}
			}
			fire("repeated-record")
			what = append(what, fmt.Sprintf("record %d repeated", k))
		case 2:
			a, b := recs[c.N(len(recs))], recs[c.N(len(recs))]
			j.Items = append([]*jmodel.Item(nil), j.Items...)
			j.Items[a], j.Items[b] = j.Items[b], j.Items[a]
			fire("swapped-records")
			what = append(what, fmt.Sprintf("records %d and %d swapped", a, b))
		case 3: // everything after a record is lost
			k := recs[c.N(len(recs))]
			j.Items = append([]*jmodel.Item(nil), j.Items[:k]...)
			for x := range j.Inc {
				in := &j.Inc[x]
				if in.Lo > k {
					in.Lo = k
				}
				if in.Hi > k {
					in.Hi = k
				}
			}
			fire("torn-tail")
			what = append(what, fmt.Sprintf("lost from record %d on", k))
			return what
		case 4: // an amount changes
			if s.Elided {
				continue
			}
			d := int64(jmodel.U / 100)
			if c.N(2) == 1 {
				d = -s.Val.Amt
				if s.Cost != jmodel.NoCost {
					d = jmodel.U
				}
			}
			if c.N(3) == 2 {
				d = int64(c.Range(1, 50)) * jmodel.U
			}
			if s.Cost == jmodel.TotalCost && c.N(2) == 1 {
				s.CostVal.Amt += d
			} else {
				s.Val.Amt += d
			}
			fire("changed-amount")
			what = append(what, fmt.Sprintf("amount of %q changed by %d", t.Desc, d))
		case 5:
			if s.Assert == nil {
				continue
			}
			v := *s.Assert
			v.Amt += int64(c.Range(1, 50)) * jmodel.U
			if c.N(4) == 3 {
				v.Amt = 0
			}
			s.Assert = &v
			fire("changed-assertion")
			what = append(what, fmt.Sprintf("assertion in %q changed", t.Desc))
		case 6:
			t.Splits = append(append([]*jmodel.Split(nil), t.Splits[:si]...), t.Splits[si+1:]...)
			if len(t.Splits) == 0 {
				what = append(what, "a transaction lost its movements")
			}
			fire("lost-movement")
			what = append(what, fmt.Sprintf("a movement of %q lost", t.Desc))
		case 7:
			d := t.Time.AddDate(0, 0, c.Range(-60, 60))
			s.Date = &d
			fire("changed-date")
			what = append(what, fmt.Sprintf("a movement of %q dated %v", t.Desc, d))
		case 10: // amounts whose sum may not fit
			var l []*jmodel.Cur
			for _, x := range j.Curs {
				if !x.Implicit {
					l = append(l, x)
				}
			}
			if len(l) == 0 {
				continue
			}
			hugeTxn(c.N, t, l[c.N(len(l))], func() string { return t.Splits[c.N(len(t.Splits))].Acc })
			fire("huge-amounts")
			what = append(what, fmt.Sprintf("%q has huge amounts", t.Desc))
		case 8: // an amount becomes unreadable
			if s.Elided && s.Assert == nil || s.Bad != 0 {
				continue
			}
			if k := c.N(4); k == 3 && !s.Elided && s.Val.Cur != nil {
				x := s.Val.Cur
				if s.CostVal.Cur != nil {
					x = s.CostVal.Cur
				}
				s.Bad, s.BadText = jmodel.BadWhole, jmodel.Unreadables(s.Val.Cur, x, c.N)
				fire("unreadable-movement")
				what = append(what, fmt.Sprintf("a movement of %q says %q", t.Desc, s.BadText))
				continue
			}
			s.Bad = jmodel.BadAmount
			v := s.Val
			if s.Cost != jmodel.NoCost && c.N(3) == 2 {
				s.Bad, v = jmodel.BadCost, s.CostVal
			}
			if s.Elided || s.Assert != nil && c.N(3) == 2 {
				s.Bad, v = jmodel.BadAssert, *s.Assert
			}
			if v.Cur == nil {
				s.Bad = 0
				continue
			}
			s.BadText = jmodel.Unreadable(v.Cur, c.N)
			fire("unreadable-amount")
			what = append(what, fmt.Sprintf("a movement of %q has the amount %q", t.Desc, s.BadText))
		}
	}
	return what
}

// huge gives amounts near the limits.
func huge(n func(int) int) int64 {
	l := []int64{jmodel.Max, jmodel.Max - 1, 1 << 62, 1<<62 - 1, 1 << 61, 1 << 60, 3 << 61, jmodel.Max / 3, jmodel.Max / jmodel.U * jmodel.U, jmodel.U}
	v := l[n(len(l))]
	if n(2) == 1 {
		v = -v
	}
	return v
}

// hugeTxn gives huge amounts to a transaction.
func hugeTxn(n func(int) int, t *jmodel.Txn, cur *jmodel.Cur, acc func() string) {
	var l []*jmodel.Split
	add := func(v int64) *jmodel.Split {
		s := &jmodel.Split{Acc: acc(), Val: jmodel.Value{Amt: v, Cur: cur}}
		l = append(l, s)
		return s
	}
	var sum big.Int
	for k := 1 + n(4); k > 0; k-- {
		v := huge(n)
		for r := 1 + n(2)*n(4); r > 0; r-- {
			sum.Add(&sum, big.NewInt(v))
			add(v)
		}
	}
	switch n(4) {
	case 0: // the opposite of each
		for _, s := range l {
			add(-s.Val.Amt)
		}
	case 1: // one left blank
		add(0).Elided = true
	case 2: // what remains to zero, or would if it fitted
		var w uint64
		for _, s := range l {
			w -= uint64(s.Val.Amt)
		}
		if w != 0 && int64(w) != -jmodel.Max-1 {
			add(int64(w))
		}
	case 3: // deduced from an assertion
		s := add(0)
		s.Elided, s.Assert = true, &jmodel.Value{Amt: huge(n), Cur: cur}
	}
	for i := range l {
		k := i + n(len(l)-i)
		l[i], l[k] = l[k], l[i]
	}
	for _, s := range l {
		if n(12) == 11 {
			d := t.Time.AddDate(0, 0, n(40)-20)
			s.Date = &d
		}
	}
	for _, s := range l {
		if s.Elided {
			s.Val = jmodel.Value{}
		}
	}
	t.Splits = l
}

func c03(c *engine.Ctx) {
	kind := c.N(6)
	cfg := jmodel.Config{MaxTxns: 8, MaxPrices: 4, Includes: 2, Deep: true, Automatic: true}
	if kind == 1 || kind == 2 {
		cfg.NoImplicit = true
	}
	j := jmodel.Gen(c.Tape, cfg)
	c.Trivial = true
	for _, it := range j.Items {
		if it.Txn != nil {
			c.Trivial = false
		}
	}
	w := c.World()
	var what []string
	if kind == 1 || kind == 2 {
		what = alter(c, j, w.Fire)
		// whether a price with no value is out of order means nothing
		var last time.Time
		for _, it := range j.Items {
			if it.Price == nil || it.Head != "" {
				continue
			}
			if it.Tail != "" && last.After(it.Price.Time) {
				it.Head = "x"
			}
			if !it.Out() {
				last = it.Price.Time
			}
		}
	}
	files := j.Files()
	var strays []string
	if kind <= 2 && c.N(4) == 3 {
		// something that cannot be understood, and what is written below it
		b := string(files[j.Root])
		if b != "" && !strings.HasSuffix(b, "\n") {
			b += "\n"
		}
		for k := c.Range(1, 2); k > 0; k-- {
			b += []string{"include nowhere.ledger", "include", "nonsense", "P 2020-99-01 EUR 2", "2020-02-31 Never", "commodity", "P", "end"}[c.N(8)] + "\n"
			strays = append(strays, fmt.Sprintf("%s:%d", j.Root, strings.Count(b, "\n")))
			for i := c.N(3); i > 0; i-- {
				b += []string{"  ; stray comment", "\t; code:12", "  ; date:2020-01-01", "  Assets:Stray  5 XXX", "  ; payee:x"}[c.N(5)] + "\n"
				strays = append(strays, fmt.Sprintf("%s:%d", j.Root, strings.Count(b, "\n")))
			}
		}
		files[j.Root] = []byte(b)
		what = append(what, "entries that cannot be understood at the end")
		w.Fire("unreadable-entry")
	}
	if kind > 2 {
		what = corrupt(c, files, 4)
		w.Fire("damaged-bytes")
	}
	logFiles(c, files)
	c.Logf("damage: %s", strings.Join(what, "; "))
	put(w, files)
	fragment(c, w)
	o := open(w, anyEnv(c), j.Root)
	must(c, o.Res, "opening")
	c.Logf("error: %v", o.Err)
	c.Note = noteJournal(j, files) + "; " + strings.Join(what, "; ")
	if o.Err == nil {
		if why := inconsistency(o.L); why != "" {
			c.Fail("inconsistent books", "(%s) Open gave no error, but %s", strings.Join(what, "; "), why)
		}
	}
	if kind > 2 {
		if o.Err == nil {
			c.Probe("damaged and accepted")
		} else {
			c.Probe("damaged and rejected")
		}
		return
	}
	want, err := model(j.Items, modelOpt)
	if huge := strings.Contains(strings.Join(what, "; "), "huge amounts"); huge && err == nil {
		c.Probe("accepted with huge amounts")
	} else if err != nil && strings.Contains(err.Error(), "not fit") {
		c.Probe("does not fit")
	}
	switch {
	case err != nil && o.Err == nil:
		c.Fail("inconsistent books", "(%s) Open gave no error, but %v", strings.Join(what, "; "), err)
	case err == nil && o.Err != nil:
		c.Fail("consistent journal rejected", "(%s) Open says: %v", strings.Join(what, "; "), o.Err)
	case err != nil:
		c.Probe("inconsistent and rejected")
	default:
		if kind == 0 {
			c.Probe("undamaged")
		} else {
			c.Probe("damaged but consistent")
		}
		for _, at := range strays {
			said(c, w.Stderr, at, "the line")
			c.Probe("lines below what cannot be understood")
		}
		for _, it := range j.Items {
			if it.Out() {
				said(c, w.Stderr, it.At, "the entry")
				continue
			}
			if it.Txn == nil {
				continue
			}
			for _, s := range it.Txn.Splits {
				if s.Out() {
					said(c, w.Stderr, s.At, "the movement of "+s.Acc)
				}
			}
		}
		diff(c, "wrong ledger", "("+strings.Join(what, "; ")+") the ledger is not what the journal says", want, canon.Dump(o.L, modelOpt), "journal", "ledger")
	}
}

// said fails if no diagnostic names the place where something that was left
// out is written.
func said(c *engine.Ctx, stderr []byte, at, what string) {
	for _, l := range strings.Split(string(stderr), "\n") {
		if i := strings.Index(l, at); i >= 0 {
			rest := l[i+len(at):]
			if (rest == "" || rest[0] < '0' || rest[0] > '9') && !strings.HasPrefix(rest, " undefined ") {
				c.Probe("left out and said so")
				return
			}
		}
	}
	c.Fail("left out in silence", "%s at %s is left out and no diagnostic says so; standard error: %q", what, at, stderr)
}
