package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
	pq "github.com/lib/pq"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
)

// store is what a text database or a PostgreSQL database contains.
type store struct {
	accs []*stAcc
	txns []*stTxn
	next int
	last time.Time
}

type stAcc struct {
	id         int
	name, code string
	parent     *stAcc
}

type stTxn struct {
	id     int
	time   time.Time
	desc   string
	splits []*stSplit
	assert *int64 // a line with a balance and no amount
}

type stSplit struct {
	acc  *stAcc
	when time.Time
	amt  int64
	text string // how the amount is written, if not in the usual way
}

func (a *stAcc) full() string {
	if a.parent == nil {
		return a.name
	}
	return a.parent.full() + ":" + a.name
}

var stNames = []string{"Assets", "Bank", "Cash", "Café", "Income", "Expense", "Food", "Food & drink", "x", "Équity", "A.B", "Visa 4"}

func (s *store) addAcc(c *engine.Ctx) *stAcc {
	a := &stAcc{id: s.next + 1 + c.N(3)}
	s.next = a.id
	a.name = stNames[c.N(len(stNames))]
	if len(s.accs) > 0 && c.N(2) == 1 {
		a.parent = s.accs[c.N(len(s.accs))]
	}
	for i := 2; ; i++ {
		ok := true
		for _, b := range s.accs {
			if b.full() == a.full() {
				ok = false
			}
		}
		if ok {
			break
		}
		a.name = fmt.Sprintf("%s %d", stNames[i%len(stNames)], i)
	}
	if c.N(3) == 2 {
		a.code = fmt.Sprint("code", c.N(9))
	}
	s.accs = append(s.accs, a)
	return a
}

// addTxn adds a balanced transaction; cents tells that amounts have no more than two decimals.
func (s *store) addTxn(c *engine.Ctx, cents bool) *stTxn {
	t := &stTxn{id: len(s.txns) + 1}
	switch c.N(4) {
	case 0:
	case 1:
		s.last = s.last.Add(time.Duration(1+c.N(300)) * time.Minute)
	default:
		s.last = s.last.AddDate(0, 0, 1+c.N(40))
	}
	t.time = s.last
	t.desc = []string{"Shop", "rent", "", "señal", "two words", "100%"}[c.N(6)]
	var sum int64
	n := 2 + c.N(3)
	unit := int64(1)
	if cents {
		unit = 1_000_000
	}
	for i := 0; i < n; i++ {
		sp := &stSplit{acc: s.accs[c.N(len(s.accs))], when: t.time}
		if i == n-1 {
			sp.amt = -sum
		} else {
			for sp.amt == 0 || sum+sp.amt == 0 {
				switch c.N(4) {
				case 0:
					sp.amt = int64(c.Range(-500, 500)) * accounting.U
				case 1:
					sp.amt = int64(c.Range(-99999, 99999)) * 1_000_000
				case 2:
					sp.amt = int64(c.Range(-99999, 99999)) * unit
				case 3:
					sp.amt = int64(c.Range(1, 3)) * 1_000_000_000_000_00
				}
				if sp.amt == 0 || sum+sp.amt == 0 {
					sp.amt += 1_000_000
				}
			}
		}
		sum += sp.amt
		t.splits = append(t.splits, sp)
	}
	s.txns = append(s.txns, t)
	return t
}

// genStore makes the contents of a database.
func genStore(c *engine.Ctx, cents bool) *store {
	s := new(store)
	s.last = time.Date(2000+c.N(25), time.Month(1+c.N(12)), 1+c.N(28), c.N(24), c.N(60), 0, 0, time.UTC)
	if c.N(3) == 0 {
		s.last = s.last.Truncate(24 * time.Hour)
	}
	for n := c.Range(0, 6); n >= 0; n-- {
		s.addAcc(c)
	}
	n := c.N(6)
	if n == 5 && c.N(6) == 5 {
		n = c.Range(13, 40) // enough for sorting them to be another matter
		c.Probe("many transactions")
	}
	for ; n > 0; n-- {
		s.addTxn(c, cents)
	}
	return s
}

// broken tells why a store must be rejected, even if it balances.
func (s *store) broken() string {
	for _, t := range s.txns {
		for _, sp := range t.splits {
			if sp.text != "" {
				return "the amount " + sp.text + " cannot be represented"
			}
			if sp.acc.id == 9999 {
				return "an account does not exist"
			}
		}
	}
	return ""
}

// clone copies a store, so that the copy can grow.
func (s *store) clone() *store {
	n := *s
	n.accs = append([]*stAcc(nil), s.accs...)
	n.txns = append([]*stTxn(nil), s.txns...)
	return &n
}

// model is the ledger that the store stands for. The accounts are in the given order.
func (s *store) model(accs []*stAcc, decimal string, ids string, o canon.Opt) ([]string, error) {
	cur := &jmodel.Cur{Prec: 2, Decimal: decimal}
	var items []*jmodel.Item
	for _, a := range accs {
		items = append(items, &jmodel.Item{Acc: &jmodel.Acc{Full: a.full(), Code: a.code}})
	}
	txns := append([]*stTxn(nil), s.txns...)
	sort.SliceStable(txns, func(i, j int) bool { return txns[i].time.Before(txns[j].time) })
	for _, t := range txns {
		x := &jmodel.Txn{Time: t.time, Desc: t.desc}
		for _, sp := range t.splits {
			y := &jmodel.Split{Acc: sp.acc.full(), Val: jmodel.Value{Amt: sp.amt, Cur: cur}}
			if !sp.when.Equal(t.time) {
				w := sp.when
				y.Date = &w
			}
			if t.assert != nil {
				y.Elided = true
				y.Assert = &jmodel.Value{Amt: *t.assert, Cur: cur}
			}
			x.Splits = append(x.Splits, y)
		}
		items = append(items, &jmodel.Item{Txn: x})
	}
	b, err := jmodel.Eval(items)
	if err != nil {
		return nil, err
	}
	snap := b.Snap(o)
	snap.Curs = nil
	snap.Default = "¤ " + canon.FormatOf(false, false, "", decimal, 2)
	byName := map[string]*stAcc{}
	for _, a := range accs {
		byName[a.full()] = a
	}
	for i := range snap.Accounts {
		if a := byName[snap.Accounts[i].Name]; a != nil {
			snap.Accounts[i].ID = fmt.Sprint(ids, a.id)
		}
	}
	return snap.Lines(o), nil
}

// described is like canon.Dump with the identifiers of the accounts only.
func described(l *accounting.Ledger, o canon.Opt) []string {
	s := canon.Of(l, o)
	byName := map[string]string{}
	for _, a := range l.Accounts {
		if a.ID != nil {
			byName[a.FullName()] = a.ID.String()
		}
	}
	for i := range s.Accounts {
		s.Accounts[i].ID = byName[s.Accounts[i].Name]
	}
	return s.Lines(o)
}

// ---- text databases ----

func cents(a int64) string {
	sign := "+"
	if a < 0 {
		sign, a = "-", -a
	}
	return fmt.Sprintf("%s%d.%02d", sign, a/accounting.U, a%accounting.U/1_000_000)
}

func txtTime(t time.Time, style int) string {
	if t.Hour() == 0 && t.Minute() == 0 && style%2 == 0 {
		return t.Format("2006-01-02")
	}
	return t.Format("2006-01-02 15.04")
}

// txt writes the store as the files of a text database.
func (s *store) txt(c *engine.Ctx) (accounts, transactions []byte) {
	style := c.N(8)
	var a, t strings.Builder
	list := s.accs
	if style&1 == 1 { // parents after their children
		list = nil
		for i := len(s.accs) - 1; i >= 0; i-- {
			list = append(list, s.accs[i])
		}
	}
	if style&2 == 2 {
		a.WriteString("# accounts\n\n")
		t.WriteString("# transactions\n\n")
	}
	for _, x := range list {
		a.WriteString(x.line())
	}
	bals := map[*stAcc]int64{}
	for i, x := range s.txns {
		t.WriteString(x.lines(i, style, bals))
	}
	return []byte(a.String()), []byte(t.String())
}

func (a *stAcc) line() string {
	parent := ""
	if a.parent != nil {
		parent = fmt.Sprint(a.parent.id)
	}
	return fmt.Sprintf("%d:%s:%s:%s:%s:%s\n", a.id, "", "EUR", a.name, a.code, parent)
}

func (t *stTxn) lines(i, style int, bals map[*stAcc]int64) string {
	var b strings.Builder
	for _, sp := range t.splits {
		amt := cents(sp.amt)
		if sp.text != "" {
			amt = sp.text
		}
		bals[sp.acc] += sp.amt
		bal := ""
		if style&4 == 4 {
			bal = cents(bals[sp.acc])
		}
		if t.assert != nil {
			amt, bal = "", cents(*t.assert)
		}
		fmt.Fprintf(&b, "%d:%s:%s:%s:%d:%s:%s\n", i+1, txtTime(sp.when, style), t.desc, "", sp.acc.id, amt, bal)
	}
	return b.String()
}

// txtModel is what a text database must be opened as.
func (s *store) txtModel() ([]string, error) {
	accs := append([]*stAcc(nil), s.accs...)
	sort.SliceStable(accs, func(i, j int) bool { return accs[i].full() < accs[j].full() })
	// parents before their children
	var order []*stAcc
	var walk func(p *stAcc)
	walk = func(p *stAcc) {
		for _, a := range accs {
			if a.parent == p {
				order = append(order, a)
				walk(a)
			}
		}
	}
	walk(nil)
	return s.model(order, ".", "id:", canon.Opt{PriceOrder: true})
}

// ---- PostgreSQL ----

// pg is the store as the state of a PostgreSQL database. Rows of a table are
// in no particular order.
func (s *store) pg() pq.State {
	acc := &pq.Table{Columns: []string{"id", "parent_id", "name", "code"}}
	tra := &pq.Table{Columns: []string{"id", "datetime", "description"}}
	spl := &pq.Table{Columns: []string{"transaction_id", "account_id", "value"}}
	for _, a := range s.accs {
		row := []pq.Datum{int64(a.id), nil, a.name, nil}
		if a.parent != nil {
			row[1] = int64(a.parent.id)
		}
		if a.code != "" || a.id%2 == 0 {
			row[3] = a.code
		}
		acc.Rows = append(acc.Rows, row)
	}
	for _, t := range s.txns {
		row := []pq.Datum{int64(t.id), t.time, nil}
		if t.desc != "" || t.id%2 == 0 {
			row[2] = t.desc
		}
		tra.Rows = append(tra.Rows, row)
		for _, sp := range t.splits {
			var v pq.Datum
			switch sp.text {
			case "":
				v = big.NewRat(sp.amt, accounting.U)
			case "NULL":
			default:
				r, ok := new(big.Rat).SetString(sp.text)
				if !ok {
					panic(sp.text)
				}
				v = r
			}
			spl.Rows = append(spl.Rows, []pq.Datum{int64(t.id), int64(sp.acc.id), v})
		}
	}
	return pq.State{"account": acc, "transaction": tra, "split": spl}
}

// pgModel is what a PostgreSQL database must be opened as: like the ledger,
// as far as the order of a transaction's movements is concerned.
func (s *store) pgModel(l *accounting.Ledger) ([]string, error) {
	n := s.clone()
	byID := map[string]*accounting.Transaction{}
	if l != nil {
		for _, t := range l.Transactions {
			if t.ID != nil {
				byID[t.ID.String()] = t
			}
		}
	}
	sort.SliceStable(n.txns, func(i, j int) bool {
		if n.txns[i].time.Equal(n.txns[j].time) {
			return n.txns[i].id < n.txns[j].id
		}
		return n.txns[i].time.Before(n.txns[j].time)
	})
	for i, t := range n.txns {
		x := byID[fmt.Sprint(t.id)]
		if x == nil {
			continue
		}
		var order []*stSplit
		used := map[*stSplit]bool{}
		for _, y := range x.Splits {
			for _, sp := range t.splits {
				if !used[sp] && y.Account != nil && y.Account.FullName() == sp.acc.full() && y.Value.Amount == sp.amt {
					used[sp] = true
					order = append(order, sp)
					break
				}
			}
		}
		for _, sp := range t.splits {
			if !used[sp] {
				order = append(order, sp)
			}
		}
		u := *t
		u.splits = order
		n.txns[i] = &u
	}
	var order []*stAcc
	var walk func(p *stAcc)
	walk = func(p *stAcc) {
		for _, a := range n.accs {
			if a.parent == p {
				order = append(order, a)
				walk(a)
			}
		}
	}
	sort.SliceStable(n.accs, func(i, j int) bool { return n.accs[i].id < n.accs[j].id })
	walk(nil)
	return n.model(order, ".", "", canon.Opt{PriceOrder: true})
}
