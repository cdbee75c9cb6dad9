package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cespedes/accounting"

	"verif.local/rt"

	"verifsim/canon"
	"verifsim/engine"
	"verifsim/jmodel"
)

// ident identifies things of ledgers built here.
type ident string

func (i ident) String() string { return string(i) }

// mAcc is an account of an abstract ledger.
type mAcc struct {
	name   string
	parent *mAcc
	code   string
	notes  []string
}

func (a *mAcc) full() string {
	if a.parent == nil {
		return a.name
	}
	return a.parent.full() + ":" + a.name
}

// abstract is the primary data of a ledger.
type abstract struct {
	accs   []*mAcc
	txns   []*jmodel.Txn
	prices []*jmodel.Price
	curs   []*jmodel.Cur
	def    *jmodel.Cur
	acc    map[*jmodel.Split]*mAcc
	n      int
	huge   bool // amounts near the limits
}

// handles relates an abstract ledger to a real one.
type handles struct {
	l     *accounting.Ledger
	acc   map[*mAcc]*accounting.Account
	txn   map[*jmodel.Txn]*accounting.Transaction
	split map[*jmodel.Split]*accounting.Split
	price map[*jmodel.Price]*accounting.Price
	cur   map[*jmodel.Cur]*accounting.Currency
}

func newHandles(l *accounting.Ledger) *handles {
	return &handles{l, map[*mAcc]*accounting.Account{}, map[*jmodel.Txn]*accounting.Transaction{}, map[*jmodel.Split]*accounting.Split{},
		map[*jmodel.Price]*accounting.Price{}, map[*jmodel.Cur]*accounting.Currency{}}
}

// items is the abstract ledger as a journal.
func (m *abstract) items() []*jmodel.Item {
	var l []*jmodel.Item
	for _, c := range m.curs {
		if c.Name != "" {
			l = append(l, &jmodel.Item{Cur: c})
		}
	}
	if m.def != nil {
		l = append(l, &jmodel.Item{Default: &jmodel.Value{Amt: jmodel.U, Cur: m.def}})
	}
	for _, a := range m.preorder() {
		l = append(l, &jmodel.Item{Acc: &jmodel.Acc{Full: a.full(), Code: a.code, Comments: a.notes}})
	}
	for _, p := range m.prices {
		l = append(l, &jmodel.Item{Price: p})
	}
	for _, t := range m.txns {
		for _, s := range t.Splits {
			s.Acc = m.acc[s].full()
		}
		l = append(l, &jmodel.Item{Txn: t})
	}
	return l
}

func (m *abstract) preorder() []*mAcc {
	var l []*mAcc
	var walk func(p *mAcc)
	walk = func(p *mAcc) {
		for _, a := range m.accs {
			if a.parent == p {
				l = append(l, a)
				walk(a)
			}
		}
	}
	walk(nil)
	return l
}

// sorted puts everything in the order that Fill gives it.
func (m *abstract) sorted() {
	m.accs = m.preorder()
	sort.SliceStable(m.txns, func(i, j int) bool { return m.txns[i].Time.Before(m.txns[j].Time) })
	sort.SliceStable(m.prices, func(i, j int) bool { return m.prices[i].Time.Before(m.prices[j].Time) })
}

// follow puts everything in the order in which a ledger has it: a recalculation
// that failed may have left it in any.
func (m *abstract) follow(h *handles) {
	at := map[interface{}]int{}
	for i, a := range h.l.Accounts {
		at[a] = i
	}
	for i, t := range h.l.Transactions {
		at[t] = i
	}
	for i, p := range h.l.Prices {
		at[p] = i
	}
	sort.SliceStable(m.accs, func(i, j int) bool { return at[h.acc[m.accs[i]]] < at[h.acc[m.accs[j]]] })
	sort.SliceStable(m.txns, func(i, j int) bool { return at[h.txn[m.txns[i]]] < at[h.txn[m.txns[j]]] })
	sort.SliceStable(m.prices, func(i, j int) bool { return at[h.price[m.prices[i]]] < at[h.price[m.prices[j]]] })
}

// settle makes the deduced amounts and costs part of the primary data, as
// they are after a successful Fill.
func (m *abstract) settle(b *jmodel.Book) {
	for _, t := range m.txns {
		for _, s := range t.Splits {
			if s.Elided {
				s.Elided, s.Val = false, b.Vals[s]
			}
			if v, ok := b.Costs[s]; ok {
				s.Cost, s.CostVal = jmodel.TotalCost, v
			}
		}
	}
}

// abstractOf takes the primary data of a journal.
func abstractOf(j *jmodel.Journal, b *jmodel.Book) *abstract {
	m := &abstract{acc: map[*jmodel.Split]*mAcc{}, curs: b.Curs, def: b.Default}
	byName := map[string]*mAcc{}
	for _, full := range b.Accounts {
		a := &mAcc{name: full}
		if i := strings.LastIndexByte(full, ':'); i >= 0 {
			a.name, a.parent = full[i+1:], byName[full[:i]]
		}
		if d := b.Decl[full]; d != nil {
			a.code, a.notes = d.Code, d.Comments
		}
		byName[full] = a
		m.accs = append(m.accs, a)
	}
	for _, it := range j.Items {
		switch {
		case it.Txn != nil:
			m.txns = append(m.txns, it.Txn)
			for _, s := range it.Txn.Splits {
				m.acc[s] = byName[s.Acc]
			}
		case it.Price != nil:
			m.prices = append(m.prices, it.Price)
		}
	}
	return m
}

func currency(c *jmodel.Cur) *accounting.Currency {
	return &accounting.Currency{Name: c.Name, PrintBefore: c.Before, WithoutSpace: c.NoSpace, Thousand: c.Thousand, Decimal: c.Decimal, Precision: c.Prec, ISIN: c.ISIN, ID: ident("cur " + c.Name)}
}

func (h *handles) val(v jmodel.Value) accounting.Value {
	if v.Cur == nil {
		return accounting.Value{Amount: v.Amt, Currency: new(accounting.Currency)}
	}
	c := h.cur[v.Cur]
	if c == nil {
		c = currency(v.Cur)
		h.cur[v.Cur] = c
		if v.Cur.Name != "" {
			h.l.Currencies = append(h.l.Currencies, c)
		}
	}
	return accounting.Value{Amount: v.Amt, Currency: c}
}

func (h *handles) notes(k interface{}, l []string) {
	if len(l) > 0 {
		h.l.Comments[rt.Seen(k)] = append([]string(nil), l...)
	} else {
		delete(h.l.Comments, k)
	}
}

// put copies a movement's primary data.
func (h *handles) put(m *abstract, t *jmodel.Txn, s *jmodel.Split) {
	x := h.split[s]
	x.Account = h.acc[m.acc[s]]
	x.Time = nil
	if s.Date != nil {
		d := *s.Date
		x.Time = &d
	}
	x.Value = accounting.Value{}
	if !s.Elided {
		x.Value = h.val(s.Val)
	}
	delete(h.l.Assertions, x)
	if s.Assert != nil {
		h.l.Assertions[rt.Seen(x)] = h.val(*s.Assert)
	}
	delete(h.l.SplitPrices, x)
	if s.Cost != jmodel.NoCost {
		h.l.SplitPrices[rt.Seen(x)] = h.val(s.CostVal)
	}
	h.notes(x, s.Comments)
}

func (h *handles) newTxn(m *abstract, t *jmodel.Txn) *accounting.Transaction {
	x := &accounting.Transaction{Time: t.Time, Description: t.Desc, ID: ident("txn " + t.Desc)}
	h.txn[t] = x
	for k, s := range t.Splits {
		sp := &accounting.Split{Transaction: x, ID: ident("split " + strconv.Itoa(k))}
		h.split[s] = sp
		x.Splits = append(x.Splits, sp)
		h.put(m, t, s)
	}
	h.notes(x, t.Comments)
	return x
}

func (h *handles) newPrice(p *jmodel.Price) *accounting.Price {
	x := &accounting.Price{Time: p.Time, Currency: h.val(jmodel.Value{Amt: 0, Cur: p.Cur}).Currency, Value: h.val(p.Val), ID: ident("price")}
	h.price[p] = x
	h.notes(x, p.Comments)
	return x
}

// build makes a new ledger with the primary data.
func (m *abstract) build() *handles {
	l := &accounting.Ledger{Comments: map[interface{}][]string{}, Assertions: map[*accounting.Split]accounting.Value{}, SplitPrices: map[*accounting.Split]accounting.Value{}}
	h := newHandles(l)
	for _, c := range m.curs {
		x := h.val(jmodel.Value{Cur: c}).Currency
		h.notes(x, c.Comments)
	}
	if m.def != nil {
		l.DefaultCurrency = h.val(jmodel.Value{Cur: m.def}).Currency
	}
	for _, a := range m.accs {
		x := &accounting.Account{Name: a.name, Code: a.code, ID: ident("acc " + a.name)}
		h.acc[a] = x
		h.notes(x, a.notes)
		l.Accounts = append(l.Accounts, x)
	}
	for _, a := range m.accs {
		if a.parent != nil {
			h.acc[a].Parent = h.acc[a.parent]
		}
	}
	for _, p := range m.prices {
		l.Prices = append(l.Prices, h.newPrice(p))
	}
	for _, t := range m.txns {
		l.Transactions = append(l.Transactions, h.newTxn(m, t))
	}
	return h
}

// bind finds the things of an opened ledger that correspond to the abstract one.
func (m *abstract) bind(c *engine.Ctx, l *accounting.Ledger) *handles {
	h := newHandles(l)
	bad := func(what string) { c.Fail("wrong ledger", "the opened ledger lacks %s", what) }
	names := map[string]*accounting.Account{}
	for _, a := range l.Accounts {
		if !isTransfer(a) {
			names[canon.FullName(a)] = a
		}
	}
	for _, a := range m.accs {
		if h.acc[a] = names[a.full()]; h.acc[a] == nil {
			bad("account " + a.full())
		}
	}
	for _, x := range m.curs {
		for _, y := range l.Currencies {
			if x.Name == y.Name {
				h.cur[x] = y
			}
		}
		if h.cur[x] == nil {
			bad("currency " + x.Name)
		}
	}
	if m.def != nil {
		if h.cur[m.def] == nil {
			h.cur[m.def] = l.DefaultCurrency
		}
		if h.cur[m.def] == nil || h.cur[m.def] != l.DefaultCurrency {
			bad("its default currency")
		}
	}
	if len(l.Transactions) != len(m.txns) {
		bad("transactions")
	}
	for i, t := range m.txns {
		x := l.Transactions[i]
		h.txn[t] = x
		if len(x.Splits) < len(t.Splits) {
			bad("movements")
		}
		for k, s := range t.Splits {
			h.split[s] = x.Splits[k]
		}
	}
	i := 0
	for _, p := range l.Prices {
		if n := l.Comments[p]; len(n) > 0 && n[len(n)-1] == "automatic" {
			continue
		}
		if i >= len(m.prices) {
			bad("order in its prices")
		}
		h.price[m.prices[i]] = p
		i++
	}
	if i != len(m.prices) {
		bad("prices")
	}
	// a currency without a name that is not the default any more
	same := func(v jmodel.Value, x accounting.Value) {
		if v.Cur != nil && h.cur[v.Cur] == nil && x.Currency != nil {
			h.cur[v.Cur] = x.Currency
		}
	}
	for _, t := range m.txns {
		for _, s := range t.Splits {
			x := h.split[s]
			same(s.Val, x.Value)
			if s.Cost != jmodel.NoCost {
				same(s.CostVal, l.SplitPrices[x])
			}
			if s.Assert != nil {
				same(*s.Assert, l.Assertions[x])
			}
		}
	}
	for _, p := range m.prices {
		same(p.Val, h.price[p].Value)
	}
	return h
}

func anyTime(c *engine.Ctx, m *abstract) time.Time {
	base := time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC)
	if len(m.txns) > 0 {
		base = m.txns[c.N(len(m.txns))].Time
	}
	return base.AddDate(0, 0, c.Range(-20, 20)).Add(time.Duration(c.N(3)) * time.Hour)
}

func (m *abstract) uses(a *mAcc) bool {
	for _, b := range m.accs {
		if b.parent == a {
			return true
		}
	}
	for _, t := range m.txns {
		for _, s := range t.Splits {
			if m.acc[s] == a {
				return true
			}
		}
	}
	return false
}

// edit makes one change of the primary data, in the abstract ledger and in
// real ones, and describes it.
func (m *abstract) edit(c *engine.Ctx, hs ...*handles) string {
	m.n++
	if len(m.curs) == 0 && m.def == nil {
		x := &jmodel.Cur{Name: "EUR", Decimal: ".", Prec: 2}
		m.curs = append(m.curs, x)
		for _, h := range hs {
			h.val(jmodel.Value{Cur: x})
		}
	}
	all := append([]*jmodel.Cur(nil), m.curs...)
	if m.def != nil && m.def.Name == "" {
		all = append(all, m.def)
	}
	cur := func() *jmodel.Cur { return all[c.N(len(all))] }
	amount := func() int64 {
		if m.huge && c.N(3) > 0 {
			return huge(c.N)
		}
		a := int64(c.Range(1, 300)) * jmodel.U / 4
		if c.N(2) == 1 {
			a = -a
		}
		return a
	}
	addAcc := func() string {
		m.n++
		a := &mAcc{name: fmt.Sprintf("New %d", m.n)}
		if k := c.N(len(m.accs) + 1); k > 0 {
			a.parent = m.accs[k-1]
		}
		if c.N(3) == 2 {
			a.code = "n" + strconv.Itoa(m.n)
		}
		front := c.N(2) == 1
		if front {
			m.accs = append([]*mAcc{a}, m.accs...)
		} else {
			m.accs = append(m.accs, a)
		}
		for _, h := range hs {
			x := &accounting.Account{Name: a.name, Code: a.code}
			if a.parent != nil {
				x.Parent = h.acc[a.parent]
			}
			h.acc[a] = x
			if front {
				h.l.Accounts = append([]*accounting.Account{x}, h.l.Accounts...)
			} else {
				h.l.Accounts = append(h.l.Accounts, x)
			}
		}
		return "new account " + a.full()
	}
	newTxn := func() string {
		for len(m.accs) < 2 {
			addAcc()
		}
		t := &jmodel.Txn{Time: anyTime(c, m), Desc: fmt.Sprintf("New %d", m.n)}
		add := func(v jmodel.Value) *jmodel.Split {
			s := &jmodel.Split{Val: v}
			m.acc[s] = m.accs[c.N(len(m.accs))]
			t.Splits = append(t.Splits, s)
			return s
		}
		k, a := cur(), amount()
		add(jmodel.Value{Amt: a, Cur: k})
		switch c.N(6) {
		case 0, 1:
			add(jmodel.Value{Amt: -a, Cur: k})
		case 2, 3:
			add(jmodel.Value{}).Elided = true
		case 4:
			add(jmodel.Value{Amt: -a, Cur: cur()})
		case 5:
			x := cur()
			b := amount()
			if x != k {
				t.Splits[0].Cost, t.Splits[0].CostVal = jmodel.TotalCost, jmodel.Value{Amt: b, Cur: x}
				add(jmodel.Value{Amt: -b, Cur: x})
			} else {
				add(jmodel.Value{Amt: -a, Cur: k})
			}
		}
		if c.N(4) == 3 {
			d := anyTime(c, m)
			t.Splits[c.N(len(t.Splits))].Date = &d
		}
		front := c.N(3) == 2
		if front {
			m.txns = append([]*jmodel.Txn{t}, m.txns...)
		} else {
			m.txns = append(m.txns, t)
		}
		for _, h := range hs {
			x := h.newTxn(m, t)
			if front {
				h.l.Transactions = append([]*accounting.Transaction{x}, h.l.Transactions...)
			} else {
				h.l.Transactions = append(h.l.Transactions, x)
			}
		}
		return "new transaction " + t.Desc
	}
	kind := c.N(19)
	var t *jmodel.Txn
	var s *jmodel.Split
	si := 0
	if kind >= 6 && kind < 15 {
		if len(m.txns) == 0 {
			return newTxn()
		}
		t = m.txns[c.N(len(m.txns))]
		if len(t.Splits) > 0 {
			si = c.N(len(t.Splits))
			s = t.Splits[si]
		} else if kind > 7 {
			kind = 6
		}
	}
	update := func(what string) string {
		for _, h := range hs {
			h.put(m, t, s)
		}
		return fmt.Sprintf("%s of movement %d of %q", what, si, t.Desc)
	}
	switch kind {
	case 0:
		return addAcc()
	case 1: // remove an account nobody uses
		for i, a := range m.accs {
			if m.uses(a) {
				continue
			}
			m.accs = append(append([]*mAcc(nil), m.accs[:i]...), m.accs[i+1:]...)
			for _, h := range hs {
				for k, x := range h.l.Accounts {
					if x == h.acc[a] {
						h.l.Accounts = append(append([]*accounting.Account(nil), h.l.Accounts[:k]...), h.l.Accounts[k+1:]...)
						break
					}
				}
				delete(h.l.Comments, h.acc[a])
				delete(h.acc, a)
			}
			return "remove account " + a.full()
		}
		return addAcc()
	case 2: // move or rename an account
		if len(m.accs) == 0 {
			return addAcc()
		}
		a := m.accs[c.N(len(m.accs))]
		var p *mAcc
		if k := c.N(len(m.accs) + 1); k > 0 {
			p = m.accs[k-1]
		}
		for q := p; q != nil; q = q.parent {
			if q == a {
				p = nil
			}
		}
		old := a.full()
		a.parent = p
		a.name = fmt.Sprintf("Moved %d", m.n)
		for _, h := range hs {
			x := h.acc[a]
			x.Name, x.Parent = a.name, nil
			if p != nil {
				x.Parent = h.acc[p]
			}
		}
		return "account " + old + " becomes " + a.full()
	case 3, 4, 5:
		return newTxn()
	case 6: // remove a transaction
		return m.removeTxn(t, hs...)
	case 7: // another time for a transaction
		t.Time = anyTime(c, m)
		follow := c.N(2) == 1 // the times of its movements are the one of the transaction
		for _, h := range hs {
			h.txn[t].Time = t.Time
			for _, s := range t.Splits {
				if s.Date == nil && !follow {
					h.split[s].Time = nil
				}
			}
		}
		return fmt.Sprintf("transaction %q is of %v", t.Desc, t.Time)
	case 8: // another amount
		s.Elided, s.Val = false, jmodel.Value{Amt: amount(), Cur: cur()}
		if c.N(2) == 1 { // one that balances
			rest := map[*jmodel.Cur]int64{}
			for _, o := range t.Splits {
				if o == s || o.Elided {
					continue
				}
				v := o.Val
				if o.Cost != jmodel.NoCost {
					v = o.CostVal
				}
				rest[v.Cur] += v.Amt
			}
			for _, k := range all {
				if rest[k] != 0 && rest[k] != -jmodel.Max-1 {
					s.Val = jmodel.Value{Amt: -rest[k], Cur: k}
				}
			}
			s.Cost = jmodel.NoCost
		}
		return update("another amount")
	case 9: // to be deduced
		s.Elided, s.Val = true, jmodel.Value{}
		if s.Assert != nil || c.N(4) < 3 { // or a cost of nothing
			s.Cost, s.CostVal = jmodel.NoCost, jmodel.Value{}
		}
		return update("no amount")
	case 10: // in another account
		m.acc[s] = m.accs[c.N(len(m.accs))]
		return update("another account")
	case 11: // another date, or none
		s.Date = nil
		if c.N(3) > 0 {
			d := anyTime(c, m)
			if c.N(4) == 3 {
				d = t.Time
			}
			s.Date = &d
		}
		return update("another date")
	case 12: // assertion
		s.Assert = nil
		if c.N(3) > 0 && !(s.Elided && s.Cost != jmodel.NoCost) {
			s.Assert = &jmodel.Value{Amt: amount(), Cur: cur()}
			if c.N(2) == 1 { // a true one
				if b, err := jmodel.Eval(m.orderedItems()); err == nil {
					s.Assert.Amt = b.Bals[s][s.Assert.Cur]
				}
			}
		}
		return update("another assertion")
	case 13: // cost
		s.Cost, s.CostVal = jmodel.NoCost, jmodel.Value{}
		if k := cur(); c.N(3) > 0 && !s.Elided && k != s.Val.Cur {
			s.Cost, s.CostVal = jmodel.TotalCost, jmodel.Value{Amt: amount(), Cur: k}
		}
		return update("another cost")
	case 14: // add or remove a movement
		if c.N(2) == 1 {
			t.Splits = append(append([]*jmodel.Split(nil), t.Splits[:si]...), t.Splits[si+1:]...)
			for _, h := range hs {
				x := h.txn[t]
				y := h.split[s]
				for k, z := range x.Splits {
					if y == z {
						x.Splits = append(append([]*accounting.Split(nil), x.Splits[:k]...), x.Splits[k+1:]...)
						break
					}
				}
				delete(h.l.Assertions, y)
				delete(h.l.SplitPrices, y)
				delete(h.l.Comments, y)
			}
			return fmt.Sprintf("remove movement %d of %q", si, t.Desc)
		}
		s = &jmodel.Split{Val: jmodel.Value{Amt: amount(), Cur: cur()}}
		m.acc[s] = m.accs[c.N(len(m.accs))]
		if c.N(2) == 1 {
			s.Elided, s.Val = true, jmodel.Value{}
		}
		t.Splits = append([]*jmodel.Split{s}, t.Splits...)
		for _, h := range hs {
			h.split[s] = &accounting.Split{Transaction: h.txn[t]}
			h.txn[t].Splits = append([]*accounting.Split{h.split[s]}, h.txn[t].Splits...)
		}
		si = 0
		return update("new amount")
	case 15: // price
		if len(m.curs) < 2 {
			return newTxn()
		}
		k := m.curs[c.N(len(m.curs))]
		v := cur()
		if k == v || k.Name == "" {
			return newTxn()
		}
		p := &jmodel.Price{Time: anyTime(c, m), Cur: k, Val: jmodel.Value{Amt: int64(c.Range(1, 400)) * jmodel.U / 8, Cur: v}}
		m.prices = append(m.prices, p)
		for _, h := range hs {
			h.l.Prices = append(h.l.Prices, h.newPrice(p))
		}
		return "new price of " + k.Name
	case 16: // remove or change a price
		if len(m.prices) == 0 {
			return newTxn()
		}
		i := c.N(len(m.prices))
		p := m.prices[i]
		if c.N(2) == 1 {
			p.Time = anyTime(c, m)
			p.Val.Amt = int64(c.Range(1, 400)) * jmodel.U / 8
			for _, h := range hs {
				h.price[p].Time = p.Time
				h.price[p].Value = h.val(p.Val)
			}
			return "change a price of " + p.Cur.Name
		}
		m.prices = append(append([]*jmodel.Price(nil), m.prices[:i]...), m.prices[i+1:]...)
		for _, h := range hs {
			for k, x := range h.l.Prices {
				if x == h.price[p] {
					h.l.Prices = append(append([]*accounting.Price(nil), h.l.Prices[:k]...), h.l.Prices[k+1:]...)
					delete(h.l.Comments, x)
					break
				}
			}
		}
		return "remove a price of " + p.Cur.Name
	case 17: // spoil derived data
		which := c.N(6)
		for _, h := range hs {
			for i, a := range h.l.Accounts {
				if isTransfer(a) {
					continue
				}
				switch which {
				case 0:
					a.Level = 7 - i
				case 1:
					a.Children = append(a.Children, a)
				case 2:
					a.Splits = nil
				}
			}
			for _, t := range h.l.Transactions {
				for _, s := range t.Splits {
					switch which {
					case 3:
						s.Balance = accounting.Balance{{Amount: 42}}
					case 4:
						if !isTransfer(s.Account) {
							s.Transaction = nil
						}
					case 5:
						if !isTransfer(s.Account) {
							s.Transaction = h.l.Transactions[0]
						}
					}
				}
			}
		}
		return "spoil derived data"
	case 18: // the movements of a transaction join another one
		if len(m.txns) < 2 {
			return newTxn()
		}
		i := c.N(len(m.txns))
		t, o := m.txns[i], m.txns[(i+c.Range(1, len(m.txns)-1))%len(m.txns)]
		for _, h := range hs {
			var l []*accounting.Split
			for _, s := range o.Splits {
				x := h.split[s]
				if s.Date == nil {
					x.Time = nil
				}
				l = append(l, x)
			}
			h.txn[t].Splits = append(l, h.txn[t].Splits...)
			for k, x := range h.l.Transactions {
				if x == h.txn[o] {
					h.l.Transactions = append(append([]*accounting.Transaction(nil), h.l.Transactions[:k]...), h.l.Transactions[k+1:]...)
					break
				}
			}
			delete(h.l.Comments, h.txn[o])
		}
		t.Splits = append(append([]*jmodel.Split(nil), o.Splits...), t.Splits...)
		for k, x := range m.txns {
			if x == o {
				m.txns = append(append([]*jmodel.Txn(nil), m.txns[:k]...), m.txns[k+1:]...)
				break
			}
		}
		return fmt.Sprintf("the movements of %q join %q", o.Desc, t.Desc)
	}
	panic("unreachable")
}

func (m *abstract) removeTxn(t *jmodel.Txn, hs ...*handles) string {
	for i, o := range m.txns {
		if o == t {
			m.txns = append(append([]*jmodel.Txn(nil), m.txns[:i]...), m.txns[i+1:]...)
			break
		}
	}
	for _, h := range hs {
		x := h.txn[t]
		for k, y := range h.l.Transactions {
			if x == y {
				h.l.Transactions = append(append([]*accounting.Transaction(nil), h.l.Transactions[:k]...), h.l.Transactions[k+1:]...)
				break
			}
		}
		delete(h.l.Comments, x)
		for _, s := range x.Splits {
			delete(h.l.Assertions, s)
			delete(h.l.SplitPrices, s)
			delete(h.l.Comments, s)
		}
	}
	return "remove transaction " + t.Desc
}

// repair makes the books consistent, by removing transactions.
func (m *abstract) repair(c *engine.Ctx, hs ...*handles) string {
	what := "repair:"
	for len(m.txns) > 0 {
		if _, err := jmodel.Eval(m.orderedItems()); err == nil {
			break
		}
		// one whose removal is enough, if any
		all := m.txns
		k := -1
		for i := range all {
			m.txns = append(append([]*jmodel.Txn(nil), all[:i]...), all[i+1:]...)
			if _, err := jmodel.Eval(m.orderedItems()); err == nil {
				k = i
				break
			}
		}
		m.txns = all
		if k < 0 {
			k = c.N(len(all))
		}
		what += " " + m.removeTxn(all[k], hs...)
	}
	return what
}

func (m *abstract) orderedItems() []*jmodel.Item {
	n := *m
	n.accs = append([]*mAcc(nil), m.accs...)
	n.txns = append([]*jmodel.Txn(nil), m.txns...)
	n.prices = append([]*jmodel.Price(nil), m.prices...)
	n.sorted()
	return n.items()
}
