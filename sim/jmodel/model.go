// Package jmodel is the reference model of journals: an abstract journal, how
// it is written as text, and, computed independently of the code under test,
// the ledger it stands for.
package jmodel

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"verifsim/canon"
)

// U is one unit.
const U = 100_000_000

// Cur is a currency.
type Cur struct {
	Name     string // "" is the unnamed default currency
	Before   bool
	NoSpace  bool
	Thousand string
	Decimal  string
	Prec     int
	ISIN     string
	Comments []string
	Implicit bool // not declared: its format comes from its first amount
}

// Value is an amount of a currency.
type Value struct {
	Amt int64
	Cur *Cur
}

// Acc is an account declaration.
type Acc struct {
	Full     string
	Code     string
	Comments []string
}

// Kinds of cost.
const (
	NoCost = iota
	UnitCost
	TotalCost
)

// Split is a movement.
type Split struct {
	Acc      string
	Elided   bool
	Val      Value
	Cost     int
	CostVal  Value // price of one, or total
	Assert   *Value
	Date     *time.Time
	Comments []string
	Bad      int    // which of its amounts cannot be read: the movement is left out
	BadText  string // how that is written
	At       string // where it is written: file:line
}

// Which amount of a movement is unreadable.
const (
	BadAmount = 1 + iota
	BadCost
	BadAssert
	BadWhole // all that follows its account
)

// Txn is a transaction.
type Txn struct {
	Time     time.Time
	Desc     string
	Comments []string
	Splits   []*Split
}

// Price is a market price.
type Price struct {
	Time     time.Time
	Cur      *Cur
	Val      Value
	Comments []string
}

// Item is one entry of a journal.
type Item struct {
	Acc     *Acc
	Cur     *Cur
	Default *Value // D directive
	Txn     *Txn
	Price   *Price
	Text    string // a comment or blank line
	File    int    // in which file it is written
	Head    string // how its first word (after P, if it is a price) is written, if it cannot be understood: the entry is left out
	Tail    string // how a price is written after its date, if it cannot be understood: the entry is left out
	At      string // where it is written: file:line
}

// Doc is a journal. Files form a tree: file f is included by Parent[f].
type Doc struct {
	Items  []*Item
	Parent []int // Parent[0] is -1
	Names  []string
	Style  uint64
}

type loc struct{ t, s int }

// Inconsistent is the error of Eval for journals that must be rejected.
type Inconsistent struct{ Why string }

func (e *Inconsistent) Error() string { return e.Why }

func bad(format string, a ...interface{}) error { return &Inconsistent{fmt.Sprintf(format, a...)} }

// Book is the evaluated journal.
type Book struct {
	Txns     []*Txn
	Vals     map[*Split]Value // values after deduction
	Bals     map[*Split]map[*Cur]int64
	Costs    map[*Split]Value
	Accounts []string            // in preorder
	Seq      map[string][]*Split // movements of each account in order
	Decl     map[string]*Acc
	Prices   []*Price // declared and automatic, in order
	Auto     map[*Price]bool
	Curs     []*Cur
	Default  *Cur
	Transfer []TransferSplit
	TxnOf    map[*Split]*Txn
}

// TransferSplit is a generated movement of the transfer account.
type TransferSplit struct {
	Txn *Txn
	At  time.Time
	Val Value
	Bal map[*Cur]int64
}

// When is the movement's date.
func (s *Split) When(t *Txn) time.Time {
	if s.Date != nil {
		return *s.Date
	}
	return t.Time
}

func mulQuo(a, b, c int64) int64 {
	r, _ := mulQuoFits(a, b, c)
	return r
}

func mulQuoFits(a, b, c int64) (int64, bool) {
	i := big.NewInt(a)
	i.Mul(i, big.NewInt(b))
	i.Quo(i, big.NewInt(c))
	return i.Int64(), i.IsInt64()
}

// Out tells if a movement is left out: one of its amounts cannot be read, or
// its cost does not fit.
func (s *Split) Out() bool {
	if s.Bad == 0 && !s.Elided && s.Cost == UnitCost {
		_, ok := mulQuoFits(s.Val.Amt, s.CostVal.Amt, U)
		return !ok
	}
	return s.Bad != 0
}

// Out tells if an entry is left out, because it cannot be understood.
func (it *Item) Out() bool { return it.Head != "" || it.Tail != "" }

// Max is the biggest amount; its opposite is the lowest one.
const Max = math.MaxInt64

// plus adds two amounts, if the result fits.
func plus(a, b int64) (int64, bool) {
	s := new(big.Int).Add(big.NewInt(a), big.NewInt(b))
	return s.Int64(), s.IsInt64() && s.Int64() != -Max-1
}

// Eval computes the ledger that the items stand for.
func Eval(items []*Item) (*Book, error) {
	b := &Book{Vals: map[*Split]Value{}, Bals: map[*Split]map[*Cur]int64{}, Costs: map[*Split]Value{},
		Seq: map[string][]*Split{}, Decl: map[string]*Acc{}, Auto: map[*Price]bool{}, TxnOf: map[*Split]*Txn{}}
	type node struct {
		full     string
		children []*node
	}
	nodes := map[string]*node{}
	var roots []*node
	var account func(full string)
	account = func(full string) {
		if nodes[full] != nil {
			return
		}
		n := &node{full: full}
		if i := strings.LastIndexByte(full, ':'); i >= 0 {
			account(full[:i])
			p := nodes[full[:i]]
			p.children = append(p.children, n)
		} else {
			roots = append(roots, n)
		}
		nodes[full] = n
	}
	currency := func(c *Cur) {
		if c == nil || c.Name == "" {
			if c != nil && b.Default == nil {
				b.Default = c
			}
			return
		}
		for _, o := range b.Curs {
			if o == c {
				return
			}
		}
		b.Curs = append(b.Curs, c)
	}
	for _, it := range items {
		if it.Out() {
			continue
		}
		switch {
		case it.Acc != nil:
			if nodes[it.Acc.Full] != nil {
				return nil, bad("account %s declared twice", it.Acc.Full)
			}
			account(it.Acc.Full)
			b.Decl[it.Acc.Full] = it.Acc
		case it.Cur != nil:
			currency(it.Cur)
		case it.Default != nil:
			currency(it.Default.Cur)
			b.Default = it.Default.Cur
		case it.Price != nil:
			if n := len(b.Prices); n > 0 && b.Prices[n-1].Time.After(it.Price.Time) {
				return nil, bad("prices are not sorted")
			}
			currency(it.Price.Cur)
			currency(it.Price.Val.Cur)
			b.Prices = append(b.Prices, it.Price)
		case it.Txn != nil:
			if n := len(b.Txns); n > 0 && b.Txns[n-1].Time.After(it.Txn.Time) {
				return nil, bad("transactions are not sorted")
			}
			t := it.Txn
			for _, s := range t.Splits {
				if !s.Out() {
					continue
				}
				x := *it.Txn
				t, x.Splits = &x, nil
				for _, s := range it.Txn.Splits {
					if !s.Out() {
						x.Splits = append(x.Splits, s)
					}
				}
				break
			}
			b.Txns = append(b.Txns, t)
			for _, s := range it.Txn.Splits {
				account(s.Acc)
				if s.Out() {
					continue
				}
				b.TxnOf[s] = t
				if !s.Elided {
					currency(s.Val.Cur)
				}
				if s.Cost != NoCost {
					currency(s.CostVal.Cur)
				}
				if s.Assert != nil {
					currency(s.Assert.Cur)
				}
			}
		}
	}
	var walk func(n *node)
	walk = func(n *node) {
		b.Accounts = append(b.Accounts, n.full)
		for _, c := range n.children {
			walk(c)
		}
	}
	for _, n := range roots {
		walk(n)
	}
	if err := b.solve(); err != nil {
		return nil, err
	}
	if err := b.derive(); err != nil {
		return nil, err
	}
	return b, nil
}

func (b *Book) solve() error {
	known := b.Vals
	for _, t := range b.Txns {
		blanks := 0
		for _, s := range t.Splits {
			b.Seq[s.Acc] = append(b.Seq[s.Acc], s)
			if !s.Elided {
				known[s] = s.Val
				switch s.Cost {
				case UnitCost:
					b.Costs[s] = Value{mulQuo(s.Val.Amt, s.CostVal.Amt, U), s.CostVal.Cur}
				case TotalCost:
					b.Costs[s] = s.CostVal
				}
			} else if s.Assert == nil {
				blanks++
				if s.Cost != NoCost {
					return bad("a cost without amount")
				}
			}
		}
		if blanks > 1 {
			return bad("two blanks in a transaction")
		}
	}
	for _, l := range b.Seq {
		sort.SliceStable(l, func(i, j int) bool { return l[i].When(b.TxnOf[l[i]]).Before(l[j].When(b.TxnOf[l[j]])) })
	}
	// the total must fit; the order of its movements does not matter
	sum := func(t *Txn) (res map[*Cur]int64, blank *Split, pending int, ok bool) {
		total := map[*Cur]*big.Int{}
		for _, s := range t.Splits {
			v, ok := known[s]
			if !ok {
				if s.Assert == nil {
					blank = s
				} else {
					pending++
				}
				continue
			}
			if c, ok := b.Costs[s]; ok {
				v = c
			}
			if total[v.Cur] == nil {
				total[v.Cur] = new(big.Int)
			}
			total[v.Cur].Add(total[v.Cur], big.NewInt(v.Amt))
		}
		res, ok = map[*Cur]int64{}, true
		for c, x := range total {
			if !x.IsInt64() || x.Int64() == -Max-1 {
				ok = false
			}
			if x.Sign() != 0 {
				res[c] = x.Int64()
			}
		}
		return
	}
	for progress := true; progress; {
		progress = false
		for _, t := range b.Txns {
			res, blank, pending, ok := sum(t)
			if blank == nil || pending > 0 {
				continue
			}
			if !ok {
				return bad("the total of a transaction does not fit")
			}
			switch len(res) {
			case 0:
				known[blank] = Value{}
			case 1:
				for c, a := range res {
					known[blank] = Value{-a, c}
				}
			default:
				return bad("a blank cannot balance two currencies")
			}
			progress = true
		}
		for _, l := range b.Seq {
			bal := map[*Cur]int64{}
			for _, s := range l {
				v, ok := known[s]
				if !ok {
					if s.Assert == nil {
						break
					}
					need, ok := plus(s.Assert.Amt, -bal[s.Assert.Cur])
					if !ok {
						return bad("an amount that would be deduced does not fit")
					}
					v = Value{need, s.Assert.Cur}
					known[s] = v
					progress = true
				}
				if bal[v.Cur], ok = plus(bal[v.Cur], v.Amt); !ok {
					return bad("a balance does not fit")
				}
			}
		}
	}
	for _, t := range b.Txns {
		for _, s := range t.Splits {
			if _, ok := known[s]; !ok {
				return bad("an amount cannot be deduced")
			}
		}
		res, _, _, ok := sum(t)
		if !ok {
			return bad("the total of a transaction does not fit")
		}
		if len(res) == 1 || len(res) > 2 {
			return bad("a transaction does not balance")
		}
		if len(res) == 2 {
			var cs []*Cur
			for _, s := range t.Splits {
				for _, c := range []*Cur{known[s].Cur, b.Costs[s].Cur} {
					if c != nil && res[c] != 0 && (len(cs) == 0 || cs[0] != c) {
						cs = append(cs, c)
					}
				}
			}
			x, y := res[cs[0]], res[cs[1]]
			b.auto(t.Time, cs[0], cs[1], -U, y, x)
			b.auto(t.Time, cs[1], cs[0], -U, x, y)
		}
	}
	for _, l := range b.Seq {
		bal := map[*Cur]int64{}
		for _, s := range l {
			v := known[s]
			if v.Amt != 0 {
				var ok bool
				if bal[v.Cur], ok = plus(bal[v.Cur], v.Amt); !ok {
					return bad("a balance does not fit")
				}
				if bal[v.Cur] == 0 {
					delete(bal, v.Cur)
				}
			}
			c := map[*Cur]int64{}
			for k, a := range bal {
				c[k] = a
			}
			b.Bals[s] = c
			if s.Assert != nil && bal[s.Assert.Cur] != s.Assert.Amt {
				return bad("a balance assertion is wrong")
			}
		}
	}
	return nil
}

// auto adds a price (of from, n*p/q of to) that follows from a transaction,
// unless it is already known or does not fit.
func (b *Book) auto(at time.Time, from, to *Cur, n, p, q int64) {
	amt, ok := mulQuoFits(n, p, q)
	if !ok {
		return
	}
	b.autoPrice(&Price{Time: at, Cur: from, Val: Value{amt, to}})
}

func (b *Book) autoPrice(p *Price) {
	for _, o := range b.Prices {
		if o.Time.Equal(p.Time) && o.Cur == p.Cur && o.Val == p.Val {
			return
		}
	}
	b.Auto[p] = true
	b.Prices = append(b.Prices, p)
}

func (b *Book) derive() error {
	for _, t := range b.Txns {
		for _, s := range t.Splits {
			v := b.Vals[s]
			if c, ok := b.Costs[s]; ok && c.Amt != 0 && v.Amt != 0 {
				b.auto(s.When(t), v.Cur, c.Cur, U, c.Amt, v.Amt)
				b.auto(s.When(t), c.Cur, v.Cur, U, v.Amt, c.Amt)
			}
		}
	}
	sort.SliceStable(b.Prices, func(i, j int) bool { return b.Prices[i].Time.Before(b.Prices[j].Time) })
	for _, t := range b.Txns {
		for _, s := range t.Splits {
			if s.Date != nil && !s.Date.Equal(t.Time) {
				v := b.Vals[s]
				b.Transfer = append(b.Transfer, TransferSplit{Txn: t, At: *s.Date, Val: Value{-v.Amt, v.Cur}},
					TransferSplit{Txn: t, At: t.Time, Val: v})
			}
		}
	}
	order := make([]int, len(b.Transfer))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return b.Transfer[order[i]].At.Before(b.Transfer[order[j]].At) })
	bal := map[*Cur]int64{}
	for _, i := range order {
		x := &b.Transfer[i]
		if x.Val.Amt != 0 {
			var ok bool
			if bal[x.Val.Cur], ok = plus(bal[x.Val.Cur], x.Val.Amt); !ok {
				return bad("the balance of the transfer account does not fit")
			}
			if bal[x.Val.Cur] == 0 {
				delete(bal, x.Val.Cur)
			}
		}
		x.Bal = map[*Cur]int64{}
		for k, a := range bal {
			x.Bal[k] = a
		}
	}
	return nil
}

func cv(v Value, o canon.Opt) string {
	if v.Cur == nil {
		return canon.Val(v.Amt, "", o)
	}
	return canon.Val(v.Amt, canon.CurKey(v.Cur.Name), o)
}

// BalString formats a balance as package canon does.
func BalString(m map[*Cur]int64, o canon.Opt) string {
	var l []string
	for c, a := range m {
		l = append(l, cv(Value{a, c}, o))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

// Snap describes the book as package canon describes ledgers.
func (b *Book) Snap(o canon.Opt) *canon.Snap {
	s := new(canon.Snap)
	place := map[*Split]string{}
	nextTransfer := map[*Txn]int{}
	tplace := map[int]string{}
	for i, t := range b.Txns {
		st := canon.Txn{Time: canon.Time(t.Time), Desc: t.Desc, Comments: t.Comments}
		for j, x := range t.Splits {
			place[x] = fmt.Sprintf("%d.%d", i, j)
			ss := canon.Split{Acc: x.Acc, Time: canon.Time(x.When(t)), Val: cv(b.Vals[x], o), Comments: x.Comments}
			if !o.NoBalance {
				ss.Bal = BalString(b.Bals[x], o)
			}
			if x.Assert != nil {
				ss.Assert = cv(*x.Assert, o)
			}
			if c, ok := b.Costs[x]; ok {
				ss.Cost = cv(c, o)
			}
			st.Splits = append(st.Splits, ss)
		}
		for k, x := range b.Transfer {
			if x.Txn != t {
				continue
			}
			tplace[k] = fmt.Sprintf("%d.%d", i, len(t.Splits)+nextTransfer[t])
			nextTransfer[t]++
			ss := canon.Split{Acc: canon.TransferName, Time: canon.Time(x.At), Val: cv(x.Val, o), Transfer: true}
			if !o.NoBalance {
				ss.Bal = BalString(x.Bal, o)
			}
			st.Splits = append(st.Splits, ss)
		}
		s.Txns = append(s.Txns, st)
	}
	for _, full := range b.Accounts {
		a := canon.Account{Name: full}
		if i := strings.LastIndexByte(full, ':'); i >= 0 {
			a.Parent = full[:i]
			a.Level = strings.Count(full, ":")
		}
		if d := b.Decl[full]; d != nil {
			a.Code, a.Comments = d.Code, d.Comments
		}
		for _, c := range b.Accounts {
			if strings.HasPrefix(c, full+":") && !strings.Contains(c[len(full)+1:], ":") {
				a.Children = append(a.Children, c)
			}
		}
		for _, x := range b.Seq[full] {
			a.Splits = append(a.Splits, place[x])
		}
		s.Accounts = append(s.Accounts, a)
	}
	ta := canon.Account{Name: canon.TransferName}
	order := make([]int, len(b.Transfer))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return b.Transfer[order[i]].At.Before(b.Transfer[order[j]].At) })
	for _, k := range order {
		ta.Splits = append(ta.Splits, tplace[k])
	}
	s.Accounts = append(s.Accounts, ta)
	for _, c := range b.Curs {
		s.Curs = append(s.Curs, canon.Cur{Name: c.Name, Format: canon.FormatOf(c.Before, c.NoSpace, c.Thousand, c.Decimal, c.Prec), ISIN: c.ISIN, Comments: c.Comments})
	}
	if c := b.Default; c != nil {
		s.Default = canon.CurKey(c.Name) + " " + canon.FormatOf(c.Before, c.NoSpace, c.Thousand, c.Decimal, c.Prec)
	}
	for _, p := range b.Prices {
		x := canon.Price{Time: canon.Time(p.Time), Cur: canon.CurKey(p.Cur.Name), Val: cv(p.Val, o), Comments: p.Comments}
		if b.Auto[p] && !o.NoAuto {
			x.Comments = append(append([]string(nil), x.Comments...), "automatic")
		}
		s.Prices = append(s.Prices, x)
	}
	return s
}

// Lines describes the book.
func (b *Book) Lines(o canon.Opt) []string { return b.Snap(o).Lines(o) }
