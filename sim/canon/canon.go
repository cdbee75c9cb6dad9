// Package canon describes ledgers in a canonical form, so that ledgers of the
// code under test and of the reference model can be compared line by line.
package canon

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cespedes/accounting"
)

// TransferName is the name of the account that balances movements dated
// differently from their transaction.
const TransferName = "Assets:Transfer account"

// Snap is a description of a ledger.
type Snap struct {
	Accounts []Account
	Txns     []Txn
	Prices   []Price
	Curs     []Cur
	Default  string // "" if none, else a currency line
}

// Account describes an account.
type Account struct {
	Name, Code, Parent, ID string
	Level                  int
	Children               []string
	Splits                 []string // places: transaction.split
	Start                  string
	Comments               []string
}

// Txn describes a transaction.
type Txn struct {
	Time, Desc, ID string
	Comments       []string
	Splits         []Split
}

// Split describes a movement.
type Split struct {
	Acc, Time, Val, Bal, Assert, Cost, ID string
	Comments                              []string
	Transfer                              bool
}

// Price describes a price.
type Price struct {
	Time, Cur, Val, ID string
	Comments           []string
}

// Cur describes a currency.
type Cur struct {
	Name, Format, ISIN, ID string
	Comments               []string
}

// Opt says what takes part in a description.
type Opt struct {
	IDs        bool // identifiers
	PriceOrder bool // the order of prices of the same time
	NoBalance  bool // leave out running balances
	NoZeroCur  bool // the currency of zero amounts does not matter
	NoAuto     bool // leave out "automatic" comments
	AccOrder   bool // sort accounts by name
}

// Time formats the date and time that t shows, which is what the programs and
// the export print, whatever its time zone.
func Time(t time.Time) string { return t.Format("2006-01-02 15:04:05.999999999") }

// CurKey names a currency.
func CurKey(name string) string {
	if name == "" {
		return "¤"
	}
	return name
}

// Val formats a value.
func Val(amount int64, cur string, o Opt) string {
	if amount == 0 && (o.NoZeroCur || cur == "" || cur == "¤") {
		return "0"
	}
	sign := ""
	u := uint64(amount)
	if amount < 0 {
		sign = "-"
		u = -u
	}
	return fmt.Sprintf("%s%d.%08d %s", sign, u/accounting.U, u%accounting.U, cur)
}

// FormatOf describes how a currency is written.
func FormatOf(before, nospace bool, thousand, decimal string, prec int) string {
	if decimal == "" {
		decimal = "." // the default
	}
	return fmt.Sprintf("before=%v nospace=%v thousand=%q decimal=%q precision=%d", before, nospace, thousand, decimal, prec)
}

type namer struct {
	l     *accounting.Ledger
	known map[*accounting.Currency]string
}

func (n *namer) cur(c *accounting.Currency) string {
	if c == nil {
		return ""
	}
	if s, ok := n.known[c]; ok {
		return s
	}
	if c.Name == "" {
		return "¤"
	}
	return "?" + c.Name // not the ledger's own currency of that name
}

func (n *namer) val(v accounting.Value, o Opt) string { return Val(v.Amount, n.cur(v.Currency), o) }

func (n *namer) bal(b accounting.Balance, o Opt) string {
	l := make([]string, 0, len(b))
	for _, v := range b {
		l = append(l, n.val(v, o))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

func id(i accounting.ID, o Opt) string {
	if !o.IDs || i == nil {
		return ""
	}
	return i.String()
}

func comments(c []string, o Opt) []string {
	if !o.NoAuto {
		return c
	}
	var r []string
	for _, s := range c {
		if s != "automatic" {
			r = append(r, s)
		}
	}
	return r
}

// Of describes a ledger.
func Of(l *accounting.Ledger, o Opt) *Snap {
	n := &namer{l: l, known: map[*accounting.Currency]string{}}
	s := new(Snap)
	seen := map[string]bool{}
	for i, c := range l.Currencies {
		if c == nil {
			s.Curs = append(s.Curs, Cur{Name: "<nil>"})
			continue
		}
		k := CurKey(c.Name)
		if seen[k] {
			k = fmt.Sprintf("%s#%d", k, i)
		}
		seen[k] = true
		n.known[c] = k
		s.Curs = append(s.Curs, Cur{Name: c.Name, Format: FormatOf(c.PrintBefore, c.WithoutSpace, c.Thousand, c.Decimal, c.Precision),
			ISIN: c.ISIN, Comments: comments(l.Comments[c], o), ID: id(c.ID, o)})
	}
	if c := l.DefaultCurrency; c != nil {
		s.Default = n.cur(c) + " " + FormatOf(c.PrintBefore, c.WithoutSpace, c.Thousand, c.Decimal, c.Precision)
	}
	place := map[*accounting.Split]string{}
	for i, t := range l.Transactions {
		if t == nil {
			s.Txns = append(s.Txns, Txn{Desc: "<nil>"})
			continue
		}
		st := Txn{Time: Time(t.Time), Desc: t.Description, Comments: comments(l.Comments[t], o), ID: id(t.ID, o)}
		for j, sp := range t.Splits {
			place[sp] = fmt.Sprintf("%d.%d", i, j)
			ss := Split{Val: n.val(sp.Value, o), Comments: comments(l.Comments[sp], o), ID: id(sp.ID, o)}
			if !o.NoBalance {
				ss.Bal = n.bal(sp.Balance, o)
			}
			if sp.Account == nil {
				ss.Acc = "<nil>"
			} else {
				ss.Acc = FullName(sp.Account)
				ss.Transfer = sp.Account.Parent == nil && sp.Account.Name == TransferName
			}
			if sp.Time == nil {
				ss.Time = "<nil>"
			} else {
				ss.Time = Time(*sp.Time)
			}
			if sp.Transaction != t {
				ss.Time += " (in another transaction)"
			}
			if v, ok := l.Assertions[sp]; ok {
				ss.Assert = n.val(v, o)
			}
			if v, ok := l.SplitPrices[sp]; ok {
				ss.Cost = n.val(v, o)
			}
			st.Splits = append(st.Splits, ss)
		}
		s.Txns = append(s.Txns, st)
	}
	for _, a := range l.Accounts {
		if a == nil {
			s.Accounts = append(s.Accounts, Account{Name: "<nil>"})
			continue
		}
		sa := Account{Name: FullName(a), Code: a.Code, Level: a.Level, Comments: comments(l.Comments[a], o), ID: id(a.ID, o)}
		if a.Parent != nil {
			sa.Parent = FullName(a.Parent)
			if !member(l.Accounts, a.Parent) {
				sa.Parent += " (not in ledger)"
			}
		}
		for _, c := range a.Children {
			sc := FullName(c)
			if !member(l.Accounts, c) {
				sc += " (not in ledger)"
			}
			sa.Children = append(sa.Children, sc)
		}
		for _, sp := range a.Splits {
			p := place[sp]
			if sp != nil && sp.Account != a {
				p += "(of another account)"
			}
			sa.Splits = append(sa.Splits, p)
		}
		if len(a.StartBalance) > 0 {
			sa.Start = n.bal(a.StartBalance, o)
		}
		s.Accounts = append(s.Accounts, sa)
	}
	for _, p := range l.Prices {
		if p == nil {
			s.Prices = append(s.Prices, Price{Time: "<nil>"})
			continue
		}
		s.Prices = append(s.Prices, Price{Time: Time(p.Time), Cur: n.cur(p.Currency), Val: n.val(p.Value, o),
			Comments: comments(l.Comments[p], o), ID: id(p.ID, o)})
	}
	return s
}

func member(l []*accounting.Account, a *accounting.Account) bool {
	for _, b := range l {
		if a == b {
			return true
		}
	}
	return false
}

// FullName is the account's name with those of its ancestors.
func FullName(a *accounting.Account) string {
	s, of := "", a
	if a == nil {
		return s
	}
	for i := 0; a != nil; i++ {
		if i > 10000 {
			return "<cycle>:" + s
		}
		if s == "" && i == 0 {
			s = a.Name
		} else {
			s = a.Name + ":" + s
		}
		a = a.Parent
	}
	if said := of.FullName(); said != s {
		return s + "<called " + said + ">"
	}
	return s
}

// Lines renders a description.
func (s *Snap) Lines(o Opt) []string {
	var l []string
	p := func(format string, a ...interface{}) { l = append(l, fmt.Sprintf(format, a...)) }
	for _, c := range s.Curs {
		p("currency %q %s isin=%q%s%s", c.Name, c.Format, c.ISIN, cm(c.Comments), ids(c.ID))
	}
	p("default %s", s.Default)
	accs := s.Accounts
	if o.AccOrder {
		accs = append([]Account(nil), accs...)
		sort.SliceStable(accs, func(i, j int) bool { return accs[i].Name < accs[j].Name })
	}
	for _, a := range accs {
		p("account %q code=%q parent=%q level=%d children=%q start=%s splits=%v%s%s", a.Name, a.Code, a.Parent, a.Level, a.Children, a.Start, a.Splits, cm(a.Comments), ids(a.ID))
	}
	for i, t := range s.Txns {
		p("transaction %d %s %q%s%s", i, t.Time, t.Desc, cm(t.Comments), ids(t.ID))
		for j, x := range t.Splits {
			p("  split %d.%d %s %q value=%s balance=%s cost=%s assert=%s%s%s", i, j, x.Time, x.Acc, x.Val, x.Bal, x.Cost, x.Assert, cm(x.Comments), ids(x.ID))
		}
	}
	var pl []string
	for i, x := range s.Prices {
		line := fmt.Sprintf("price %s %s = %s%s%s", x.Time, x.Cur, x.Val, cm(x.Comments), ids(x.ID))
		if i > 0 && s.Prices[i-1].Time > x.Time {
			line += " (out of order)"
		}
		pl = append(pl, line)
	}
	if !o.PriceOrder {
		sort.Strings(pl)
	}
	return append(l, pl...)
}

func cm(c []string) string {
	if len(c) == 0 {
		return ""
	}
	return fmt.Sprintf(" ; %q", c)
}

func ids(s string) string {
	if s == "" {
		return ""
	}
	return " id=" + s
}

// Dump describes a ledger as lines.
func Dump(l *accounting.Ledger, o Opt) []string { return Of(l, o).Lines(o) }

// Text is Dump as one string.
func Text(l *accounting.Ledger, o Opt) string { return strings.Join(Dump(l, o), "\n") }

// Diff returns the first differences between two descriptions, or "".
func Diff(a, b []string, na, nb string) string {
	if strings.Join(a, "\n") == strings.Join(b, "\n") {
		return ""
	}
	var out []string
	count := map[string]int{}
	for _, s := range a {
		count[s]++
	}
	for _, s := range b {
		count[s]--
	}
	for _, s := range a {
		if count[s] > 0 {
			out = append(out, na+": "+s)
			count[s]--
		}
	}
	for _, s := range b {
		if count[s] < 0 {
			out = append(out, nb+": "+s)
			count[s]++
		}
	}
	if len(out) == 0 {
		for i := range a {
			if i < len(b) && a[i] != b[i] {
				out = append(out, "order differs: "+na+": "+a[i], nb+": "+b[i])
				break
			}
		}
	}
	if len(out) > 14 {
		out = append(out[:14], fmt.Sprintf("... and %d more", len(out)-14))
	}
	return strings.Join(out, "\n    ")
}
