package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespedes/accounting"

	"verif.local/rt"

	"verifsim/canon"
	"verifsim/engine"
)

// poke is an operation that can be done to any ledger: its operands are
// positions, so that it does the same to two ledgers that are alike.
type poke struct {
	kind, a, b, d int
	what          string
}

var pokeNames = []string{"rename account", "describe transaction", "change amount", "assertion", "cost", "price", "comment", "currency format", "default currency",
	"new account", "new transaction", "remove transaction", "change balance in place", "pivot", "trim before", "trim after", "fill", "get currency", "move movement",
	"change time in place", "sort accounts", "add to balance", "reverse movements", "drop comments", "export"}

var pokeFill = func() int {
	for i, n := range pokeNames {
		if n == "fill" {
			return i
		}
	}
	panic("unreachable")
}()

func anyPoke(c *engine.Ctx) poke {
	p := poke{kind: c.N(len(pokeNames)), a: c.N(64), b: c.N(64), d: c.N(64)}
	p.what = fmt.Sprintf("%s(%d,%d,%d)", pokeNames[p.kind], p.a, p.b, p.d)
	return p
}

// commented lists everything that has comments, in a fixed order.
func commented(l *accounting.Ledger) []interface{} {
	var r []interface{}
	see := func(k interface{}) {
		if len(l.Comments[k]) > 0 {
			r = append(r, k)
		}
	}
	for _, a := range l.Accounts {
		see(a)
	}
	for _, c := range l.Currencies {
		see(c)
	}
	for _, t := range l.Transactions {
		see(t)
		for _, s := range t.Splits {
			see(s)
		}
	}
	for _, p := range l.Prices {
		see(p)
	}
	return r
}

func someCur(l *accounting.Ledger, i int) *accounting.Currency {
	if len(l.Currencies) == 0 {
		return l.DefaultCurrency
	}
	return l.Currencies[i%len(l.Currencies)]
}

func timed(l *accounting.Ledger) bool {
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Time == nil {
				return false
			}
		}
	}
	return true
}

// do changes the ledger and returns what the caller sees.
func (p poke) do(l *accounting.Ledger) (answer string) {
	var t *accounting.Transaction
	var s *accounting.Split
	var a *accounting.Account
	if len(l.Transactions) > 0 {
		t = l.Transactions[p.a%len(l.Transactions)]
		if len(t.Splits) > 0 {
			s = t.Splits[p.b%len(t.Splits)]
		}
	}
	if len(l.Accounts) > 0 {
		a = l.Accounts[p.b%len(l.Accounts)]
	}
	amount := int64(p.d-20) * accounting.U / 2
	when := time.Date(2015+p.a%10, time.Month(1+p.b%12), 1+p.d%28, 12, 0, 0, 0, time.UTC)
	if t != nil && p.d%2 == 0 {
		when = t.Time
	}
	switch pokeNames[p.kind] {
	case "rename account":
		if a != nil && !isTransfer(a) {
			a.Name += "x"
			a.Code = "c"
		}
	case "describe transaction":
		if t != nil {
			t.Description += "!"
			if p.d%3 == 0 {
				t.Time = when.Add(time.Hour)
			}
		}
	case "change amount":
		if s != nil {
			s.Value = accounting.Value{Amount: amount, Currency: someCur(l, p.d)}
			if p.d%5 == 0 {
				s.Value = accounting.Value{}
			}
		}
	case "assertion":
		if s != nil {
			if l.Assertions == nil {
				l.Assertions = map[*accounting.Split]accounting.Value{}
			}
			if p.d%2 == 0 {
				delete(l.Assertions, s)
			} else {
				l.Assertions[rt.Seen(s)] = accounting.Value{Amount: amount, Currency: someCur(l, p.d)}
			}
		}
	case "cost":
		if s != nil {
			if l.SplitPrices == nil {
				l.SplitPrices = map[*accounting.Split]accounting.Value{}
			}
			if p.d%2 == 0 {
				delete(l.SplitPrices, s)
			} else {
				l.SplitPrices[rt.Seen(s)] = accounting.Value{Amount: amount, Currency: someCur(l, p.d)}
			}
		}
	case "price":
		if n := len(l.Prices); n > 0 {
			x := l.Prices[p.a%n]
			x.Value.Amount += int64(p.d) * 1000
			if p.d%3 == 0 {
				x.Time = x.Time.Add(time.Hour)
			}
			if p.d%7 == 0 {
				l.Prices = append(l.Prices[:p.a%n], l.Prices[p.a%n+1:]...)
			}
		}
	case "comment":
		k := commented(l)
		if len(k) > 0 && p.d%2 == 0 {
			x := l.Comments[k[p.a%len(k)]]
			x[p.b%len(x)] += "?"
		} else if t != nil && l.Comments != nil {
			l.Comments[rt.Seen(t)] = append(l.Comments[t], "note")
		}
	case "drop comments":
		k := commented(l)
		if len(k) > 0 {
			delete(l.Comments, k[p.a%len(k)])
		}
	case "currency format":
		if x := someCur(l, p.a); x != nil {
			x.Precision = p.d % 9
			x.Thousand = []string{"", ","}[p.b%2]
			x.Decimal = "."
			x.PrintBefore = p.d%2 == 0
			x.ISIN = fmt.Sprint("I", p.d)
		}
	case "default currency":
		l.DefaultCurrency = someCur(l, p.a)
	case "new account":
		x := &accounting.Account{Name: fmt.Sprintf("Poked %d.%d.%d %d", p.a, p.b, p.d, len(l.Accounts))}
		if a != nil && !isTransfer(a) {
			x.Parent = a
		}
		l.Accounts = append(l.Accounts, x)
	case "new transaction":
		if a == nil || isTransfer(a) || someCur(l, p.d) == nil {
			return
		}
		x := &accounting.Transaction{Time: when, Description: "poked"}
		for i := int64(0); i < 2; i++ {
			x.Splits = append(x.Splits, &accounting.Split{Account: a, Transaction: x, Time: &x.Time, Value: accounting.Value{Amount: amount * (1 - 2*i), Currency: someCur(l, p.d)}})
		}
		l.Transactions = append(l.Transactions, x)
	case "remove transaction":
		if n := len(l.Transactions); n > 0 {
			i := p.a % n
			l.Transactions = append(l.Transactions[:i], l.Transactions[i+1:]...)
		}
	case "change balance in place":
		if s != nil && len(s.Balance) > 0 {
			s.Balance[p.d%len(s.Balance)].Amount += accounting.U
		}
		if a != nil && len(a.StartBalance) > 0 {
			a.StartBalance[p.d%len(a.StartBalance)].Amount += accounting.U
		}
	case "pivot":
		if a == nil {
			return
		}
		in := func(t *accounting.Transaction) bool {
			for _, s := range t.Splits {
				if s.Account == a {
					return true
				}
			}
			return false
		}
		for i := 0; i < len(l.Transactions); i++ {
			if !in(l.Transactions[i]) {
				l.Transactions = append(l.Transactions[:i], l.Transactions[i+1:]...)
				i--
			}
		}
		for _, x := range l.Accounts {
			for j := 0; j < len(x.Splits); j++ {
				if x.Splits[j].Transaction != nil && !in(x.Splits[j].Transaction) {
					x.Splits = append(x.Splits[:j], x.Splits[j+1:]...)
					j--
				}
			}
		}
	case "trim before":
		for i := len(l.Transactions) - 1; i >= 0; i-- {
			if l.Transactions[i].Time.Before(when) {
				l.Transactions = l.Transactions[i+1:]
				break
			}
		}
		for _, x := range l.Accounts {
			for j := len(x.Splits) - 1; j >= 0; j-- {
				if x.Splits[j].Time != nil && x.Splits[j].Time.Before(when) {
					x.StartBalance = append(accounting.Balance(nil), x.Splits[j].Balance...)
					x.Splits = x.Splits[j+1:]
					break
				}
			}
		}
	case "trim after":
		for i, t := range l.Transactions {
			if t.Time.After(when) {
				l.Transactions = l.Transactions[:i]
				break
			}
		}
		for _, x := range l.Accounts {
			for j, s := range x.Splits {
				if s.Time != nil && s.Time.After(when) {
					x.Splits = x.Splits[:j]
					break
				}
			}
		}
	case "fill":
		if err := l.Fill(); err != nil {
			return err.Error()
		}
	case "get currency":
		x, isNew := l.GetCurrency(fmt.Sprintf("C%d", p.a%4))
		return fmt.Sprint(x.Name, isNew)
	case "move movement":
		if s != nil && a != nil && !isTransfer(a) && !isTransfer(s.Account) {
			s.Account = a
		}
	case "change time in place":
		if s != nil && s.Time != nil {
			when := s.Time.Add(time.Duration(p.d) * time.Hour)
			n := 0
			for _, t := range l.Transactions {
				for _, x := range t.Splits {
					if x.Time == s.Time {
						n++
					}
				}
			}
			if n > 1 && (s.Transaction == nil || s.Time != &s.Transaction.Time) {
				// shared by a movement and its transfer account's, which is
				// derived data
				s.Time = &when
			} else {
				*s.Time = when
			}
		}
	case "sort accounts":
		accounting.SortAccounts(l.Accounts)
	case "add to balance":
		if a != nil {
			b := l.GetBalance(a, time.Time{})
			if len(b) > 0 {
				b.Add(accounting.Value{Amount: 1, Currency: b[p.d%len(b)].Currency})
			}
			return balText(b)
		}
	case "reverse movements":
		if a != nil {
			for i, j := 0, len(a.Splits)-1; i < j; i, j = i+1, j-1 {
				a.Splits[i], a.Splits[j] = a.Splits[j], a.Splits[i]
			}
		}
	case "export":
		if timed(l) {
			var b buf
			if err := export(&b, l); err != nil {
				return err.Error()
			}
			return string(b)
		}
	}
	return
}

// deep describes everything reachable in a ledger.
func deep(l *accounting.Ledger) []string {
	r := canon.Dump(l, exact)
	n := map[*accounting.Currency]bool{}
	for _, c := range l.Currencies {
		n[c] = true
	}
	cur := func(c *accounting.Currency) string {
		if c == nil {
			return "nil"
		}
		return fmt.Sprintf("%q(%v %v %v %q %q %d %q)", c.Name, n[c], c.PrintBefore, c.WithoutSpace, c.Thousand, c.Decimal, c.Precision, c.ISIN)
	}
	val := func(v accounting.Value) string { return fmt.Sprintf("%d %s", v.Amount, cur(v.Currency)) }
	split := func(s *accounting.Split) string {
		if s == nil {
			return "nil"
		}
		x := fmt.Sprintf("%v %s %s", s.ID, val(s.Value), canon.FullName(s.Account))
		if s.Time != nil {
			x += " " + canon.Time(*s.Time)
			if s.Transaction != nil && s.Time == &s.Transaction.Time {
				x += "*"
			}
		}
		for _, v := range s.Balance {
			x += " | " + val(v)
		}
		if s.Transaction != nil {
			x += fmt.Sprintf(" of %s %q %d", canon.Time(s.Transaction.Time), s.Transaction.Description, len(s.Transaction.Splits))
		}
		if v, ok := l.Assertions[s]; ok {
			x += " = " + val(v)
		}
		if v, ok := l.SplitPrices[s]; ok {
			x += " @@ " + val(v)
		}
		return x + fmt.Sprintf(" %q", l.Comments[s])
	}
	for _, a := range l.Accounts {
		for _, s := range a.Splits {
			r = append(r, "in "+canon.FullName(a)+": "+split(s))
		}
		for _, v := range a.StartBalance {
			r = append(r, "start of "+canon.FullName(a)+": "+val(v))
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			r = append(r, "movement: "+split(s))
		}
	}
	for _, p := range l.Prices {
		r = append(r, fmt.Sprintf("price %s %s %s %v %q", canon.Time(p.Time), cur(p.Currency), val(p.Value), p.ID, l.Comments[p]))
	}
	r = append(r, "default "+cur(l.DefaultCurrency), fmt.Sprint(len(l.Assertions), len(l.SplitPrices), len(l.Comments)))
	return r
}

// answers asks a ledger everything that can be asked.
func answers(l *accounting.Ledger, times []time.Time) []string {
	var r []string
	place := map[*accounting.Transaction]int{}
	for i, t := range l.Transactions {
		place[t] = i
	}
	list := func(ts []*accounting.Transaction) string {
		var x []string
		for _, t := range ts {
			x = append(x, fmt.Sprint(place[t]))
		}
		return strings.Join(x, ",")
	}
	for i, a := range l.Accounts {
		r = append(r, fmt.Sprintf("account %d %s: %s", i, a.FullName(), l.GetBalance(a, time.Time{})))
		for _, t := range times {
			r = append(r, fmt.Sprintf("account %d at %s: %s", i, canon.Time(t), l.GetBalance(a, t)))
		}
		r = append(r, fmt.Sprintf("transactions in %d: %s", i, list(l.TransactionsInAccount(a.ID))))
		x := l.Account(a.ID)
		n := -1
		for k, b := range l.Accounts {
			if x == b {
				n = k
			}
		}
		r = append(r, fmt.Sprintf("account by id %v: %d", a.ID, n))
	}
	for _, t := range times {
		for _, u := range times {
			r = append(r, fmt.Sprintf("transactions from %s to %s: %s", canon.Time(t), canon.Time(u), list(l.TransactionsInInterval(t, u))))
		}
		to := append([]*accounting.Currency{l.DefaultCurrency}, l.Currencies...)
		for i, x := range to {
			for k, y := range to {
				v, err := l.Convert(accounting.Value{Amount: 3 * accounting.U, Currency: x}, t, y)
				r = append(r, fmt.Sprintf("convert %d to %d at %s: %s %v", i, k, canon.Time(t), v.FullString(), err))
			}
		}
	}
	return r
}
