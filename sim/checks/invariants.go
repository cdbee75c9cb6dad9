package checks

import (
	"fmt"
	"math/big"
	"time"

	"github.com/cespedes/accounting"

	"verifsim/canon"
)

// isTransfer tells whether an account is the one for movements dated apart.
func isTransfer(a *accounting.Account) bool {
	return a != nil && a.Parent == nil && a.Name == canon.TransferName
}

type bigBal map[*accounting.Currency]*big.Int

func (b bigBal) add(v accounting.Value) {
	if v.Amount == 0 {
		return
	}
	x := b[v.Currency]
	if x == nil {
		x = new(big.Int)
		b[v.Currency] = x
	}
	x.Add(x, big.NewInt(v.Amount))
	if x.Sign() == 0 {
		delete(b, v.Currency)
	}
}

func (b bigBal) equal(l accounting.Balance) bool {
	if len(l) != len(b) {
		return false
	}
	seen := map[*accounting.Currency]bool{}
	for _, v := range l {
		x := b[v.Currency]
		if x == nil || seen[v.Currency] || x.Cmp(big.NewInt(v.Amount)) != 0 {
			return false
		}
		seen[v.Currency] = true
	}
	return true
}

func (b bigBal) String() string {
	s := ""
	for c, x := range b {
		n := "<nil>"
		if c != nil {
			n = c.Name
		}
		s += fmt.Sprintf(" %s/%d %q", x, accounting.U, n)
	}
	return "[" + s + " ]"
}

// inconsistency looks for contradictions in a filled ledger.
func inconsistency(l *accounting.Ledger) (why string) {
	inLedger := map[*accounting.Account]bool{}
	names := map[string]bool{}
	for i, a := range l.Accounts {
		if a == nil {
			return fmt.Sprintf("account %d is nil", i)
		}
		if inLedger[a] {
			return fmt.Sprintf("account %q is twice in the ledger", canon.FullName(a))
		}
		inLedger[a] = true
		if n := canon.FullName(a); isTransfer(a) {
			if i != len(l.Accounts)-1 && !names[n] {
				// a written account of the same name may come before
				names[n] = true
			}
		} else if names[n] {
			return fmt.Sprintf("two accounts named %q", n)
		} else {
			names[n] = true
		}
	}
	children := map[*accounting.Account]int{}
	for i, a := range l.Accounts {
		level := 0
		if a.Parent != nil {
			if !inLedger[a.Parent] {
				return fmt.Sprintf("the parent of account %q is not in the ledger", canon.FullName(a))
			}
			level = a.Parent.Level + 1
			before := false
			for _, b := range l.Accounts[:i] {
				before = before || b == a.Parent
			}
			if !before {
				return fmt.Sprintf("account %q comes before its parent", canon.FullName(a))
			}
			n := 0
			for _, b := range a.Parent.Children {
				if b == a {
					n++
				}
			}
			if n != 1 {
				return fmt.Sprintf("account %q is %d times a child of its parent", canon.FullName(a), n)
			}
			children[a.Parent]++
		}
		if a.Level != level {
			return fmt.Sprintf("account %q has level %d", canon.FullName(a), a.Level)
		}
	}
	for _, a := range l.Accounts {
		if children[a] != len(a.Children) {
			return fmt.Sprintf("account %q has %d children, but lists %d", canon.FullName(a), children[a], len(a.Children))
		}
	}
	moves := map[*accounting.Account][]*accounting.Split{}
	inTxn := map[*accounting.Split]bool{}
	for i, t := range l.Transactions {
		if t == nil {
			return fmt.Sprintf("transaction %d is nil", i)
		}
		if i > 0 && l.Transactions[i-1].Time.After(t.Time) {
			return fmt.Sprintf("transaction %d is before the previous one", i)
		}
		sum, trans := bigBal{}, bigBal{}
		dated := 0
		for k, s := range t.Splits {
			where := fmt.Sprintf("movement %d of transaction %d (%q)", k, i, t.Description)
			if s == nil {
				return where + " is nil"
			}
			if inTxn[s] {
				return where + " is in the ledger twice"
			}
			inTxn[s] = true
			if s.Transaction != t {
				return where + " is of another transaction"
			}
			if s.Account == nil || !inLedger[s.Account] {
				return where + " is of an account that is not in the ledger"
			}
			if s.Time == nil {
				return where + " has no time"
			}
			moves[s.Account] = append(moves[s.Account], s)
			if s.Value.Currency == nil && s.Value.Amount != 0 {
				return where + " has an amount without currency"
			}
			if isTransfer(s.Account) && l.Accounts[len(l.Accounts)-1] == s.Account {
				trans.add(s.Value)
				continue
			}
			if !s.Time.Equal(t.Time) {
				dated++
			}
			v := s.Value
			if c, ok := l.SplitPrices[s]; ok {
				v = c
			}
			sum.add(v)
		}
		if len(sum) != 0 && len(sum) != 2 {
			return fmt.Sprintf("transaction %d (%s %q) adds up to %v", i, canon.Time(t.Time), t.Description, sum)
		}
		if len(trans) != 0 {
			return fmt.Sprintf("transfer movements of transaction %d (%s %q) add up to %v", i, canon.Time(t.Time), t.Description, trans)
		}
		if len(t.Splits) > 0 {
			n := 0
			for _, s := range t.Splits {
				if isTransfer(s.Account) && l.Accounts[len(l.Accounts)-1] == s.Account {
					n++
				}
			}
			if n != 2*dated {
				return fmt.Sprintf("transaction %d (%q) has %d movements dated apart and %d transfer movements", i, t.Description, dated, n)
			}
		}
	}
	for _, a := range l.Accounts {
		want := moves[a]
		// stable insertion by time
		var sorted []*accounting.Split
		for _, s := range want {
			k := len(sorted)
			for k > 0 && sorted[k-1].Time.After(*s.Time) {
				k--
			}
			sorted = append(sorted[:k:k], append([]*accounting.Split{s}, sorted[k:]...)...)
		}
		if len(sorted) != len(a.Splits) {
			return fmt.Sprintf("account %q lists %d movements, but transactions have %d", canon.FullName(a), len(a.Splits), len(sorted))
		}
		bal := bigBal{}
		for k, s := range a.Splits {
			if s != sorted[k] {
				return fmt.Sprintf("movement %d of account %q is out of order", k, canon.FullName(a))
			}
			bal.add(s.Value)
			if !bal.equal(s.Balance) {
				return fmt.Sprintf("after movement %d of account %q the balance is %v, but it says %v", k, canon.FullName(a), bal, balText(s.Balance))
			}
			if v, ok := l.Assertions[s]; ok && v != (accounting.Value{}) {
				have := new(big.Int)
				if x := bal[v.Currency]; x != nil {
					have = x
				}
				if have.Cmp(big.NewInt(v.Amount)) != 0 {
					return fmt.Sprintf("movement %d of account %q asserts %s, but the balance is %v", k, canon.FullName(a), v.FullString(), bal)
				}
			}
		}
	}
	var last time.Time
	for i, p := range l.Prices {
		if p == nil {
			return fmt.Sprintf("price %d is nil", i)
		}
		if p.Currency == nil || p.Value.Currency == nil {
			return fmt.Sprintf("price %d has no currency", i)
		}
		if i > 0 && p.Time.Before(last) {
			return fmt.Sprintf("price %d is out of order", i)
		}
		last = p.Time
	}
	curs := map[string]bool{}
	for i, c := range l.Currencies {
		if c == nil {
			return fmt.Sprintf("currency %d is nil", i)
		}
		if curs[c.Name] {
			return fmt.Sprintf("two currencies named %q", c.Name)
		}
		curs[c.Name] = true
	}
	return ""
}

func balText(b accounting.Balance) string {
	s := ""
	for _, v := range b {
		n := "<nil>"
		if v.Currency != nil {
			n = v.Currency.Name
		}
		s += fmt.Sprintf(" %d/%d %q", v.Amount, accounting.U, n)
	}
	return "[" + s + " ]"
}
