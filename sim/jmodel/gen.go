package jmodel

import (
	"fmt"
	"path"
	"strings"
	"time"

	"verifsim/tape"
)

// Config limits what Gen makes.
type Config struct {
	MaxTxns    int
	MaxPrices  int
	Includes   int  // at most so many included files
	Deep       bool // sometimes many more, each one in the previous one
	NoImplicit bool // every currency is declared in the root file
	NoUnnamed  bool // every amount names its currency
	NoDates    bool // no movements dated apart from their transaction
	NoDeduce   bool // no amounts deduced from assertions
	NoComments bool
	Automatic  bool // comments like those of the prices that are deduced
	NoExchange bool
	Currencies int  // how many, 0 for any
	Small      bool // whole, small amounts
	RootDecl   bool // declarations stay in the root file
}

// Include says that items Lo..Hi-1 are written in an included file.
type Include struct {
	Parent int // 0 is the root
	Lo, Hi int
	Name   string // as written in the include line
	Path   string // where it is
}

// Journal is a generated journal.
type Journal struct {
	Items []*Item
	Root  string
	Inc   []Include // file f is Inc[f-1]
	Style uint64
	Curs  []*Cur
	Def   *Cur // the currency of amounts that name none
	first map[*Cur]bool
}

var pool = []Cur{
	{Name: "EUR", Thousand: ".", Decimal: ",", Prec: 2},
	{Name: "$", Before: true, NoSpace: true, Thousand: ",", Decimal: ".", Prec: 2},
	{Name: "AAA", Decimal: ".", Prec: 4},
	{Name: "USD", Before: true, Thousand: ",", Decimal: ".", Prec: 2},
	{Name: "JPY", Decimal: ".", Prec: 0},
	{Name: "usd", NoSpace: true, Decimal: ",", Prec: 3},
	{Name: "£", NoSpace: true, Thousand: "'", Decimal: ".", Prec: 2},
	{Name: "BTC", NoSpace: true, Decimal: ".", Prec: 8},
	{Name: "Fund/B", Thousand: ".", Decimal: ",", Prec: 0},
}

var accPool = []string{
	"Assets:Bank", "Assets:Cash", "Expense:Food", "Income:Salary", "Assets:cash", "Equity", "Assets:Bank:Checking",
	"Expense:Food:Eating out", "Liabilities:Card", "Income:Gifts", "Expense:Rent", "Assets", "Gastos:Café con leche",
	"Assets:Bank:Savings:Old", "Assets:Transfer account", "include", "P", "account", "D:commodity", "include more:P 2021-01-01", "2021-01-01", "Activos", "Expense", "expense:food", "Liabilities:A rather long name:Of some other account:Which does not fit in its column",
}

func decimals(amt int64) int {
	if amt < 0 {
		amt = -amt
	}
	n := 8
	for n > 0 && amt%10 == 0 {
		amt /= 10
		n--
	}
	return n
}

func pow10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

type gen struct {
	*tape.Tape
	cfg  Config
	j    *Journal
	accs []string
	n    int
	imp  map[*Cur]bool
}

// amount chooses a positive amount.
func (g *gen) amount(c *Cur) int64 {
	if g.cfg.Small {
		return int64(g.Range(1, 40)) * U
	}
	d := c.Prec
	if d > 4 {
		d = 4
	}
	if c.Implicit {
		d = 2
	}
	var v int64
	switch g.N(6) {
	case 5: // all its digits
		v = int64(g.Range(1, 1<<40))
		if c.Implicit {
			v = int64(g.Range(1, 9999)) * pow10(6)
		}
	case 0:
		v = int64(g.Range(1, 20)) * U
	case 1:
		v = int64(g.Range(1, 99999)) * pow10(8-d)
	case 2:
		v = int64(g.Range(1, 90)) * 1000 * U
	case 3:
		v = int64(g.Range(1, 999)) * U
	case 4:
		v = int64(g.Range(1, 9999)) * pow10(4) // up to four decimals, whatever the precision
		if c.Implicit {
			v = int64(g.Range(1, 9999)) * pow10(6)
		}
	}
	return v
}

func (g *gen) text(prefix string) string {
	g.n++
	words := []string{"", " paid", " in cash", " (see receipt)", " 100%", "  twice  spaced", " ünïcode", " a=b", " #3", " @home"}
	return fmt.Sprintf("%s%d%s", prefix, g.n, words[g.N(len(words))])
}

func (g *gen) comments(max int) []string {
	if g.cfg.NoComments || g.N(3) != 2 {
		return nil
	}
	var l []string
	for i := g.Range(1, max); i > 0; i-- {
		c := g.text("note ") + []string{"", "", "", "; or not ; really", " at 10:30", " see:there"}[g.N(6)]
		if g.N(5) == 4 {
			g.n++
			c = fmt.Sprintf("payee:nr%d", g.n) // a tag without a meaning of its own
			if g.cfg.Automatic && g.N(4) == 3 {
				c = "automatic" // just like those of the prices that are deduced
			}
		}
		l = append(l, strings.TrimSpace(c))
	}
	return l
}

func (g *gen) cur() *Cur {
	return g.j.Curs[g.N(len(g.j.Curs))]
}

func (g *gen) acc() string { return g.accs[g.N(len(g.accs))] }

func (g *gen) step(t time.Time) time.Time {
	switch g.N(6) {
	case 0:
		return t.AddDate(0, 0, 1)
	case 1:
		return t
	case 2:
		return t.AddDate(0, 0, g.Range(1, 40))
	case 3:
		return t.Add(time.Duration(g.Range(1, 5000)) * time.Minute)
	case 4:
		return t.Add(time.Duration(g.Range(1, 100000)) * time.Second)
	}
	return t.AddDate(0, g.Range(1, 14), 0)
}

// Gen makes a consistent journal.
func Gen(t *tape.Tape, cfg Config) *Journal {
	g := &gen{Tape: t, cfg: cfg, j: &Journal{Root: "/home/u/books/main.ledger"}}
	j := g.j
	if cfg.MaxTxns == 0 {
		g.cfg.MaxTxns = 8
	}
	// currencies
	nc := cfg.Currencies
	if nc == 0 {
		nc = 1 + g.N(3)
	}
	off := g.N(len(pool))
	for i := 0; i < nc; i++ {
		c := pool[(off+i)%len(pool)]
		cc := c
		if !cfg.NoImplicit && !c.Before && g.N(5) == 4 {
			cc.Implicit, cc.Thousand, cc.Decimal, cc.Prec, cc.ISIN = true, "", ".", 2, ""
		} else {
			if !cfg.NoComments {
				cc.Comments = g.comments(2)
				if g.N(4) == 3 {
					cc.ISIN = fmt.Sprintf("ES%010d", g.N(1000))
				}
			}
		}
		j.Curs = append(j.Curs, &cc)
	}
	var decl []*Item
	for _, c := range j.Curs {
		if !c.Implicit {
			decl = append(decl, &Item{Cur: c})
		}
	}
	var later *Item // another default currency, declared when all is written
	if !cfg.NoUnnamed {
		k := g.N(5)
		if c := j.Curs[0]; (k == 2 || k == 3) && !c.Implicit && g.N(3) == 2 {
			later = &Item{Default: &Value{1_000_000 * U, c}}
		}
		switch k {
		case 2: // unnamed amounts in a currency of their own, declared by D
			c := &Cur{Thousand: ",", Decimal: ".", Prec: 2}
			if g.N(2) == 1 {
				c.Thousand, c.Decimal = ".", ","
			}
			j.Def = c
			j.Curs = append(j.Curs, c)
			decl = append(decl, &Item{Default: &Value{1_000_000 * U, c}})
		case 3: // the same, undeclared
			if !cfg.NoImplicit {
				c := &Cur{Decimal: ".", Prec: 2, Implicit: true}
				j.Def = c
				j.Curs = append(j.Curs, c)
			}
		case 4: // unnamed amounts are of a named currency
			if c := j.Curs[0]; !c.Implicit {
				j.Def = c
				decl = append(decl, &Item{Default: &Value{1_000_000 * U, c}})
			}
		}
	}
	// accounts
	na := g.Range(2, 7)
	aoff := 0
	if g.N(2) == 1 {
		aoff = g.N(len(accPool))
	}
	exists := map[string]bool{}
	mark := func(full string) {
		for {
			exists[full] = true
			i := strings.LastIndexByte(full, ':')
			if i < 0 {
				return
			}
			full = full[:i]
		}
	}
	for i := 0; i < na; i++ {
		full := accPool[(aoff+i)%len(accPool)]
		g.accs = append(g.accs, full)
		if g.N(4) == 3 || exists[full] {
			continue // not declared
		}
		mark(full)
		a := &Acc{Full: full, Comments: g.comments(3)}
		if !cfg.NoComments && g.N(4) == 3 {
			a.Code = fmt.Sprintf("%03d", g.N(1000))
		}
		decl = append(decl, &Item{Acc: a})
	}
	ndecl := len(decl)
	j.Items = decl
	// transactions and prices
	start := time.Date(2015+g.N(10), time.Month(1+g.N(12)), 1+g.N(28), 12, 0, 0, 0, time.UTC)
	tt, tp := start, start
	nt, np := g.N(g.cfg.MaxTxns+1), g.N(cfg.MaxPrices+1)
	for nt > 0 || np > 0 {
		if np > 0 && (nt == 0 || g.N(nt+np) >= nt) {
			np--
			tp = g.step(tp)
			var named []*Cur
			for _, c := range j.Curs {
				if c.Name != "" && !c.Implicit {
					named = append(named, c)
				}
			}
			if len(named) == 0 || len(j.Curs) < 2 {
				continue
			}
			p := &Price{Time: tp, Cur: named[g.N(len(named))]}
			p.Val.Cur = g.cur()
			if p.Val.Cur == p.Cur || p.Val.Cur.Implicit {
				continue
			}
			p.Val.Amt = g.amount(p.Val.Cur)
			p.Comments = g.comments(2)
			j.Items = append(j.Items, &Item{Price: p})
			continue
		}
		nt--
		tt = g.step(tt)
		if x := g.txn(tt); x != nil {
			j.Items = append(j.Items, &Item{Txn: x})
		}
	}
	g.assertions()
	j.fixImplicit()
	// text between
	if !cfg.NoComments {
		for i := g.N(3); i > 0; i-- {
			k := g.N(len(j.Items) + 1)
			txt := []string{"; a comment", "# another", "* and one more", "", "   ",
				"alias food=Expense:Food", "tag x\n\t; of a tag", "~ monthly\n  Expense:Rent  1.00 EUR\n  Assets:Bank", "= /rent/ ; automatic", "Y2021", "year 2021"}[g.N(11)]
			if k < ndecl {
				k = ndecl
			}
			j.Items = append(j.Items[:k:k], append([]*Item{{Text: txt}}, j.Items[k:]...)...)
		}
	}
	if later != nil {
		j.Items = append(j.Items, later)
	}
	j.Style = g.Seed()
	// files
	lo := 0
	if cfg.RootDecl || cfg.NoImplicit {
		lo = ndecl
	}
	if cfg.Includes > 0 {
		max, deep := cfg.Includes, false
		if cfg.Deep && g.N(6) == 5 { // each one includes the next
			max, deep = g.Range(5, 26), true
		}
		for f := 1; f <= max && (deep || g.N(3) > 0); f++ {
			parent, a, b := 0, lo, len(j.Items)
			if f > 1 && (deep || g.N(2) == 1) {
				parent = 1 + g.N(f-1)
				if deep {
					parent = f - 1
				}
				a, b = j.Inc[parent-1].Lo, j.Inc[parent-1].Hi
			}
			// a free range of the parent
			x := a + g.N(b-a+1)
			y := x + g.N(b-x+1)
			if deep && g.N(8) > 0 {
				x, y = a+g.N(min(2, b-a+1)), b
				if g.N(4) == 0 && y > x {
					y--
				}
			}
			clash := false
			for _, o := range j.Inc {
				if o.Parent == parent && !(y <= o.Lo || x >= o.Hi) {
					clash = true
				}
				if o.Parent == parent && (o.Lo == o.Hi || x == y) && (x == o.Lo || y == o.Lo || x == o.Hi) {
					clash = true
				}
			}
			if clash {
				break
			}
			names := []string{fmt.Sprintf("inc%d.ledger", f), fmt.Sprintf("sub/inc%d.ledger", f), fmt.Sprintf("../inc%d.ledger", f), fmt.Sprintf("/home/u/abs/inc%d.ledger", f), fmt.Sprintf("year %d.dat", f), string(rune('a' + f)), "s/" + path.Base(j.FilePath(parent))}
			in := Include{Parent: parent, Lo: x, Hi: y, Name: names[g.N(len(names))]}
			at := func() string {
				if in.Name[0] != '/' {
					return path.Join(path.Dir(j.FilePath(parent)), in.Name)
				}
				return in.Name
			}
			in.Path = at()
			for k := range f {
				if j.FilePath(k) == in.Path { // another file is there
					in.Name = names[0]
					in.Path = at()
				}
			}
			j.Inc = append(j.Inc, in)
		}
	}
	return j
}

// FilePath is where file f is.
func (j *Journal) FilePath(f int) string {
	if f == 0 {
		return j.Root
	}
	return j.Inc[f-1].Path
}

func (g *gen) txn(at time.Time) *Txn {
	if n := len(g.j.Items); n > 0 && g.j.Items[n-1].Txn != nil && g.N(10) == 9 { // once more
		o := g.j.Items[n-1].Txn
		x := &Txn{Time: at, Desc: o.Desc, Comments: o.Comments}
		for _, s := range o.Splits {
			y := *s
			x.Splits = append(x.Splits, &y)
		}
		return x
	}
	x := &Txn{Time: at, Comments: g.comments(3)}
	if g.N(8) != 7 {
		x.Desc = g.text("Txn ")
	}
	kind := g.N(6)
	if kind == 4 && (g.cfg.NoExchange || len(g.j.Curs) < 2) {
		kind = 0
	}
	if kind == 5 && len(g.j.Curs) < 2 {
		kind = 1
	}
	c := g.cur()
	// how many amounts: sometimes a lot of them
	many := func() int {
		if g.N(16) == 15 {
			return g.Range(4, 14)
		}
		return g.Range(1, 3)
	}
	add := func(v Value) *Split {
		s := &Split{Acc: g.acc(), Val: v, Comments: g.comments(2)}
		if !g.cfg.NoDates && g.N(8) == 7 {
			d := at.AddDate(0, 0, g.Range(-5, 30)).Add(time.Duration(g.N(3)) * time.Hour)
			if g.N(2) == 1 {
				d = at
			}
			s.Date = &d
		}
		x.Splits = append(x.Splits, s)
		return s
	}
	switch kind {
	case 0, 3: // amounts of one currency, all given
		var sum int64
		for i := many(); i > 0; i-- {
			a := g.amount(c)
			if g.N(3) == 2 {
				a = -a
			}
			sum += a
			add(Value{a, c})
		}
		add(Value{-sum, c})
		if g.N(10) == 9 { // nothing is left for this one
			add(Value{}).Elided = true
		}
	case 1, 2: // one left blank
		for i := many(); i > 0; i-- {
			a := g.amount(c)
			if g.N(3) == 2 {
				a = -a
			}
			add(Value{a, c})
		}
		s := add(Value{})
		s.Elided = true
		if k := g.N(len(x.Splits)); k != 0 {
			n := len(x.Splits)
			x.Splits[n-1], x.Splits[k-1] = x.Splits[k-1], x.Splits[n-1]
		}
	case 4: // exchange
		d := g.other(c)
		a, b := g.amount(c), g.amount(d)
		if g.N(2) == 1 {
			a, b = -a, -b
		}
		add(Value{a, c})
		add(Value{-b, d})
		if g.N(4) == 3 {
			add(Value{0, c})
		}
		if g.N(4) == 3 { // in pieces
			for i := many(); i > 0; i-- {
				x, y := g.amount(c), g.amount(d)
				if a < 0 {
					x = -x
				}
				if b < 0 {
					y = -y
				}
				switch g.N(3) {
				case 0:
					add(Value{x, c})
				case 1:
					add(Value{-y, d})
				case 2: // from one account to another, too
					add(Value{x, c})
					add(Value{-x, c})
				}
			}
		}
	case 5: // at cost
		d := g.other(c)
		if g.N(12) == 11 {
			d = c
		}
		s := add(Value{g.amount(c), c})
		if g.N(3) == 2 {
			s.Val.Amt = -s.Val.Amt
		}
		p := g.amount(d)
		var cost int64
		if g.N(2) == 0 {
			if p > 1000*U {
				p = p % (1000 * U)
			}
			if p == 0 {
				p = U
			}
			s.Cost, s.CostVal = UnitCost, Value{p, d}
			cost = mulQuo(s.Val.Amt, p, U)
		} else {
			if s.Val.Amt < 0 {
				p = -p
			}
			s.Cost, s.CostVal = TotalCost, Value{p, d}
			cost = p
		}
		if g.N(4) == 3 { // with a commission
			a := g.amount(d)
			add(Value{a, d})
			cost += a
		}
		if g.N(8) == 7 { // several lots
			for i := g.Range(1, 3); i > 0; i-- {
				s := add(Value{g.amount(c), c})
				p := g.amount(d)
				s.Cost, s.CostVal = TotalCost, Value{p, d}
				cost += p
			}
		}
		o := add(Value{-cost, d})
		if g.N(2) == 1 || d.Implicit {
			o.Elided, o.Val = true, Value{}
		}
	}
	return x
}

func (g *gen) other(c *Cur) *Cur {
	for {
		d := g.j.Curs[g.N(len(g.j.Curs))]
		if d != c {
			return d
		}
		for i, o := range g.j.Curs {
			if o == c {
				return g.j.Curs[(i+1)%len(g.j.Curs)]
			}
		}
	}
}

// assertions adds true balance assertions, and blanks some amounts that follow
// from one.
func (g *gen) assertions() {
	b, err := Eval(g.j.Items)
	if err != nil {
		panic("generated journal is not consistent: " + err.Error())
	}
	for _, t := range b.Txns {
		for _, s := range t.Splits {
			if g.N(5) != 4 {
				continue
			}
			c := b.Vals[s].Cur
			if c == nil || g.N(4) == 3 {
				c = g.cur()
			}
			if c.Implicit && c.Name == "" && g.j.Def != c {
				continue
			}
			s.Assert = &Value{b.Bals[s][c], c}
			if c.Implicit && b.Bals[s][c]%pow10(6) != 0 {
				s.Assert = nil
				continue
			}
			if g.cfg.NoDeduce || s.Elided || s.Cost != NoCost || c != s.Val.Cur || g.N(2) == 0 {
				if s.Elided { // now it would be deduced from the assertion: keep that possible
					if nb, err := Eval(g.j.Items); err != nil || nb.Vals[s].Amt != b.Vals[s].Amt || (nb.Vals[s].Amt != 0 && nb.Vals[s].Cur != b.Vals[s].Cur) || g.cfg.NoDeduce {
						s.Assert = nil
					}
				}
				continue
			}
			v := s.Val
			s.Elided, s.Val = true, Value{}
			if _, err := Eval(g.j.Items); err != nil {
				s.Elided, s.Val = false, v
			}
		}
	}
}

// fixImplicit makes the precision of undeclared currencies what their first
// written amount says.
func (j *Journal) fixImplicit() {
	seen := map[*Cur]bool{}
	see := func(v Value) {
		if v.Cur == nil || seen[v.Cur] || !v.Cur.Implicit {
			return
		}
		seen[v.Cur] = true
		d := decimals(v.Amt)
		if v.Amt == 0 {
			d = 0
		}
		if d == 3 {
			d = 4
		}
		v.Cur.Prec = d
	}
	j.each(see)
}

func (j *Journal) each(f func(v Value)) {
	for _, it := range j.Items {
		switch {
		case it.Default != nil:
			f(*it.Default)
		case it.Price != nil:
			f(it.Price.Val)
		case it.Txn != nil:
			for _, s := range it.Txn.Splits {
				if !s.Elided {
					f(s.Val)
				}
				if s.Cost != NoCost {
					f(s.CostVal)
				}
				if s.Assert != nil {
					f(*s.Assert)
				}
			}
		}
	}
}

// Empty tells whether there is neither a transaction nor a price.
func (j *Journal) Empty() bool {
	for _, it := range j.Items {
		if it.Txn != nil || it.Price != nil {
			return false
		}
	}
	return true
}
