package jmodel

import (
	"fmt"
	"path"
	"strings"
	"time"

	"verifsim/tape"
)

type renderer struct {
	r     *tape.Rand
	plain bool
	j     *Journal
	first map[*Cur]bool
	eol   string
	file  string
}

func (r *renderer) n(n int) int {
	if r.plain {
		return 0
	}
	return r.r.N(n)
}

// num writes an amount in its currency's format.
func (r *renderer) num(v Value) string {
	c := v.Cur
	need := decimals(v.Amt)
	if v.Amt == 0 {
		need = 0
	}
	d := c.Prec
	if need > d {
		d = need
	}
	thousands := true
	if c.Implicit && !r.first[c] {
		r.first[c] = true
		d = c.Prec
	} else {
		switch r.n(4) {
		case 1:
			d = need
		case 2:
			if d < 8 {
				d++
			}
		case 3:
			thousands = r.n(2) == 0
		}
	}
	a := v.Amt
	sign := ""
	if a < 0 {
		sign, a = "-", -a
	} else if r.n(20) == 19 {
		sign = "+"
	}
	s := fmt.Sprint(a / U)
	if c.Thousand != "" && thousands {
		for i := len(s) - 3; i > 0; i -= 3 {
			s = s[:i] + c.Thousand + s[i:]
		}
	}
	if d > 0 {
		s += c.Decimal + fmt.Sprintf("%08d", a%U)[:d]
	}
	return sign + s
}

func (r *renderer) val(v Value) string {
	c := v.Cur
	s := r.num(v)
	name := c.Name
	if name == "" || (c == r.j.Def && r.n(3) == 1) {
		return s
	}
	sp := " "
	if c.NoSpace {
		sp = ""
	}
	if c.Before {
		return name + sp + s
	}
	return s + sp + name
}

// part writes one of the amounts of a movement.
func (r *renderer) part(s *Split, which int, v Value) string {
	if s.Bad == which {
		return s.BadText
	}
	return r.val(v)
}

// with writes an amount of a currency whose number is s.
func with(c *Cur, s string) string {
	if c.Name == "" {
		return s
	}
	sp := " "
	if c.NoSpace {
		sp = ""
	}
	if c.Before {
		return c.Name + sp + s
	}
	return s + sp + c.Name
}

// Unreadable returns an amount of a declared currency that cannot be read:
// what follows is not the amount of anything.
func Unreadable(c *Cur, pick func(int) int) string {
	d := c.Decimal
	all := []string{"1" + d + "123456789", "15" + d + "0000000000", "92233720369", "123456789012345678901234567890", "1" + d + "5" + d + "5", "12-", "1-2", "--5", "7" + d, "7_",
		"92233720368" + d + "547758071", "9223372036854775808", "1+1", "-+3", "18446744073709551617", "100000000000"}
	if t := c.Thousand; t != "" {
		all = append(all, "1"+t+"00"+t+"000", "1234"+t+"567", "1"+t+"0000", "1"+t+"000"+d+"00"+t+"0", "12"+t+"00"+d+"5")
	}
	for _, p := range []string{",", "'", "_", "."} { // marks that are not its own
		if p != d && p != c.Thousand {
			all = append(all, "1"+p+"2", "1234"+p+"567", "1"+p+"000"+d+"00"+p+"0", "-5"+p+"25")
			break
		}
	}
	if last := len(c.Name) - 1; last >= 0 && strings.IndexByte("0123456789.,_'+-", c.Name[0]) < 0 && strings.IndexByte("0123456789.,_'+-", c.Name[last]) < 0 && pick(16) == 15 {
		return c.Name // an amount of how many
	}
	return with(c, all[pick(len(all))])
}

// Unreadables returns what may follow an account in a movement that cannot be
// read, although each of its amounts can.
func Unreadables(c, cost *Cur, pick func(int) int) string {
	x := func(c *Cur) string { return with(c, fmt.Sprint(1+pick(99))) }
	at := []string{" @ ", " @@ ", "@", "@@"}[pick(4)]
	a := []string{" = ", "=", "  =  "}[pick(3)]
	switch pick(10) {
	case 0: // the assertion before the cost
		return x(c) + a + x(c) + at + x(cost)
	case 1:
		return strings.TrimSpace(a) + " " + x(c) + at + x(cost)
	case 2: // the cost of nothing
		return " " + at + x(cost)
	case 3:
		return " " + at + x(cost) + a + x(c)
	case 4: // no cost
		return x(c) + strings.TrimRight(at, " ")
	case 5:
		return x(c) + at + a + x(c)
	case 6: // no assertion
		return x(c) + strings.TrimRight(a, " ")
	case 7:
		return x(c) + at + x(cost) + strings.TrimRight(a, " ")
	case 8: // twice
		return x(c) + at + x(cost) + at + x(cost)
	}
	return x(c) + a + x(c) + a + x(c)
}

func (r *renderer) date(t time.Time) string {
	sep := []string{"-", "/", "."}[r.n(3)]
	s := t.Format("2006" + sep + "01" + sep + "02")
	h, m, sec := t.Clock()
	if h == 12 && m == 0 && sec == 0 && r.n(3) != 2 {
		return s
	}
	s += []string{"/", "-", "_"}[r.n(3)]
	if m == 0 && sec == 0 && r.n(2) == 1 {
		return s + t.Format("15")
	}
	col := []string{":", ".", "-"}[r.n(3)]
	if sec == 0 && r.n(3) != 2 {
		return s + t.Format("15"+col+"04")
	}
	return s + t.Format("15"+col+"04"+col+"05")
}

// tail writes comments after an entry; tags are among them.
func (r *renderer) tail(b *strings.Builder, comments []string, tags ...string) {
	all := append([]string(nil), comments...)
	for _, t := range tags {
		k := r.n(len(all) + 1)
		all = append(all[:k:k], append([]string{t}, all[k:]...)...)
	}
	for i, c := range all {
		if i == 0 && r.n(2) == 0 {
			b.WriteString([]string{" ; ", "  ;", "\t; "}[r.n(3)] + c + r.eol)
			continue
		}
		if i == 0 {
			b.WriteString(r.eol)
		}
		if r.n(8) == 7 {
			b.WriteString(r.eol)
		}
		b.WriteString([]string{"\t", "    ", " "}[r.n(3)] + []string{"; ", ";", "# ", "* "}[r.n(4)] + c + r.eol)
	}
	if len(all) == 0 {
		b.WriteString(r.eol)
	}
}

func word(it *Item, s string) string {
	if it.Head != "" {
		return it.Head
	}
	return s
}

// at is where what comes next is written.
func (r *renderer) at(b *strings.Builder) string {
	return fmt.Sprintf("%s:%d", r.file, 1+strings.Count(b.String(), "\n"))
}

func (r *renderer) item(b *strings.Builder, it *Item) {
	it.At = r.at(b)
	switch {
	case it.Acc != nil:
		var tags []string
		if it.Acc.Code != "" {
			tags = append(tags, "code:"+it.Acc.Code)
		}
		b.WriteString(word(it, "account") + " " + it.Acc.Full)
		r.tail(b, it.Acc.Comments, tags...)
	case it.Cur != nil:
		c := it.Cur
		var tags []string
		if c.ISIN != "" {
			tags = append(tags, "isin:"+c.ISIN)
		}
		b.WriteString("commodity " + r.decl(c))
		r.tail(b, c.Comments, tags...)
	case it.Default != nil:
		c := it.Default.Cur
		if c.Name == "" {
			b.WriteString("D " + r.number(1_000_000*U, c, c.Prec))
		} else {
			b.WriteString("D " + r.decl(c))
		}
		var stray []string // comments of nothing
		if r.n(4) == 3 {
			stray = []string{"of the default", "code:1"}[:1+r.n(2)]
		}
		r.tail(b, stray)
	case it.Price != nil:
		p := it.Price
		if it.Tail != "" {
			b.WriteString("P " + word(it, r.date(p.Time)) + " " + it.Tail)
		} else {
			b.WriteString("P " + word(it, r.date(p.Time)) + " " + p.Cur.Name + " " + r.val(p.Val))
		}
		r.tail(b, p.Comments)
	case it.Txn != nil:
		t := it.Txn
		b.WriteString(word(it, r.date(t.Time)))
		if t.Desc != "" {
			b.WriteString(" " + t.Desc)
		}
		r.tail(b, t.Comments)
		for _, s := range t.Splits {
			s.At = r.at(b)
			b.WriteString([]string{"  ", "    ", "\t", " "}[r.n(4)] + s.Acc)
			sep := []string{"  ", "   ", "              "}[r.n(3)]
			var tags []string
			if s.Date != nil {
				tags = append(tags, "date:"+r.date(*s.Date))
			}
			if s.Bad == BadWhole {
				b.WriteString(sep + s.BadText)
				r.tail(b, s.Comments, tags...)
				continue
			}
			if !s.Elided {
				b.WriteString(sep + r.part(s, BadAmount, s.Val))
				switch s.Cost {
				case UnitCost:
					b.WriteString(" @ " + r.part(s, BadCost, s.CostVal))
				case TotalCost:
					b.WriteString([]string{" @@ ", " @@", "  @@  "}[r.n(3)] + r.part(s, BadCost, s.CostVal))
				}
				sep = []string{" ", "", "  "}[r.n(3)]
			}
			if s.Assert != nil {
				b.WriteString(sep + "=" + []string{" ", "", "  "}[r.n(3)] + r.part(s, BadAssert, *s.Assert))
			}
			r.tail(b, s.Comments, tags...)
		}
	default:
		b.WriteString(strings.ReplaceAll(it.Text, "\n", r.eol) + r.eol)
	}
}

func (r *renderer) number(a int64, c *Cur, d int) string {
	s := fmt.Sprint(a / U)
	if c.Thousand != "" {
		for i := len(s) - 3; i > 0; i -= 3 {
			s = s[:i] + c.Thousand + s[i:]
		}
	}
	if d > 0 {
		s += c.Decimal + fmt.Sprintf("%08d", a%U)[:d]
	}
	return s
}

// decl writes an amount that shows the currency's whole format.
func (r *renderer) decl(c *Cur) string {
	s := r.number(1_000_000*U, c, c.Prec)
	sp := " "
	if c.NoSpace {
		sp = ""
	}
	if c.Before {
		return c.Name + sp + s
	}
	return s + sp + c.Name
}

// Files writes the journal: path to content.
func (j *Journal) Files() map[string][]byte { return j.Render(nil) }

// Render writes the journal; cut, if not nil, is told where each item begins
// and ends in its file.
func (j *Journal) Render(cut func(file, item, from, to int)) map[string][]byte {
	r := &renderer{r: tape.NewRand(j.Style), plain: j.Style == 0, j: j, first: map[*Cur]bool{}, eol: "\n"}
	if r.n(12) == 11 {
		r.eol = "\r\n"
	}
	files := map[string][]byte{}
	var file func(f, lo, hi int)
	file = func(f, lo, hi int) {
		var b strings.Builder
		done := map[int]bool{}
		for i := lo; i <= hi; i++ {
			again := true
			for again {
				again = false
				for k, in := range j.Inc {
					if in.Parent == f && in.Lo == i && !done[k] {
						done[k] = true
						b.WriteString("include " + in.Name + r.eol)
						file(k+1, in.Lo, in.Hi)
						i = in.Hi
						again = in.Hi > in.Lo || again
						if in.Hi > in.Lo {
							break
						}
					}
				}
			}
			if i < hi {
				from := b.Len()
				r.file = path.Base(j.FilePath(f))
				r.item(&b, j.Items[i])
				if cut != nil {
					cut(f, i, from, b.Len())
				}
			}
		}
		s := b.String()
		if r.n(6) == 5 {
			s = strings.TrimSuffix(s, r.eol)
		}
		files[j.FilePath(f)] = []byte(s)
	}
	file(0, 0, len(j.Items))
	return files
}

// Without returns the items left if the given files cannot be included.
func (j *Journal) Without(missing map[int]bool) []*Item {
	var l []*Item
	for i, it := range j.Items {
		gone := false
		for k, in := range j.Inc {
			if missing[k+1] && i >= in.Lo && i < in.Hi {
				gone = true
			}
		}
		if !gone {
			l = append(l, it)
		}
	}
	return l
}
