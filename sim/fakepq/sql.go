package pq

import (
	"database/sql/driver"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A small evaluator of SELECT statements, enough for the queries that a driver
// of this kind makes, with PostgreSQL's semantics.

type token struct {
	k string // id, qid, num, str, op, end
	s string
}

func lex(q string) ([]token, error) {
	var l []token
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				return nil, &Error{"42601", "unterminated comment"}
			}
			i += j + 2
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] == '$' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			l = append(l, token{"id", strings.ToLower(q[i:j])})
			i = j
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				return nil, &Error{"42601", "unterminated quoted identifier"}
			}
			l = append(l, token{"qid", q[i+1 : i+1+j]})
			i += j + 2
		case c == '\'':
			s := ""
			j := i + 1
			for {
				if j >= len(q) {
					return nil, &Error{"42601", "unterminated string"}
				}
				if q[j] == '\'' {
					if j+1 < len(q) && q[j+1] == '\'' {
						s += "'"
						j += 2
						continue
					}
					break
				}
				s += string(q[j])
				j++
			}
			l = append(l, token{"str", s})
			i = j + 1
		case c >= '0' && c <= '9' || c == '$':
			j := i + 1
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			l = append(l, token{"num", q[i:j]})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"::", "<=", ">=", "<>", "!=", "||"} {
				if strings.HasPrefix(q[i:], o) {
					op = o
				}
			}
			if !strings.Contains("(),.*+-/%=<>;:||!", op) && len(op) == 1 {
				return nil, &Error{"42601", fmt.Sprintf("syntax error at or near %q", op)}
			}
			l = append(l, token{"op", op})
			i += len(op)
		}
	}
	return append(l, token{"end", ""}), nil
}

type expr struct {
	op   string // col, lit, call, bin, un, cast, isnull, in, case
	s    string
	q    string // table qualifier
	v    Datum
	a    []*expr
	star bool
	dist bool
	sub  *query
	desc bool
	nf   int // nulls first: 1, last: 2
}

type source struct {
	name, alias string
	sub         *query
	left        bool
	right       bool
	full        bool
	on          *expr
	using       []string
}

type query struct {
	ctes     map[string]*query
	distinct bool
	cols     []*expr
	names    []string
	from     []source
	where    *expr
	group    []*expr
	having   *expr
	order    []*expr
	limit    *expr
	offset   *expr
	union    *query
	unionAll bool
}

type parser struct {
	l    []token
	i    int
	args []driver.Value
	ctes map[string]*query
}

func (p *parser) peek() token { return p.l[p.i] }
func (p *parser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.l) || p.l[p.i+k].s != w || p.l[p.i+k].k == "str" || p.l[p.i+k].k == "qid" {
			return false
		}
	}
	return true
}
func (p *parser) take(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}

type unsupported string

func (u unsupported) Error() string { return "not simulated: " + string(u) }

func (p *parser) want(w string) {
	if !p.take(w) {
		panic(&Error{"42601", fmt.Sprintf("syntax error at or near %q", p.peek().s)})
	}
}

func (p *parser) ident() string {
	t := p.peek()
	if t.k != "id" && t.k != "qid" {
		panic(&Error{"42601", fmt.Sprintf("syntax error at or near %q", t.s)})
	}
	p.i++
	return t.s
}

var reserved = map[string]bool{"from": true, "where": true, "group": true, "order": true, "limit": true, "offset": true, "left": true,
	"right": true, "full": true, "inner": true, "join": true, "on": true, "using": true, "having": true, "union": true, "cross": true, "as": true,
	"and": true, "or": true, "not": true, "asc": true, "desc": true, "nulls": true, "then": true, "when": true, "else": true, "end": true, "for": true, "natural": true, "in": true, "is": true, "between": true, "like": true, "select": true, "outer": true}

func (p *parser) selectStmt() *query {
	q := &query{}
	if p.take("with") {
		q.ctes = map[string]*query{}
		for {
			n := p.ident()
			p.want("as")
			p.want("(")
			s := p.selectStmt()
			p.want(")")
			if p.ctes == nil {
				p.ctes = map[string]*query{}
			}
			p.ctes[n] = s
			if !p.take(",") {
				break
			}
		}
	}
	p.want("select")
	q.distinct = p.take("distinct")
	for {
		var e *expr
		name := ""
		if p.take("*") {
			e = &expr{op: "star"}
		} else if t := p.peek(); (t.k == "id" || t.k == "qid") && p.l[p.i+1].s == "." && p.l[p.i+2].s == "*" {
			e = &expr{op: "star", q: t.s}
			p.i += 3
		} else {
			e = p.expr()
			switch e.op {
			case "col":
				name = e.s
			case "call":
				name = e.s
			case "cast":
				name = e.a[0].s
			}
			if name == "" {
				name = "?column?"
			}
			if p.take("as") {
				name = p.ident()
			} else if t := p.peek(); t.k == "qid" || t.k == "id" && !reserved[t.s] {
				name = p.ident()
			}
		}
		q.cols = append(q.cols, e)
		q.names = append(q.names, name)
		if !p.take(",") {
			break
		}
	}
	if p.take("from") {
		q.from = append(q.from, p.source())
		for {
			switch {
			case p.take(","), p.take("cross", "join"):
				q.from = append(q.from, p.source())
				continue
			}
			var s source
			switch {
			case p.take("left", "outer", "join"), p.take("left", "join"):
				s.left = true
			case p.take("right", "outer", "join"), p.take("right", "join"):
				s.right = true
			case p.take("full", "outer", "join"), p.take("full", "join"):
				s.full = true
			case p.take("inner", "join"), p.take("join"):
			default:
				goto done
			}
			t := p.source()
			s.name, s.alias, s.sub = t.name, t.alias, t.sub
			if p.take("on") {
				s.on = p.expr()
			} else if p.take("using") {
				p.want("(")
				for {
					s.using = append(s.using, p.ident())
					if !p.take(",") {
						break
					}
				}
				p.want(")")
			}
			q.from = append(q.from, s)
		}
	}
done:
	if p.take("where") {
		q.where = p.expr()
	}
	if p.take("group", "by") {
		for {
			q.group = append(q.group, p.expr())
			if !p.take(",") {
				break
			}
		}
	}
	if p.take("having") {
		q.having = p.expr()
	}
	if p.take("union") {
		q.unionAll = p.take("all")
		q.union = p.selectStmt()
	}
	if p.take("order", "by") {
		for {
			e := p.expr()
			o := &expr{op: "order", a: []*expr{e}}
			if p.take("desc") {
				o.desc = true
			} else {
				p.take("asc")
			}
			if p.take("nulls", "first") {
				o.nf = 1
			} else if p.take("nulls", "last") {
				o.nf = 2
			}
			q.order = append(q.order, o)
			if !p.take(",") {
				break
			}
		}
	}
	for {
		if p.take("limit") {
			if !p.take("all") {
				q.limit = p.expr()
			}
		} else if p.take("offset") {
			q.offset = p.expr()
		} else if p.take("for", "share") || p.take("for", "update") {
		} else {
			break
		}
	}
	return q
}

func (p *parser) source() source {
	var s source
	if p.take("(") {
		s.sub = p.selectStmt()
		p.want(")")
	} else {
		p.take("only")
		s.name = p.ident()
		if p.take(".") {
			s.name = p.ident() // schema-qualified
		}
		s.sub = p.ctes[s.name]
	}
	s.alias = s.name
	if p.take("as") {
		s.alias = p.ident()
	} else if t := p.peek(); t.k == "qid" || t.k == "id" && !reserved[t.s] {
		s.alias = p.ident()
	}
	return s
}

func bin(op string, a, b *expr) *expr { return &expr{op: "bin", s: op, a: []*expr{a, b}} }

func (p *parser) expr() *expr { return p.or() }

func (p *parser) or() *expr {
	e := p.and()
	for p.take("or") {
		e = bin("or", e, p.and())
	}
	return e
}

func (p *parser) and() *expr {
	e := p.not()
	for p.take("and") {
		e = bin("and", e, p.not())
	}
	return e
}

func (p *parser) not() *expr {
	if p.take("not") {
		return &expr{op: "un", s: "not", a: []*expr{p.not()}}
	}
	return p.cmp()
}

func (p *parser) cmp() *expr {
	e := p.concat()
	for {
		t := p.peek()
		switch {
		case t.k == "op" && (t.s == "=" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">=" || t.s == "<>" || t.s == "!="):
			p.i++
			op := t.s
			if op == "!=" {
				op = "<>"
			}
			e = bin(op, e, p.concat())
		case p.take("is", "not", "null"):
			e = &expr{op: "isnull", s: "not", a: []*expr{e}}
		case p.take("is", "null"):
			e = &expr{op: "isnull", a: []*expr{e}}
		case p.take("between"):
			lo := p.concat()
			p.want("and")
			e = bin("and", bin(">=", e, lo), bin("<=", e, p.concat()))
		case p.is("in") || p.is("not", "in"):
			neg := p.take("not")
			p.want("in")
			p.want("(")
			x := &expr{op: "in", a: []*expr{e}}
			if neg {
				x.s = "not"
			}
			if p.is("select") {
				x.sub = p.selectStmt()
			} else {
				for {
					x.a = append(x.a, p.expr())
					if !p.take(",") {
						break
					}
				}
			}
			p.want(")")
			e = x
		default:
			return e
		}
	}
}

func (p *parser) concat() *expr {
	e := p.add()
	for p.take("||") {
		e = bin("||", e, p.add())
	}
	return e
}

func (p *parser) add() *expr {
	e := p.mul()
	for {
		if p.take("+") {
			e = bin("+", e, p.mul())
		} else if p.take("-") {
			e = bin("-", e, p.mul())
		} else {
			return e
		}
	}
}

func (p *parser) mul() *expr {
	e := p.unary()
	for {
		if p.take("*") {
			e = bin("*", e, p.unary())
		} else if p.take("/") {
			e = bin("/", e, p.unary())
		} else if p.take("%") {
			e = bin("%", e, p.unary())
		} else {
			return e
		}
	}
}

func (p *parser) unary() *expr {
	if p.take("-") {
		return &expr{op: "un", s: "-", a: []*expr{p.unary()}}
	}
	p.take("+")
	return p.post()
}

func (p *parser) typ() string {
	t := p.ident()
	for p.take("precision") || p.take("varying") {
	}
	if p.take("(") {
		for !p.take(")") {
			if p.peek().k == "end" {
				p.want(")")
			}
			p.i++
		}
	}
	if p.take("without", "time", "zone") || p.take("with", "time", "zone") {
	}
	return t
}

func (p *parser) post() *expr {
	e := p.prim()
	for p.take("::") {
		e = &expr{op: "cast", s: p.typ(), a: []*expr{e}}
	}
	return e
}

func (p *parser) prim() *expr {
	t := p.peek()
	switch t.k {
	case "num":
		p.i++
		if t.s[0] == '$' {
			n, _ := strconv.Atoi(t.s[1:])
			if n < 1 || n > len(p.args) {
				panic(&Error{"42P02", "there is no parameter " + t.s})
			}
			v := Datum(p.args[n-1])
			if b, ok := v.([]byte); ok {
				v = string(b)
			}
			return &expr{op: "lit", v: v}
		}
		if strings.Contains(t.s, ".") {
			r, ok := new(big.Rat).SetString(t.s)
			if !ok {
				panic(&Error{"42601", "syntax error in number"})
			}
			return &expr{op: "lit", v: r}
		}
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			panic(&Error{"22003", "integer out of range"})
		}
		return &expr{op: "lit", v: n}
	case "str":
		p.i++
		return &expr{op: "lit", v: t.s}
	case "op":
		if p.take("(") {
			var e *expr
			if p.is("select") || p.is("with") {
				e = &expr{op: "sub", sub: p.selectStmt()}
			} else {
				e = p.expr()
			}
			p.want(")")
			return e
		}
	case "id", "qid":
		if t.k == "id" {
			switch {
			case p.take("null"):
				return &expr{op: "lit"}
			case p.take("true"):
				return &expr{op: "lit", v: true}
			case p.take("false"):
				return &expr{op: "lit", v: false}
			case p.take("cast"):
				p.want("(")
				e := p.expr()
				p.want("as")
				e = &expr{op: "cast", s: p.typ(), a: []*expr{e}}
				p.want(")")
				return e
			case p.take("exists"):
				p.want("(")
				e := &expr{op: "exists", sub: p.selectStmt()}
				p.want(")")
				return e
			case p.take("case"):
				e := &expr{op: "case"}
				for p.take("when") {
					e.a = append(e.a, p.expr())
					p.want("then")
					e.a = append(e.a, p.expr())
				}
				if p.take("else") {
					e.a = append(e.a, p.expr())
				}
				p.want("end")
				return e
			}
			if reserved[t.s] {
				panic(&Error{"42601", fmt.Sprintf("syntax error at or near %q", t.s)})
			}
		}
		p.i++
		if p.take("(") {
			e := &expr{op: "call", s: t.s}
			e.dist = p.take("distinct")
			if p.take("*") {
				e.star = true
				p.want(")")
			} else if !p.take(")") {
				for {
					e.a = append(e.a, p.expr())
					if !p.take(",") {
						break
					}
				}
				p.want(")")
			}
			if p.is("over") || p.is("filter") {
				panic(unsupported("window functions"))
			}
			return e
		}
		if p.take(".") {
			return &expr{op: "col", q: t.s, s: p.ident()}
		}
		return &expr{op: "col", s: t.s}
	}
	panic(&Error{"42601", fmt.Sprintf("syntax error at or near %q", t.s)})
}

// ---- evaluation ----

type colref struct{ q, s string }

type rel struct {
	cols []colref
	rows [][]Datum
}

type env struct {
	cols  []colref
	row   []Datum
	group [][]Datum // rows of the group, if aggregated
	agg   bool
	up    *env
}

type eval struct {
	st    State
	order func(n int) []int
}

func runSQL(st State, q string, args []driver.Value, order func(n int) []int) (cols []string, rows [][]Datum, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			switch e.(type) {
			case *Error, unsupported:
				err = e
			default:
				panic(r)
			}
		}
	}()
	l, err := lex(q)
	if err != nil {
		return nil, nil, err
	}
	p := &parser{l: l, args: args}
	if p.peek().k == "end" || p.is(";") {
		return nil, nil, nil
	}
	if !p.is("select") && !p.is("with") {
		panic(unsupported("statement " + p.peek().s))
	}
	s := p.selectStmt()
	p.take(";")
	if p.peek().k != "end" {
		panic(&Error{"42601", fmt.Sprintf("syntax error at or near %q", p.peek().s)})
	}
	ev := &eval{st, order}
	cols, rows = ev.run(s, nil)
	return cols, rows, nil
}

func (ev *eval) table(s source, up *env) *rel {
	if s.sub != nil {
		cols, rows := ev.run(s.sub, up)
		r := &rel{rows: rows}
		for _, c := range cols {
			r.cols = append(r.cols, colref{s.alias, c})
		}
		return r
	}
	t := ev.st[s.name]
	if t == nil {
		panic(&Error{"42P01", fmt.Sprintf("relation %q does not exist", s.name)})
	}
	r := &rel{rows: t.Rows}
	for _, c := range t.Columns {
		r.cols = append(r.cols, colref{s.alias, c})
	}
	return r
}

func nulls(n int) []Datum { return make([]Datum, n) }

func cat(a, b []Datum) []Datum { return append(append([]Datum(nil), a...), b...) }

func (ev *eval) run(q *query, up *env) ([]string, [][]Datum) {
	cur := &rel{rows: [][]Datum{{}}}
	for i, s := range q.from {
		t := ev.table(s, up)
		if i == 0 {
			cur = t
			continue
		}
		cols := append(append([]colref(nil), cur.cols...), t.cols...)
		match := func(a, b []Datum) bool {
			for _, u := range s.using {
				x := lookup(&env{cols: cur.cols, row: a}, "", u)
				y := lookup(&env{cols: t.cols, row: b}, "", u)
				if x == nil || y == nil || compare(x, y) != 0 {
					return false
				}
			}
			if s.on == nil {
				return true
			}
			v := ev.val(s.on, &env{cols: cols, row: cat(a, b), up: up})
			return v == true
		}
		var rows [][]Datum
		used := make([]bool, len(t.rows))
		for _, a := range cur.rows {
			hit := false
			for k, b := range t.rows {
				if match(a, b) {
					hit = true
					used[k] = true
					rows = append(rows, cat(a, b))
				}
			}
			if !hit && (s.left || s.full) {
				rows = append(rows, cat(a, nulls(len(t.cols))))
			}
		}
		if s.right || s.full {
			for k, b := range t.rows {
				if !used[k] {
					rows = append(rows, cat(nulls(len(cur.cols)), b))
				}
			}
		}
		cur = &rel{cols, rows}
	}
	var envs []*env
	for _, r := range cur.rows {
		e := &env{cols: cur.cols, row: r, up: up}
		if q.where != nil && ev.val(q.where, e) != true {
			continue
		}
		envs = append(envs, e)
	}
	agg := len(q.group) > 0
	for _, c := range q.cols {
		agg = agg || hasAgg(c)
	}
	if agg {
		var keys []string
		groups := map[string]*env{}
		for _, e := range envs {
			k := ""
			for _, g := range q.group {
				k += fmt.Sprintf("%v|", show(ev.val(ev.groupExpr(q, g), e)))
			}
			if groups[k] == nil {
				keys = append(keys, k)
				groups[k] = &env{cols: cur.cols, row: e.row, agg: true, up: up}
			}
			groups[k].group = append(groups[k].group, e.row)
		}
		if len(q.group) == 0 && len(keys) == 0 {
			keys = []string{""}
			groups[""] = &env{cols: cur.cols, row: nulls(len(cur.cols)), agg: true, up: up}
		}
		envs = nil
		for _, k := range keys {
			if q.having != nil && ev.val(q.having, groups[k]) != true {
				continue
			}
			envs = append(envs, groups[k])
		}
	}
	var names []string
	var cols []*expr
	for i, c := range q.cols {
		if c.op == "star" {
			for _, r := range cur.cols {
				if c.q == "" || c.q == r.q {
					cols = append(cols, &expr{op: "col", q: r.q, s: r.s})
					names = append(names, r.s)
				}
			}
			continue
		}
		cols = append(cols, c)
		names = append(names, q.names[i])
	}
	type outRow struct {
		vals []Datum
		keys []Datum
	}
	var outs []outRow
	// the server returns rows in whatever order suits it
	perm := make([]int, len(envs))
	for i := range perm {
		perm[i] = i
	}
	if ev.order != nil && len(envs) > 1 {
		perm = ev.order(len(envs))
	}
	seen := map[string]bool{}
	for _, k := range perm {
		e := envs[k]
		var o outRow
		for _, c := range cols {
			o.vals = append(o.vals, ev.safe(c, e))
		}
		for _, x := range q.order {
			k := x.a[0]
			if k.op == "lit" {
				if n, ok := k.v.(int64); ok && n >= 1 && int(n) <= len(cols) {
					o.keys = append(o.keys, o.vals[n-1])
					continue
				}
			}
			if k.op == "col" && k.q == "" {
				found := false
				for i, n := range names {
					if n == k.s {
						o.keys = append(o.keys, o.vals[i])
						found = true
						break
					}
				}
				if found {
					continue
				}
			}
			o.keys = append(o.keys, ev.val(k, e))
		}
		if q.distinct {
			s := ""
			for _, v := range o.vals {
				s += show(v) + "|"
			}
			if seen[s] {
				continue
			}
			seen[s] = true
		}
		outs = append(outs, o)
	}
	if len(q.order) > 0 {
		sort.SliceStable(outs, func(i, j int) bool {
			for k, x := range q.order {
				a, b := outs[i].keys[k], outs[j].keys[k]
				nf := x.nf
				if nf == 0 {
					nf = 2
					if x.desc {
						nf = 1
					}
				}
				if a == nil || b == nil {
					if a == nil && b == nil {
						continue
					}
					return (a == nil) == (nf == 1)
				}
				c := compare(a, b)
				if c == 0 {
					continue
				}
				return (c < 0) != x.desc
			}
			return false
		})
	}
	var res [][]Datum
	for _, o := range outs {
		res = append(res, o.vals)
	}
	if q.union != nil {
		_, more := ev.run(q.union, up)
		res = append(res, more...)
		if !q.unionAll {
			var u [][]Datum
			seen := map[string]bool{}
			for _, r := range res {
				s := ""
				for _, v := range r {
					s += show(v) + "|"
				}
				if !seen[s] {
					seen[s] = true
					u = append(u, r)
				}
			}
			res = u
		}
	}
	if q.offset != nil {
		n := int(toInt(ev.val(q.offset, &env{up: up})))
		if n > len(res) {
			n = len(res)
		}
		res = res[n:]
	}
	if q.limit != nil {
		if n := int(toInt(ev.val(q.limit, &env{up: up}))); n < len(res) {
			res = res[:n]
		}
	}
	return names, res
}

// groupExpr resolves output column names and positions in GROUP BY.
func (ev *eval) groupExpr(q *query, g *expr) *expr {
	if g.op == "lit" {
		if n, ok := g.v.(int64); ok && n >= 1 && int(n) <= len(q.cols) {
			return q.cols[n-1]
		}
	}
	return g
}

func hasAgg(e *expr) bool {
	if e.op == "call" {
		switch e.s {
		case "sum", "count", "min", "max", "avg", "bool_or", "bool_and", "string_agg", "array_agg":
			return true
		}
	}
	for _, a := range e.a {
		if hasAgg(a) {
			return true
		}
	}
	return false
}

// safe evaluates an output column; an error of the server at this row is a value.
func (ev *eval) safe(e *expr, en *env) (v Datum) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(*Error)
			if !ok || x.Code[:2] != "22" {
				panic(r)
			}
			v = x
		}
	}()
	return ev.val(e, en)
}

func lookup(e *env, q, s string) Datum {
	v, ok := find(e, q, s)
	if !ok {
		panic(&Error{"42703", fmt.Sprintf("column %q does not exist", s)})
	}
	return v
}

func find(e *env, q, s string) (Datum, bool) {
	for ; e != nil; e = e.up {
		n := -1
		for i, c := range e.cols {
			if c.s == s && (q == "" || q == c.q) {
				if n >= 0 && q == "" && i < len(e.row) && n < len(e.row) && (e.row[n] != nil || e.row[i] != nil) && show(e.row[n]) != show(e.row[i]) {
					panic(&Error{"42702", fmt.Sprintf("column reference %q is ambiguous", s)})
				}
				if n < 0 {
					n = i
				}
			}
		}
		if n >= 0 {
			return e.row[n], true
		}
	}
	return nil, false
}

func show(v Datum) string {
	switch x := v.(type) {
	case nil:
		return "<null>"
	case *big.Rat:
		return x.RatString()
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprint(v)
}

func toRat(v Datum) *big.Rat {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x)
	case *big.Rat:
		return x
	case float64:
		if r := new(big.Rat).SetFloat64(x); r != nil {
			return r
		}
	case string:
		if r, ok := new(big.Rat).SetString(strings.TrimSpace(x)); ok {
			return r
		}
		panic(&Error{"22P02", fmt.Sprintf("invalid input syntax for type numeric: %q", x)})
	}
	panic(&Error{"42883", fmt.Sprintf("operator does not exist for %T", v)})
}

func toInt(v Datum) int64 {
	r := toRat(v)
	// rounds half away from zero
	n := new(big.Int).Mul(r.Num(), big.NewInt(2))
	d := r.Denom()
	if r.Sign() >= 0 {
		n.Add(n, d)
	} else {
		n.Sub(n, d)
	}
	n.Quo(n, new(big.Int).Mul(d, big.NewInt(2)))
	if !n.IsInt64() {
		panic(&Error{"22003", "bigint out of range"})
	}
	return n.Int64()
}

func compare(a, b Datum) int {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
		if _, ok := b.(time.Time); !ok {
			return toRat(a).Cmp(toRat(b))
		}
		return -compare(b, a)
	case bool:
		if y, ok := b.(bool); ok {
			switch {
			case x == y:
				return 0
			case !x:
				return -1
			}
			return 1
		}
	case time.Time:
		y, ok := b.(time.Time)
		if s, isS := b.(string); isS {
			for _, f := range []string{"2006-01-02 15:04:05", "2006-01-02", time.RFC3339} {
				if t, err := time.Parse(f, s); err == nil {
					y, ok = t, true
				}
			}
		}
		if ok {
			switch {
			case x.Before(y):
				return -1
			case x.After(y):
				return 1
			}
			return 0
		}
		panic(&Error{"42883", "operator does not exist: timestamp and other"})
	}
	return toRat(a).Cmp(toRat(b))
}

func (ev *eval) val(e *expr, en *env) Datum {
	switch e.op {
	case "lit":
		return e.v
	case "col":
		return lookup(en, e.q, e.s)
	case "sub":
		_, rows := ev.run(e.sub, en)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 {
			panic(&Error{"21000", "more than one row returned by a subquery used as an expression"})
		}
		return rows[0][0]
	case "exists":
		_, rows := ev.run(e.sub, en)
		return len(rows) > 0
	case "case":
		for i := 0; i+1 < len(e.a); i += 2 {
			if ev.val(e.a[i], en) == true {
				return ev.val(e.a[i+1], en)
			}
		}
		if len(e.a)%2 == 1 {
			return ev.val(e.a[len(e.a)-1], en)
		}
		return nil
	case "isnull":
		return (ev.val(e.a[0], en) == nil) == (e.s == "")
	case "in":
		v := ev.val(e.a[0], en)
		if v == nil {
			return nil
		}
		hit := false
		if e.sub != nil {
			_, rows := ev.run(e.sub, en)
			for _, r := range rows {
				hit = hit || r[0] != nil && compare(v, r[0]) == 0
			}
		}
		for _, a := range e.a[1:] {
			if x := ev.val(a, en); x != nil && compare(v, x) == 0 {
				hit = true
			}
		}
		return hit == (e.s == "")
	case "un":
		v := ev.val(e.a[0], en)
		if v == nil {
			return nil
		}
		if e.s == "not" {
			b, _ := v.(bool)
			return !b
		}
		if n, ok := v.(int64); ok {
			return -n
		}
		return new(big.Rat).Neg(toRat(v))
	case "cast":
		return castTo(ev.val(e.a[0], en), e.s)
	case "bin":
		return ev.binary(e, en)
	case "call":
		return ev.call(e, en)
	}
	panic(unsupported("expression " + e.op))
}

func castTo(v Datum, typ string) Datum {
	if v == nil {
		return nil
	}
	switch typ {
	case "integer", "int", "int4", "serial":
		n := toInt(v)
		if n > 1<<31-1 || n < -1<<31 {
			panic(&Error{"22003", "integer out of range"})
		}
		return n
	case "smallint", "int2":
		n := toInt(v)
		if n > 1<<15-1 || n < -1<<15 {
			panic(&Error{"22003", "smallint out of range"})
		}
		return n
	case "bigint", "int8":
		return toInt(v)
	case "numeric", "decimal":
		return toRat(v)
	case "float", "float8", "double", "real", "float4":
		f, _ := toRat(v).Float64()
		return f
	case "text", "varchar", "character":
		return text(v)
	case "timestamp", "timestamptz", "date":
		return v
	}
	panic(unsupported("type " + typ))
}

// text is how the server writes a value.
func text(v Datum) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case *big.Rat:
		if x.IsInt() {
			return x.Num().String()
		}
		s := x.FloatString(20)
		return strings.TrimRight(s, "0")
	case time.Time:
		return x.Format("2006-01-02 15:04:05.999999")
	case bool:
		return strconv.FormatBool(x)
	}
	return fmt.Sprint(v)
}

func (ev *eval) binary(e *expr, en *env) Datum {
	a := ev.val(e.a[0], en)
	switch e.s {
	case "and":
		if a == false {
			return false
		}
		b := ev.val(e.a[1], en)
		if b == false {
			return false
		}
		if a == nil || b == nil {
			return nil
		}
		return true
	case "or":
		if a == true {
			return true
		}
		b := ev.val(e.a[1], en)
		if b == true {
			return true
		}
		if a == nil || b == nil {
			return nil
		}
		return false
	}
	b := ev.val(e.a[1], en)
	if a == nil || b == nil {
		return nil
	}
	switch e.s {
	case "=":
		return compare(a, b) == 0
	case "<>":
		return compare(a, b) != 0
	case "<":
		return compare(a, b) < 0
	case ">":
		return compare(a, b) > 0
	case "<=":
		return compare(a, b) <= 0
	case ">=":
		return compare(a, b) >= 0
	case "||":
		return text(a) + text(b)
	}
	x, xi := a.(int64)
	y, yi := b.(int64)
	if xi && yi {
		r := new(big.Int)
		switch e.s {
		case "+":
			r.Add(big.NewInt(x), big.NewInt(y))
		case "-":
			r.Sub(big.NewInt(x), big.NewInt(y))
		case "*":
			r.Mul(big.NewInt(x), big.NewInt(y))
		case "/", "%":
			if y == 0 {
				panic(&Error{"22012", "division by zero"})
			}
			if e.s == "/" {
				return x / y
			}
			return x % y
		}
		if !r.IsInt64() {
			panic(&Error{"22003", "bigint out of range"})
		}
		return r.Int64()
	}
	p, q := toRat(a), toRat(b)
	switch e.s {
	case "+":
		return new(big.Rat).Add(p, q)
	case "-":
		return new(big.Rat).Sub(p, q)
	case "*":
		return new(big.Rat).Mul(p, q)
	case "/":
		if q.Sign() == 0 {
			panic(&Error{"22012", "division by zero"})
		}
		return new(big.Rat).Quo(p, q)
	}
	panic(unsupported("operator " + e.s))
}

func (ev *eval) call(e *expr, en *env) Datum {
	switch e.s {
	case "coalesce":
		for _, a := range e.a {
			if v := ev.val(a, en); v != nil {
				return v
			}
		}
		return nil
	case "nullif":
		a, b := ev.val(e.a[0], en), ev.val(e.a[1], en)
		if a != nil && b != nil && compare(a, b) == 0 {
			return nil
		}
		return a
	case "round", "trunc", "floor", "ceil":
		v := ev.val(e.a[0], en)
		if v == nil {
			return nil
		}
		n := int64(0)
		if len(e.a) > 1 {
			n = toInt(ev.val(e.a[1], en))
		}
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil))
		x := new(big.Rat).Mul(toRat(v), p)
		if e.s != "round" {
			q := new(big.Int).Quo(x.Num(), x.Denom())
			exact := x.IsInt()
			if e.s == "floor" && x.Sign() < 0 && !exact {
				q.Sub(q, big.NewInt(1))
			}
			if e.s == "ceil" && x.Sign() > 0 && !exact {
				q.Add(q, big.NewInt(1))
			}
			x = new(big.Rat).SetInt(q)
		} else {
			x = new(big.Rat).SetInt64(toInt(x))
		}
		return x.Quo(x, p)
	case "abs":
		v := ev.val(e.a[0], en)
		if v == nil {
			return nil
		}
		return new(big.Rat).Abs(toRat(v))
	case "lower", "upper", "trim":
		v := ev.val(e.a[0], en)
		if v == nil {
			return nil
		}
		switch e.s {
		case "lower":
			return strings.ToLower(text(v))
		case "upper":
			return strings.ToUpper(text(v))
		}
		return strings.TrimSpace(text(v))
	case "sum", "count", "min", "max":
		if !en.agg {
			panic(&Error{"42803", "aggregate functions are not allowed here"})
		}
		if e.star {
			return int64(len(en.group))
		}
		var acc Datum
		n := int64(0)
		seen := map[string]bool{}
		for _, r := range en.group {
			v := ev.val(e.a[0], &env{cols: en.cols, row: r, up: en.up})
			if v == nil {
				continue
			}
			if e.dist {
				if seen[show(v)] {
					continue
				}
				seen[show(v)] = true
			}
			n++
			switch {
			case acc == nil:
				acc = v
			case e.s == "sum":
				if x, ok := acc.(int64); ok {
					if y, ok := v.(int64); ok {
						acc = x + y
						continue
					}
				}
				acc = new(big.Rat).Add(toRat(acc), toRat(v))
			case e.s == "min" && compare(v, acc) < 0, e.s == "max" && compare(v, acc) > 0:
				acc = v
			}
		}
		if e.s == "count" {
			return n
		}
		return acc
	}
	panic(unsupported("function " + e.s))
}

// out is the form in which lib/pq gives a value to database/sql.
func out(v Datum) driver.Value {
	switch x := v.(type) {
	case *big.Rat:
		return []byte(text(x))
	case string:
		return x
	}
	return v
}
