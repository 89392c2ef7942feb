package models

import "strings"

// Relation is a table of the catalog, by column.
type Relation []map[string]interface{}

// selectFrom answers a query over the catalog. It understands select lists of columns with aliases, inner joins,
// and conditions of comparisons, in, like, any(array), not, and, or; ok is false for anything else.
func selectFrom(catalog map[string]Relation, q string) (rows []map[string]interface{}, ok bool) {
	p := &sqlParser{toks: sqlTokens(q)}
	defer func() {
		if recover() != nil {
			rows, ok = nil, false
		}
	}()
	p.word("select")
	var cols []sqlCol
	for {
		c := p.column()
		if p.is("as") {
			p.next()
			p.next()
		} else if !p.is(",") && !p.is("from") {
			p.next()
		}
		cols = append(cols, c)
		if !p.is(",") {
			break
		}
		p.next()
	}
	p.word("from")
	env := p.table(catalog, []map[string]map[string]interface{}{{}})
	for !p.is("where") && !p.is(";") && !p.is("") && !p.is("order") {
		switch {
		case p.is(","):
			p.next()
			env = p.table(catalog, env)
		default:
			if p.is("inner") {
				p.next()
			}
			p.word("join")
			env = p.table(catalog, env)
			p.word("on")
			env = filter(env, p.or())
		}
	}
	if p.is("where") {
		p.next()
		env = filter(env, p.or())
	}
	if p.is("order") {
		p.next()
		p.word("by")
		p.column()
		for p.is(",") {
			p.next()
			p.column()
		}
	}
	if p.is(";") {
		p.next()
	}
	if !p.is("") {
		panic("what follows the query")
	}
	for _, e := range env {
		row := map[string]interface{}{}
		for _, c := range cols {
			row[c.name] = c.get(e)
		}
		rows = append(rows, row)
	}
	return rows, true
}

type sqlEnv = map[string]map[string]interface{}

type sqlCol struct{ table, name string }

func (c sqlCol) get(e sqlEnv) interface{} {
	if c.table != "" {
		v, ok := e[c.table][c.name]
		if !ok {
			panic("no such column")
		}
		return v
	}
	var out interface{}
	n := 0
	for _, t := range e {
		if v, ok := t[c.name]; ok {
			out = v
			n++
		}
	}
	if n != 1 {
		panic("no such column")
	}
	return out
}

type sqlCond func(e sqlEnv) bool

func filter(env []sqlEnv, c sqlCond) []sqlEnv {
	var out []sqlEnv
	for _, e := range env {
		if c(e) {
			out = append(out, e)
		}
	}
	return out
}

// sqlTokens splits a query; literals keep their opening quote.
func sqlTokens(q string) []string {
	var out []string
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			s := "'"
			for i++; ; i++ {
				if i >= len(q) {
					return []string{"?"}
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				s += q[i : i+1]
			}
			i++
			out = append(out, s)
		case c == '"':
			j := i + 1
			for j < len(q) && q[j] != '"' {
				j++
			}
			if j == len(q) {
				return []string{"?"}
			}
			out = append(out, q[i+1:j])
			i = j + 1
		case word(c) && c != '.':
			j := i
			for j < len(q) && word(q[j]) && q[j] != '.' {
				j++
			}
			out = append(out, strings.ToLower(q[i:j]))
			i = j
		case strings.HasPrefix(q[i:], "<>") || strings.HasPrefix(q[i:], "!="):
			out = append(out, "<>")
			i += 2
		default:
			out = append(out, q[i:i+1])
			i++
		}
	}
	return out
}

type sqlParser struct {
	toks []string
	pos  int
}

func (p *sqlParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *sqlParser) is(w string) bool { return p.peek() == w }

func (p *sqlParser) next() string {
	t := p.peek()
	p.pos++
	return t
}

func (p *sqlParser) word(w string) {
	if p.next() != w {
		panic("expected " + w)
	}
}

func (p *sqlParser) name() string {
	n := p.next()
	if n == "" || !word(n[0]) {
		panic("expected a name")
	}
	return n
}

func (p *sqlParser) column() sqlCol {
	a := p.name()
	if !p.is(".") {
		return sqlCol{"", a}
	}
	p.next()
	return sqlCol{a, p.name()}
}

// table joins env with every row of a table.
func (p *sqlParser) table(catalog map[string]Relation, env []sqlEnv) []sqlEnv {
	n := p.name()
	if p.is(".") {
		if n != "pg_catalog" {
			panic("another schema")
		}
		p.next()
		n = p.name()
	}
	rel, ok := catalog[n]
	if !ok {
		panic("no such table")
	}
	alias := n
	switch p.peek() {
	case "as":
		p.next()
		alias = p.name()
	case "join", "inner", "where", "order", "on", ",", ";", "":
	case "left", "right", "full", "cross", "natural", "group", "union", "limit":
		panic("not supported")
	default:
		alias = p.name()
	}
	var out []sqlEnv
	for _, e := range env {
		for _, r := range rel {
			x := sqlEnv{}
			for k, v := range e {
				x[k] = v
			}
			x[alias] = r
			out = append(out, x)
		}
	}
	return out
}

func (p *sqlParser) or() sqlCond {
	c := p.and()
	for p.is("or") {
		p.next()
		a, b := c, p.and()
		c = func(e sqlEnv) bool { return a(e) || b(e) }
	}
	return c
}

func (p *sqlParser) and() sqlCond {
	c := p.not()
	for p.is("and") {
		p.next()
		a, b := c, p.not()
		c = func(e sqlEnv) bool { return a(e) && b(e) }
	}
	return c
}

func (p *sqlParser) not() sqlCond {
	if p.is("not") {
		p.next()
		c := p.not()
		return func(e sqlEnv) bool { return !c(e) }
	}
	if p.is("(") {
		p.next()
		c := p.or()
		p.word(")")
		return c
	}
	return p.compare()
}

func (p *sqlParser) operand() func(e sqlEnv) interface{} {
	if t := p.peek(); t != "" && t[0] == '\'' {
		p.next()
		return func(sqlEnv) interface{} { return t[1:] }
	}
	c := p.column()
	return c.get
}

func (p *sqlParser) literal() string {
	t := p.next()
	if t == "" || t[0] != '\'' {
		panic("expected a literal")
	}
	return t[1:]
}

func (p *sqlParser) compare() sqlCond {
	l := p.operand()
	neg := false
	if p.is("not") {
		p.next()
		neg = true
	}
	var c sqlCond
	switch op := p.next(); op {
	case "in":
		p.word("(")
		c = among(l, p.list(")"))
	case "=", "<>":
		if neg {
			panic("syntax")
		}
		neg = op == "<>"
		if p.is("any") && !neg {
			p.next()
			p.word("(")
			p.word("array")
			p.word("[")
			c = among(l, p.list("]"))
			p.word(")")
			break
		}
		r := p.operand()
		c = func(e sqlEnv) bool { return l(e) == r(e) }
	case "like":
		pat := p.literal()
		c = func(e sqlEnv) bool { return like(l(e).(string), pat) }
	default:
		panic("not supported")
	}
	if neg {
		return func(e sqlEnv) bool { return !c(e) }
	}
	return c
}

func (p *sqlParser) list(end string) []string {
	l := []string{p.literal()}
	for p.is(",") {
		p.next()
		l = append(l, p.literal())
	}
	p.word(end)
	return l
}

func among(l func(e sqlEnv) interface{}, list []string) sqlCond {
	return func(e sqlEnv) bool {
		v := l(e)
		for _, x := range list {
			if v == x {
				return true
			}
		}
		return false
	}
}

// like matches a pattern.
func like(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && like(s[1:], pat[1:])
	case '\\':
		pat = pat[1:]
		if pat == "" {
			panic("pattern ends with an escape")
		}
	}
	return s != "" && s[0] == pat[0] && like(s[1:], pat[1:])
}
