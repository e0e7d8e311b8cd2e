package main

import (
	"strings"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// Parts of statements, written one after the other to one context.

// verbatim is a text that the caller writes itself.
type verbatim string

func (p verbatim) Write(ctx types.Context) { ctx.Write(string(p)) }
func (p verbatim) IsEmpty() bool           { return p == "" }

func (w *world) part(p T) stmt.Statement {
	switch str(p, "k") {
	case "txt":
		return verbatim(text(p, "v"))
	case "stm":
		if e := sub(p, "e"); str(e, "k") == "b" {
			return w.pool[num(e, "h")].(builder.Builder).Statement()
		}
		return w.build(sub(p, "e")).(stmt.Statement)
	case "cnd":
		first, links := w.expr(sub(p, "e")), list(p, "a")
		if str(p, "c") == "Where" {
			c := stmt.NewWhere(first)
			for _, l := range links {
				e := w.expr(sub(l, "e"))
				_, _ = c.Or(stmt.NewRaw("other")), c.And(stmt.NewRaw("other"))
				if str(l, "op") == "AND" {
					c = c.And(e)
				} else {
					c = c.Or(e)
				}
			}
			return c
		}
		c := stmt.NewHaving(first)
		for _, l := range links {
			e := w.expr(sub(l, "e"))
			_, _ = c.Or(stmt.NewRaw("other")), c.And(stmt.NewRaw("other"))
			if str(l, "op") == "AND" {
				c = c.And(e)
			} else {
				c = c.Or(e)
			}
		}
		return c
	}
	as := w.builds(list(p, "a"))
	columns := func() []stmt.Column {
		r := make([]stmt.Column, len(as))
		for i := range as {
			r[i] = as[i].(stmt.Column)
		}
		return r
	}
	switch str(p, "c") {
	case "OrderBy":
		r := make([]stmt.Order, len(as))
		for i := range as {
			r[i] = as[i].(stmt.Order)
		}
		return stmt.NewOrderBy(r)
	case "GroupBy":
		return stmt.NewGroupBy(columns())
	case "DistinctOn":
		return stmt.NewDistinctOn(columns())
	case "Using":
		r := make([]stmt.Table, len(as))
		for i := range as {
			r[i] = as[i].(stmt.Table)
		}
		return stmt.NewUsing(r)
	case "Returning":
		r := make([]stmt.SelectExpression, len(as))
		for i := range as {
			r[i] = as[i].(stmt.SelectExpression)
		}
		return stmt.NewReturning(r)
	case "With":
		r := make([]stmt.WithQuery, len(as))
		for i := range as {
			r[i] = as[i].(stmt.WithQuery)
		}
		return stmt.NewWith(r)
	case "Comment":
		return stmt.NewComment(as[0].(string))
	case "Set":
		return builder.ToSet(as)
	}
	panic("harness: unknown clause")
}

// observeParts writes parts to a context of each kind.
func (w *world) observeParts(op T) {
	var parts []stmt.Statement
	empty := []bool{}
	op["got"] = guard(func() {
		for _, p := range list(op, "parts") {
			s := w.part(p)
			parts = append(parts, s)
			empty = append(empty, s.IsEmpty())
		}
	})
	op["empty"] = empty
	write := func(ctx types.Context) func() {
		return func() {
			for _, s := range parts {
				s.Write(ctx)
			}
		}
	}
	std, named, raw := &types.StdContext{}, &types.NamedContext{}, &types.RawContext{}
	ok, nok, sok := guard(write(std)), guard(write(named)), guard(write(raw))
	args := []T{}
	for _, a := range std.Values() {
		args = append(args, argTerm(a))
	}
	op["ok"], op["sok"] = ok && nok, sok
	op["held"] = !ok || !nok || held(parts, std, named)
	op["q"], op["args"], op["n"], op["nargs"], op["s"] = "", []T{}, "", []T{}, ""
	if ok && nok {
		op["q"], op["args"], op["n"], op["nargs"] = enc(std.Query()), args, enc(named.Query()), namedTerms(named.Values())
	}
	if sok {
		op["s"] = enc(raw.Query())
	}
}

// held tells that contexts read after every part hold what they hold in the
// end, up to there.
func held(parts []stmt.Statement, std *types.StdContext, named *types.NamedContext) bool {
	s, n := &types.StdContext{}, &types.NamedContext{}
	var queries [][2]string
	var values [][]interface{}
	ok := guard(func() {
		for _, p := range parts {
			p.Write(s)
			p.Write(n)
			queries = append(queries, [2]string{s.Query(), n.Query()})
			values = append(values, s.Values())
			if len(n.Values()) != len(s.Values()) {
				panic("other values")
			}
		}
	})
	if !ok || s.Query() != std.Query() || n.Query() != named.Query() {
		return false
	}
	all := std.Values()
	for i, q := range queries {
		if !strings.HasPrefix(std.Query(), q[0]) || !strings.HasPrefix(named.Query(), q[1]) || len(values[i]) > len(all) {
			return false
		}
		from := 0
		if i > 0 && i < len(queries)-1 {
			from = len(values[i-1])
		}
		for j := from; j < len(values[i]); j++ {
			if !sameJSON(argTerm(values[i][j]), argTerm(all[j])) {
				return false
			}
		}
	}
	return len(values) == 0 || len(values[len(values)-1]) == len(all)
}

// clause is one of the parts of a statement.
func (g *gen) clause() T {
	several := func(min int, f func() T) []T {
		es := make([]T, min+g.n(4))
		for i := range es {
			es[i] = f()
		}
		return es
	}
	item := func() T {
		for {
			if e := g.selectItem(); str(e, "k") != "val" {
				return e
			}
		}
	}
	with := func() T {
		for {
			if ws := g.withs(); len(ws) > 0 {
				return ws[0]
			}
		}
	}
	switch g.n(8) {
	case 0:
		return T{"k": "cl", "c": "OrderBy", "a": g.orders()}
	case 1:
		return T{"k": "cl", "c": "GroupBy", "a": several(1, func() T { return g.colTerm(true) })}
	case 2:
		return T{"k": "cl", "c": "DistinctOn", "a": several(0, func() T { return g.colTerm(true) })}
	case 3:
		return T{"k": "cl", "c": "Using", "a": several(0, g.tab)}
	case 4:
		return T{"k": "cl", "c": "Returning", "a": several(1, item)}
	case 5:
		return T{"k": "cl", "c": "With", "a": several(0, with)}
	case 6:
		return T{"k": "cl", "c": "Comment", "a": []T{vstr(g.pick("", "note", "$1", g.comment()))}}
	}
	return T{"k": "cl", "c": "Set", "a": several(1, g.pair)}
}

// statementPart is anything that can be written to a context.
func (g *gen) statementPart() T {
	stm := func(e T) T { return T{"k": "stm", "e": e} }
	switch g.n(12) {
	case 0, 1:
		if len(g.metas) > 0 {
			return stm(T{"k": "b", "h": 1 + g.n(len(g.metas))})
		}
	case 2:
		return stm(g.cond(g.n(3)))
	case 3, 4:
		c := T{"k": "cnd", "c": g.pick("Where", "Having"), "e": g.cond(g.n(3))}
		links := make([]T, g.n(5))
		for i := range links {
			links[i] = T{"k": "lnk", "op": g.pick("AND", "OR"), "e": g.cond(g.n(2))}
		}
		c["a"] = links
		return c
	case 5, 6, 7:
		return g.clause()
	case 8:
		return stm(g.one(g.tab, g.agg, func() T { return g.colTerm(true) }, func() T { return T{"k": "into", "e": g.tab()} },
			func() T { return T{"k": "from", "a": []T{g.tab(), {"k": "raw", "v": g.rawText()}}[:1+g.n(2)]} }))
	case 9:
		return stm(T{"k": g.pick("lim", "off"), "v": g.pick("0", "1", "10", "9223372036854775807")})
	case 10:
		return stm(g.one(func() T { return T{"k": g.pick("pre", "suf"), "v": g.pick("", g.rawText())} },
			func() T {
				return T{"k": "ord", "f": "Order", "n": g.pick("", "a", "b.c"), "t": g.pick("", "ASC", "DESC")}
			},
			func() T {
				return T{"k": "join", "t": joinTypes[g.n(len(joinTypes))], "tab": g.tab(), "cond": g.one(func() T { return g.onCond(g.n(3)) }, func() T { return g.cond(g.n(2)) })}
			}))
	case 11:
		return stm(g.exprArg(1))
	}
	return T{"k": "txt", "v": g.pick(" ", ", ", "; ", "$1", ":arg_1", "'%s'", "", " é ")}
}

// partsOf a program is written to contexts.
func (pr *program) parts() {
	n := 1 + pr.g.n(6)
	ps := make([]T, n)
	for i := range ps {
		ps[i] = pr.g.statementPart()
		if i > 0 && pr.g.p1(0.1) {
			ps[i] = clone([]T{ps[i-1]})[0]
		}
	}
	pr.do(T{"op": "parts", "parts": ps}, meta{})
}
