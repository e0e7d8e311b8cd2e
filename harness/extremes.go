package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Extremes are programs far larger than the random ones: whatever counts,
// lists, nests or buffers has to hold at any size.

type extreme struct {
	name  string
	of    string // properties that it is made for
	build func(x *maker)
}

// maker makes a program.
type maker struct {
	*program
}

func (x *maker) start(kind string, args ...T) int {
	x.do(T{"op": "new", "kind": kind, "args": args}, meta{kind: kind})
	return len(x.g.metas)
}

func (x *maker) call(h int, m string, args ...T) int {
	if !x.do(T{"op": "call", "h": h, "m": m, "args": args}, meta{kind: x.g.metas[h-1].kind}) {
		return h
	}
	return len(x.g.metas)
}

func (x *maker) ints(n int) []T {
	es := make([]T, n)
	for i := range es {
		es[i] = T{"k": "val", "t": "int", "v": fmt.Sprint(i), "p": fmt.Sprint(i)}
	}
	return es
}

func (x *maker) equal(i int) T {
	return T{"k": "cmp", "m": "Equal", "x": T{"k": "ident", "v": fmt.Sprintf("c%d", i)}, "a": []T{x.ints(i + 1)[i]}}
}

func terms(n int, f func(i int) T) []T {
	es := make([]T, n)
	for i := range es {
		es[i] = f(i)
	}
	return es
}

func numbered(s string) func(i int) T {
	return func(i int) T { return vstr(fmt.Sprintf("%s%d", s, i)) }
}

var extremes = []extreme{
	{"a list beyond 16 bits", "C01 C02 C03 C17", func(x *maker) {
		h := x.call(x.start("select", vstr("a")), "Where", T{"k": "in", "m": "NotIn", "x": T{"k": "ident", "v": "b"}, "a": x.ints(65540 + x.g.n(9))})
		x.render(x.call(h, "And", x.equal(7)))
	}},
	{"rows beyond 16 bits", "C01 C13", func(x *maker) {
		rows := make([][]T, 8192)
		for i := range rows {
			rows[i] = x.ints(8)
		}
		h := x.call(x.start("insert", vstr("t")), "Columns", terms(8, numbered("c"))...)
		x.render(x.call(h, "Values", T{"k": "rows", "t": "[][]int", "a": rows}))
	}},
	{"long lists", "C09 C10 C24", func(x *maker) {
		n := 1030 + x.g.n(9)
		col := func(s string) func(i int) T {
			return func(i int) T { return T{"k": "col", "n": fmt.Sprintf("%s%d", s, i), "as": ""} }
		}
		h := x.call(x.start("select", terms(n, col("a"))...), "From", terms(300, numbered("f"))...)
		h = x.call(h, "GroupBy", terms(n, col("b"))...)
		h = x.call(h, "OrderBy", terms(n, func(i int) T { return T{"k": "ord", "f": "Order", "n": fmt.Sprintf("o%d", i), "t": "DESC"} })...)
		h = x.call(h, "With", terms(270, func(i int) T {
			return T{"k": "with", "n": fmt.Sprintf("w%d", i), "e": T{"k": "b", "h": 1}}
		})[:3]...)
		x.render(x.call(h, "DistinctOn", terms(n, col("d"))...))
		d := x.call(x.start("delete", vstr("t")), "Returning", terms(n, col("r"))...)
		x.render(x.call(d, "Using", terms(300, numbered("u"))...))
	}},
	{"many calls", "C05 C08 C10", func(x *maker) {
		h := x.call(x.start("select", vstr("a")), "Where", x.equal(0))
		mid := h
		for i := 1; i < 70; i++ {
			h = x.call(h, []string{"And", "Or"}[i%2], x.equal(i))
			h = x.call(h, "OrderBy", T{"k": "ord", "f": "Order", "n": fmt.Sprintf("o%d", i), "t": "ASC"})
			if i == 33 {
				mid = h
			}
		}
		x.render(h)
		x.render(x.call(mid, "Or", x.equal(99)))
		x.render(mid)
		x.render(h)
	}},
	{"a long condition", "C03 C04 C07 C08", func(x *maker) {
		left, right := x.equal(0), x.equal(0)
		for i := 1; i < 200; i++ {
			op := []string{"AND", "OR"}[i%3%2]
			left = T{"k": "log", "f": []string{"m", "fn"}[i%2], "op": op, "l": left, "r": x.equal(i)}
			right = T{"k": "log", "f": []string{"fn", "m"}[i%2], "op": op, "l": x.equal(i), "r": right}
		}
		x.render(x.call(x.start("delete", vstr("t")), "Where", left))
		x.render(x.call(x.start("select", vstr("a")), "Having", right))
	}},
	{"deep subqueries", "C01 C03 C18", func(x *maker) {
		h := x.call(x.start("select", vstr("a0")), "Where", x.equal(0))
		for i := 1; i < 40; i++ {
			c := T{"k": "in", "m": "In", "x": T{"k": "ident", "v": "x"}, "a": []T{{"k": "b", "h": h}}}
			h = x.call(x.start("select", numbered("a")(i)), "Where", T{"k": "log", "f": "fn", "op": "AND", "l": c, "r": x.equal(i)})
		}
		x.render(h)
	}},
	{"many assignments", "C01 C02 C12 C26", func(x *maker) {
		pairs := func(n, step int) []T {
			return terms(n, func(i int) T {
				return T{"k": "pair", "key": vstr(fmt.Sprintf("k%03d", (i*step)%n)), "val": x.ints(i + 1)[i]}
			})
		}
		x.render(x.call(x.start("update", vstr("t")), "Set", append(pairs(257, 100), pairs(60, 7)...)...))
		m := T{"k": "map", "t": "types.Map", "a": pairs(130, 3)}
		if _, ok := goTypes["types.Map"]; !ok {
			m["t"] = "map[string]interface {}"
		}
		x.render(x.call(x.start("update", vstr("t")), "Set", m))
		h := x.call(x.start("insert", vstr("t")), "Set", pairs(140, 9)...)
		x.render(x.call(h, "OnConflict", append(terms(140, numbered("k")), T{"k": "doupdate", "a": pairs(140, 11)})...))
	}},
	{"long names", "C11 C14", func(x *maker) {
		n := strings.Repeat(`a"b c`, 900) + "." + strings.Repeat("x", 5000)
		h := x.call(x.start("select", T{"k": "col", "n": n, "as": strings.Repeat(`"q`, 700)}), "From", T{"k": "tab", "n": strings.Repeat("é.", 600) + "t", "as": "z", "only": false})
		x.render(x.call(h, "Where", T{"k": "cmp", "m": "Equal", "x": T{"k": "ident", "v": n}, "a": x.ints(1)}))
	}},
	{"long values", "C02 C22 C23", func(x *maker) {
		s := strings.Repeat(`O'Brien \ "$1" `, 1200)
		h := x.call(x.start("insert", vstr("t")), "Columns", terms(3, numbered("c"))...)
		x.render(x.call(h, "Values", vstr(s), T{"k": "val", "t": "[]uint8", "v": strings.Repeat("0a27ff", 3000)}, vstr(strings.Repeat("é", 9000))))
	}},
	{"a long comment", "C21", func(x *maker) {
		h := x.call(x.start("select", vstr("a")), "Comment", vstr(strings.Repeat("note; \r\n-- /* ", 600)))
		x.render(h)
	}},
	{"refused at the end", "C20", func(x *maker) {
		h := x.start("select", vstr("a"))
		bad := func(n int, f func(i int) T, last T) []T { return append(terms(n, f), last) }
		x.call(h, "Columns", bad(1030, numbered("c"), vstr(""))...)
		col := func(i int) T { return T{"k": "col", "n": fmt.Sprintf("c%d", i), "as": ""} }
		none := T{"k": "col", "n": "", "as": ""}
		for _, m := range []string{"GroupBy", "DistinctOn"} {
			x.call(h, m, T{"k": "cols", "a": bad(1030, col, none)})
			x.call(h, m, bad(1030, col, none)...)
			x.call(h, m, T{"k": "slice", "t": "[]string", "a": bad(1030, numbered("c"), vstr(""))})
		}
		x.call(x.start("insert", vstr("t")), "Columns", T{"k": "cols", "a": bad(300, col, none)})
		x.call(x.start("delete", vstr("t")), "Returning", bad(300, col, none)...)
		x.call(h, "From", bad(300, numbered("t"), vstr(""))...)
		x.call(h, "OrderBy", bad(300, func(i int) T { return T{"k": "ord", "f": "Order", "n": "o", "t": "ASC"} }, T{"k": "ord", "f": "Order", "n": "", "t": "ASC"})...)
		x.call(x.start("update", vstr("t")), "Set", bad(300, func(i int) T {
			return T{"k": "pair", "key": numbered("k")(i), "val": x.ints(1)[0]}
		}, T{"k": "pair", "key": vstr(""), "val": x.ints(1)[0]})...)
		x.render(h)
	}},
	{"many parts", "C27", func(x *maker) {
		x.start("select", vstr("a"))
		x.do(T{"op": "parts", "parts": terms(120, func(i int) T {
			switch i % 3 {
			case 0:
				return T{"k": "cl", "c": "Set", "a": []T{{"k": "pair", "key": vstr("k"), "val": x.ints(1)[0]}}}
			case 1:
				return T{"k": "cnd", "c": "Having", "e": x.equal(i), "a": []T{{"k": "lnk", "op": "OR", "e": x.equal(i)}}}
			}
			return T{"k": "stm", "e": T{"k": "in", "m": "In", "x": T{"k": "ident", "v": "b"}, "a": x.ints(i * 8)}}
		})}, meta{})
	}},
}

// extremesOf executes the extreme programs of a profile.
func extremesOf(profile string, seed int64, out, hang string) {
	var mine []extreme
	for _, e := range extremes {
		if strings.Contains(e.of, profile) {
			mine = append(mine, e)
		}
	}
	lines := make([]string, len(mine))
	dog := newWatchdog(hang)
	parallel(len(mine), func(i int) {
		p := profiles[profile]()
		g := &gen{r: rand.New(rand.NewSource(seed)), p: &p}
		dog.enter(i, func() []T { return []T{{"op": "extreme", "profile": profile, "seed": seed, "name": mine[i].name}} })
		x := &maker{&program{g: g, w: newWorld(p.opts.mutate)}}
		mine[i].build(x)
		ops := x.finish()
		dog.leave(i)
		lines[i] = scenarioText(ops)
	})
	write(out, lines)
}
