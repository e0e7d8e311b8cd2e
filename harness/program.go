package main

import (
	"encoding/json"
	"strings"
)

var methods = map[string][]string{
	"select": {"Columns", "Distinct", "DistinctOn", "From", "Join", "With", "Where", "And", "Or", "GroupBy", "Having", "OrderBy", "Limit", "Offset",
		"Suffix", "Prefix", "Comment"},
	"insert": {"Into", "Columns", "Values", "Set", "OnConflict", "Returning", "Comment"},
	"update": {"Only", "Set", "Using", "With", "Where", "And", "Or", "From", "Returning", "Comment"},
	"delete": {"From", "Using", "Where", "And", "Or", "Returning", "Comment"},
}

// single lists the clauses that hold one value.
var single = map[string]bool{
	"select.From": true, "select.GroupBy": true, "select.Having": true, "select.Limit": true, "select.Offset": true, "select.DistinctOn": true,
	"select.Prefix": true, "select.Suffix": true, "insert.Into": true, "insert.Columns": true, "insert.Values": true, "insert.OnConflict": true,
	"insert.Returning": true, "insert.Set": true, "update.From": true, "update.Returning": true, "delete.From": true, "delete.Using": true, "delete.Returning": true,
}

// allowed says whether a method makes sense on a builder (unless it must be misused).
func (g *gen) allowed(m meta, name string) bool {
	key := m.kind + "." + name
	if single[key] && m.set[name] {
		return g.p1(g.p.again)
	}
	switch key {
	case "select.And", "select.Or", "update.And", "update.Or", "delete.And", "delete.Or":
		return m.set["Where"] || g.p1(g.p.bad*0.4)
	case "insert.Set":
		return !(m.set["Columns"] || m.set["Values"]) || g.p1(g.p.again)
	case "insert.Columns", "insert.Values":
		return !m.set["Set"] || g.p1(g.p.again)
	case "update.Using":
		return m.mode == "list" || g.p1(g.p.bad*0.5)
	}
	return true
}

// arguments of a method.
func (g *gen) arguments(m meta, name string) []T {
	key := m.kind + "." + name
	if single[key] && m.set[name] && g.p1(0.1) {
		switch name {
		case "From", "GroupBy", "DistinctOn", "Using", "Columns", "Returning":
			if key != "update.From" {
				return []T{}
			}
		}
	}
	switch key {
	case "select.Columns":
		if g.p1(0.05) {
			return []T{}
		}
		return g.selectItems()
	case "select.Distinct", "update.Only":
		return []T{}
	case "select.DistinctOn", "select.GroupBy":
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		return g.columns(false)
	case "insert.Columns":
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		return g.columns(false)
	case "select.From":
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		return g.fromArgs(3)
	case "delete.From":
		return g.fromArgs(2)
	case "update.From":
		return g.fromArgs(1)
	case "delete.Using":
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		n := 1 + g.n(3)
		es := make([]T, n)
		for i := range es {
			es[i] = g.table()
		}
		return g.spoil(es)
	case "select.Join":
		return g.joinArgs()
	case "select.With", "update.With":
		return g.withs()
	case "select.Where", "select.And", "select.Or", "select.Having", "update.Where", "update.And", "update.Or", "delete.Where", "delete.And", "delete.Or":
		return []T{g.condition()}
	case "select.OrderBy":
		return g.orders()
	case "select.Limit":
		return []T{g.count(false)}
	case "select.Offset":
		return []T{g.count(true)}
	case "select.Suffix":
		return []T{g.affix("suf", "FOR UPDATE", "FOR SHARE SKIP LOCKED", "FETCH FIRST 1 ROW ONLY", "UNION SELECT 1")}
	case "select.Prefix":
		return []T{g.affix("pre", "EXPLAIN", "EXPLAIN ANALYZE", "/* hint */")}
	case "select.Comment", "insert.Comment", "update.Comment", "delete.Comment":
		return []T{vstr(g.comment())}
	case "insert.Into":
		if g.p1(g.p.bad) {
			return []T{g.foreign()}
		}
		if g.p1(0.2) {
			return []T{{"k": "into", "e": g.tab()}}
		}
		return []T{g.table()}
	case "insert.Values":
		return g.insertValues()
	case "insert.Set":
		return g.assoc()
	case "insert.OnConflict":
		return g.conflict()
	case "insert.Returning", "update.Returning", "delete.Returning":
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		return g.selectItems()
	case "update.Set":
		if m.mode == "list" && !g.p1(g.p.bad) || m.mode == "" && g.p1(g.p.listset) {
			n := g.size(1)
			es := make([]T, n)
			for i := range es {
				es[i] = g.one(func() T { return vstr(g.columnList(1 + g.n(2))) }, func() T { return T{"k": "col", "n": g.setKeyName(), "as": ""} })
			}
			return g.spoil(es)
		}
		if g.p1(g.p.bad * 0.3) {
			return []T{}
		}
		return g.spoil(g.assoc())
	case "update.Using":
		n := g.size(1)
		es := make([]T, n)
		for i := range es {
			es[i] = g.rowValue()
		}
		return es
	}
	panic("harness: no arguments for " + key)
}

func (g *gen) affix(kind string, texts ...string) T {
	if g.p1(g.p.bad) {
		return g.foreign()
	}
	if g.p1(0.4) {
		return T{"k": kind, "v": g.pad(g.pick(texts...))}
	}
	return vstr(g.pad(g.pick(texts...)))
}

type program struct {
	g     *gen
	w     *world
	ops   []T
	rs    []rendering
	last  []int           // latest handle of each statement
	often map[string]bool // methods called more often
}

// do executes an operation and appends it to the program.
func (pr *program) do(op T, m meta) bool {
	switch str(op, "op") {
	case "is":
		pr.w.observeIs(op)
	case "stmt":
		pr.w.observeStmt(op)
	}
	pr.g.ways(op["args"])
	if str(op, "op") == "parts" {
		pr.g.ways(op["parts"])
		pr.w.observeParts(op)
	}
	ok, r := pr.w.step(op, len(pr.g.metas)+1)
	if isConstruction(op) {
		op["ok"] = ok
		op["kept"] = !pr.w.touched
		if ok {
			pr.g.metas = append(pr.g.metas, m)
		}
	}
	pr.ops = append(pr.ops, op)
	pr.rs = append(pr.rs, r)
	return ok
}

func (pr *program) render(h int) {
	pr.do(T{"op": "render", "h": h, "ord": pr.g.n(6)}, meta{})
}

// start begins a statement.
func (pr *program) start(kind string) {
	g := pr.g
	m := meta{kind: kind, set: map[string]bool{}}
	op := T{"op": "new", "kind": kind, "args": []T{}}
	if g.p1(g.p.newbare) && kind != "update" {
		op["kind"] = "new" + kind
		m.empty = kind == "select"
	} else {
		switch kind {
		case "select":
			op["args"] = g.selectItems()
			if g.p1(0.1) {
				op["args"] = []T{}
			}
		case "insert":
			op["args"] = g.arguments(m, "Into")
			m.set["Into"] = true
		case "update":
			op["args"] = []T{g.table()}
			if g.p1(g.p.bad) {
				op["args"] = []T{g.foreign()}
			}
		case "delete":
			op["args"] = g.fromArgs(1)
			m.set["From"] = true
		}
	}
	if pr.do(op, m) {
		pr.last = append(pr.last, len(g.metas))
	}
}

// earlier sometimes gives the arguments of an earlier call of the same method.
func (pr *program) earlier(kind, name string) []T {
	g := pr.g
	if !g.p1(0.1) {
		return nil
	}
	var found []T
	for _, op := range pr.ops {
		if str(op, "op") == "call" && str(op, "m") == name && g.metas[num(op, "h")-1].kind == kind {
			found = append(found, op)
		}
	}
	if len(found) == 0 {
		return nil
	}
	var args []T
	check(json.Unmarshal([]byte(jsonText(found[g.n(len(found))]["args"])), &args))
	return args
}

// derive calls a method on a builder.
func (pr *program) derive(h int) {
	g := pr.g
	m := g.metas[h-1]
	var names []string
	weights := map[string]int{}
	for _, n := range methods[m.kind] {
		if k := g.p.weight(m.kind + "." + n); k > 0 && g.allowed(m, n) {
			names = append(names, n)
			weights[n] = k
			if pr.often[n] {
				weights[n] = 8 * k
			}
		}
	}
	if len(names) == 0 {
		return
	}
	name := g.weighted(names, weights)
	d := meta{kind: m.kind, set: map[string]bool{name: true}, mode: m.mode, cmt: m.cmt, empty: m.empty}
	for k := range m.set {
		d.set[k] = true
	}
	args := pr.earlier(m.kind, name)
	if args == nil {
		args = g.arguments(m, name)
	}
	switch m.kind + "." + name {
	case "update.Set":
		if len(args) > 0 {
			d.mode = "assoc"
			if k := str(args[0], "k"); k == "val" || k == "col" {
				d.mode = "list"
			}
		}
	case "select.Columns":
		d.empty = false
	}
	if name == "Comment" {
		d.cmt = true
	}
	if !pr.do(T{"op": "call", "h": h, "m": name, "args": args}, d) {
		return
	}
	n := len(g.metas)
	found := false
	for i := range pr.last {
		if pr.last[i] == h {
			pr.last[i] = n
			found = true
		}
	}
	if !found {
		pr.last = append(pr.last, n)
	}
	if g.p1(g.p.render) {
		pr.render(n)
	}
}

// complete gives a builder its mandatory part.
func (pr *program) complete(h int) {
	g := pr.g
	m := g.metas[h-1]
	var op T
	d := meta{kind: m.kind, set: map[string]bool{}, mode: m.mode, cmt: m.cmt, empty: m.empty}
	for k := range m.set {
		d.set[k] = true
	}
	switch {
	case m.kind == "update" && m.mode == "":
		op = T{"op": "call", "h": h, "m": "Set", "args": []T{g.pair()}}
		d.mode = "assoc"
	case m.kind == "update" && m.mode == "list" && !m.set["Using"]:
		op = T{"op": "call", "h": h, "m": "Using", "args": []T{g.value()}}
		d.set["Using"] = true
	default:
		return
	}
	if pr.do(op, d) {
		for i := range pr.last {
			if pr.last[i] == h {
				pr.last[i] = len(g.metas)
			}
		}
	}
}

// program builds, executes and observes one program.
func (g *gen) program() []T {
	p := g.p
	pr := &program{g: g, w: newWorld(p.opts.mutate)}
	kinds := []string{"select", "insert", "update", "delete"}
	calls := p.calls[0] + g.n(p.calls[1]-p.calls[0]+1)
	if g.p1(0.2) { // mostly a few methods
		pr.often = map[string]bool{}
		for _, k := range kinds {
			n := methods[k][g.n(len(methods[k]))]
			pr.often[n] = true
			if n == "And" || n == "Or" {
				pr.often["Where"] = true
			}
		}
	}
	if g.p1(0.004) {
		calls += 15 + g.n(35)
	}
	if p.sub > 0 && g.p1(p.sub*2) {
		pr.start("select")
		for i := g.n(4); i > 0 && len(pr.last) > 0; i-- {
			pr.derive(pr.last[len(pr.last)-1])
		}
	}
	for tries := 0; tries < 4; tries++ {
		n := len(pr.last)
		pr.start(g.weighted(kinds, p.kinds))
		if len(pr.last) > n {
			break
		}
	}
	if len(pr.last) == 0 {
		return pr.finish()
	}
	for i := 0; i < calls; i++ {
		switch {
		case g.p1(p.restart):
			pr.start(g.weighted(kinds, p.kinds))
		case g.p1(p.branch):
			pr.derive(1 + g.n(len(g.metas)))
		case g.p1(0.9):
			pr.derive(pr.last[len(pr.last)-1])
		default:
			pr.derive(pr.last[g.n(len(pr.last))])
		}
	}
	if !g.p1(p.bad * 0.3) {
		for _, h := range append([]int{}, pr.last...) {
			pr.complete(h)
		}
	}
	if p.pieces > 0 {
		for i := 1 + g.n(p.pieces); i > 0; i-- {
			pr.parts()
		}
		return pr.finish()
	}
	hs := append([]int{}, pr.last...)
	if p.branch > 0 {
		hs = hs[:0]
		for h := range g.metas {
			hs = append(hs, h+1)
		}
	}
	g.r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	if len(hs) > 8 {
		hs = hs[:8]
	}
	for _, h := range hs {
		if g.p1(p.is) {
			pr.do(T{"op": "is", "h": h}, meta{})
			if !g.metas[h-1].empty || g.p1(0.7) {
				pr.do(T{"op": "stmt", "h": h}, meta{})
			}
		}
		if p.is < 1 {
			pr.render(h)
		}
	}
	if g.p1(p.rerend) {
		for _, h := range hs {
			pr.render(h)
		}
	}
	return pr.finish()
}

func (pr *program) finish() []T {
	finish(pr.g, pr.ops, pr.rs, pr.g.p.opts)
	return pr.ops
}

// texts for the parser and the lexer.

func (g *gen) joinScenario() []T {
	var ops []T
	for i := 0; i < 6; i++ {
		var s string
		switch g.n(7) {
		case 0, 1:
			s = g.joinText(g.p1(0.6))
		case 2, 3, 4:
			s = g.joinNoise()
		case 5:
			s = g.soup()
		default:
			s = g.glue()
		}
		op := T{"op": "join", "str": s}
		observeJoin(op)
		ops = append(ops, op)
	}
	return ops
}

// glueChars damage a join: single characters, and texts that mean something elsewhere.
var glueChars = append(strings.Split(" \n\t=();,*:.'\"-_$\x00\x01aZ9é名\ufffd!<>|+/\\`#@?&[]{}~^%", ""),
	"--", "-- x", `""`, "''", "/*", "*/", "/* x */", "==", "::", ";;", "()", "!=", "<=", "=>", "||", "&&", "..", ",,", "$1", ":a", "{{}}", "//", "#x", "\\n", "\r\n", "  ", "\u00a0", "[0]", `"x"`, "'x'", ";x", "; --")

// glue is a well-formed join whose characters were damaged.
func (g *gen) glue() string {
	r := []rune(g.joinText(g.p1(0.5)))
	for k := 1 + g.n(2); k > 0 && len(r) > 0; k-- {
		i := g.n(len(r))
		c := []rune(glueChars[g.n(len(glueChars))])
		if g.p1(0.25) {
			i = len(r) - 1
		} else if g.p1(0.1) {
			r = append(r, c...)
			continue
		}
		switch g.n(3) {
		case 0:
			r = append(r[:i:i], r[i+1:]...)
		case 1:
			r = append(r[:i:i], append(c[:len(c):len(c)], r[i:]...)...)
		default:
			r = append(append(r[:i:i], c...), r[i+1:]...)
		}
	}
	return string(r)
}

var keywords = []string{"SELECT", "UPDATE", "INSERT", "DELETE", "FROM", "WHERE", "AND", "OR", "LIMIT", "OFFSET", "SET", "AS", "INNER",
	"CROSS", "LEFT", "RIGHT", "JOIN", "ON", "GROUP", "BY", "HAVING", "ORDER", "DISTINCT", "ONLY", "USING", "RETURNING",
	"VALUES", "INTO", "CONFLICT", "DO", "NOTHING", "WITH", "NOT", "EXISTS", "COUNT", "MAX", "MIN", "SUM"}

func (g *gen) lexScenario() []T {
	var ops []T
	for i := 0; i < 6; i++ {
		s := ""
		switch g.n(4) {
		case 0:
			s = g.soup()
		case 1:
			s = g.glue()
		case 2:
			for k := 1 + g.n(8); k > 0; k-- {
				w := []byte(keywords[g.n(len(keywords))])
				for j := range w {
					if g.p1(0.4) {
						w[j] |= 0x20
					}
				}
				s += string(w)
				if g.p1(0.15) {
					s += g.pick("1", "_", ".", "s", "x")
				}
				s += g.pick(" ", " ", "  ", "\n", "(", ")", ",", "=", "*", ";", ":")
			}
		default:
			chars := []rune("abzABZ019_..*=;,:()  \t\n\r'\"\\$%@!-+/<>[]{}|~^&?#`\x00\x01\x02\x1b\x7féÀ名\u2028\v\f\u0085\u00a0\u00ad\u1680\u2003\u200b\u3000\ufeff\ufffd\ufffd\u0301\u0663\u2160Ⅳßİı")
			for k := g.n(30); k > 0; k-- {
				c := chars[g.n(len(chars))]
				if g.p1(0.02) { // any other character of one unit
					if c = rune(1 + g.n(0xfffd)); c >= 0xd800 && c < 0xf900 {
						c = '¤'
					}
				}
				s += string(c)
			}
		}
		op := T{"op": "lex", "str": s}
		observeLex(op)
		ops = append(ops, op)
	}
	return ops
}

func (p *prof) weight(key string) int {
	if w, ok := p.m[key]; ok {
		return w
	}
	if w, ok := p.m["*."+key[strings.IndexByte(key, '.')+1:]]; ok {
		return w
	}
	return p.m["*"]
}
