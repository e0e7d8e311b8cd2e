package main

import (
	"fmt"
	"hash/crc32"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/pkg/errors"

	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/types"
)

// guard runs f and says whether it returned.
func guard(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, is := r.(string); is && strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

// rendering is what the three public renderings returned.
type rendering struct {
	qok, nok, sok bool
	q, n, s       string
	args, nargs   []T
}

func argTerm(x interface{}) T {
	d := describe(x)
	return d
}

func namedTerms(m map[string]interface{}) []T {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	idx := func(s string) int {
		if n, err := strconv.Atoi(strings.TrimPrefix(s, "arg_")); err == nil && strings.HasPrefix(s, "arg_") {
			return n
		}
		return 1 << 30
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := idx(keys[i]), idx(keys[j])
		return a < b || a == b && keys[i] < keys[j]
	})
	r := make([]T, len(keys))
	for i, k := range keys {
		d := argTerm(m[k])
		r[i] = T{"n": k, "t": d["t"], "v": d["v"]}
	}
	return r
}

// render observes the three renderings, in one of the six orders, and then
// spoils what they returned.
func render(b builder.Builder, order int) rendering {
	r := rendering{args: []T{}, nargs: []T{}}
	q := func() {
		r.qok = guard(func() {
			text, args := b.Query()
			r.q = enc(text)
			for i := range args {
				r.args = append(r.args, argTerm(args[i]))
			}
			for i := range args {
				args[i] = "spoiled"
			}
		})
		if !r.qok {
			r.args = []T{}
		}
	}
	n := func() {
		r.nok = guard(func() {
			text, args := b.NamedQuery()
			r.n = enc(text)
			r.nargs = namedTerms(args)
			for k := range args {
				args[k] = "spoiled"
			}
			if args != nil {
				args["spoiled"] = true
			}
		})
	}
	s := func() { r.sok = guard(func() { r.s = enc(b.String()) }) }
	for _, f := range [][]func(){{q, n, s}, {s, n, q}, {n, q, s}, {n, s, q}, {q, s, n}, {s, q, n}}[order%6] {
		f()
	}
	return r
}

func (r rendering) observed() T {
	return T{"ok": r.qok, "q": r.q, "n": r.n, "s": r.s, "args": r.args, "nargs": r.nargs}
}

func (r rendering) same(o rendering) bool {
	return r.qok == o.qok && r.nok == o.nok && r.sok == o.sok && r.q == o.q && r.n == o.n && r.s == o.s &&
		reflect.DeepEqual(r.args, o.args) && reflect.DeepEqual(r.nargs, o.nargs)
}

// step executes one operation of a program and returns what was observed.
// Constructions that succeed become handle `next`.
func (w *world) step(op T, next int) (ok bool, r rendering) {
	switch str(op, "op") {
	case "new":
		var b interface{}
		ok = guard(func() { b = w.construct(str(op, "kind"), list(op, "args")) })
		if ok {
			w.pool[next] = b
		}
	case "call":
		var b interface{}
		ok = guard(func() { b = w.apply(num(op, "h"), str(op, "m"), list(op, "args")) })
		if ok {
			w.pool[next] = b
		}
	case "render":
		r = rendering{q: "this builder could not be built", args: []T{}, nargs: []T{}}
		if b, is := w.pool[num(op, "h")].(builder.Builder); is {
			r = render(b, num(op, "ord"))
		}
		ok = true
	default:
		ok = true
	}
	w.settle()
	return ok, r
}

// run executes a whole program.  The handles are those of the first
// execution: an operation that failed then has no handle.
func run(ops []T, mutate bool) ([]bool, []rendering) {
	w := newWorld(mutate)
	oks := make([]bool, len(ops))
	rs := make([]rendering, len(ops))
	next := 1
	for i, op := range ops {
		oks[i], rs[i] = w.step(op, next)
		if isConstruction(op) && boolean(op, "ok") {
			next++
		}
	}
	return oks, rs
}

func isConstruction(op T) bool { return str(op, "op") == "new" || str(op, "op") == "call" }

// handles lists the handles an operation mentions.
func handles(x interface{}, acc map[int]bool) {
	switch v := x.(type) {
	case nil:
	case T:
		if k := str(v, "k"); k == "b" || k == "bs" {
			acc[num(v, "h")] = true
			return
		}
		for _, y := range v {
			handles(y, acc)
		}
	case []T:
		for _, y := range v {
			handles(y, acc)
		}
	case [][]T:
		for _, y := range v {
			handles(y, acc)
		}
	case []interface{}:
		for _, y := range v {
			handles(y, acc)
		}
	}
}

// linear rebuilds handle h in isolation (only its own chain of calls and the
// builders it mentions) and renders it.
func linear(ops []T, upto int, h int, order int) rendering {
	made := map[int]int{} // handle -> operation
	next := 1
	for i := 0; i < upto; i++ {
		if isConstruction(ops[i]) && boolean(ops[i], "ok") {
			made[next] = i
			next++
		}
	}
	need := map[int]bool{}
	var visit func(h int)
	visit = func(h int) {
		if need[h] {
			return
		}
		need[h] = true
		op := ops[made[h]]
		if p := num(op, "h"); p != 0 {
			visit(p)
		}
		acc := map[int]bool{}
		handles(op["args"], acc)
		for x := range acc {
			visit(x)
		}
	}
	visit(h)
	w := newWorld(false)
	w.shared = nil
	for x := 1; x < next; x++ {
		if need[x] {
			w.step(ops[made[x]], x)
		}
	}
	b, ok := w.pool[h]
	if !ok {
		return rendering{q: "cannot be built alone", args: []T{}, nargs: []T{}}
	}
	return render(b.(builder.Builder), order)
}

// twin changes the contents of every bound value of a term, and nothing else.
func (g *gen) twin(x interface{}) interface{} {
	switch v := x.(type) {
	case T:
		if _, ok := v["w"]; ok {
			return g.twinValue(v)
		}
		r := make(T, len(v))
		for k, y := range v {
			r[k] = y
		}
		for _, k := range sortedKeys(v) {
			r[k] = g.twin(v[k])
		}
		return r
	case []T:
		r := make([]T, len(v))
		for i := range v {
			r[i] = g.twin(v[i]).(T)
		}
		return r
	case [][]T:
		r := make([][]T, len(v))
		for i := range v {
			r[i] = g.twin(v[i]).([]T)
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(v))
		for i := range v {
			r[i] = g.twin(v[i])
		}
		return r
	}
	return x
}

func sortedKeys(m T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// placeholders splits a text at the placeholders that are outside quoted
// names, quoted strings and comments.
func placeholders(text string, named bool) (ph []string, parts []string) {
	ph, parts = []string{}, []string{}
	last := 0
	i := 0
	for i < len(text) {
		c := text[i]
		switch {
		case c == '"' || c == '\'':
			j := strings.IndexByte(text[i+1:], c)
			if j < 0 {
				i = len(text)
			} else {
				i += j + 2
			}
		case c == '-' && strings.HasPrefix(text[i:], "--"):
			j := strings.IndexByte(text[i:], '\n')
			if j < 0 {
				i = len(text)
			} else {
				i += j
			}
		case !named && c == '$' || named && strings.HasPrefix(text[i:], ":arg_"):
			j := i + 1
			if named {
				j = i + len(":arg_")
			}
			start := j
			for j < len(text) && text[j] >= '0' && text[j] <= '9' {
				j++
			}
			if j > start {
				ph = append(ph, text[i:j])
				parts = append(parts, text[last:i])
				last = j
			}
			i = j
		default:
			i++
		}
	}
	return ph, append(parts, text[last:])
}

// finish fills the results of every operation of a program that was executed
// once (constructions already have their results).
type options struct {
	mutate, lin, twin, same, parts bool
}

func finish(g *gen, ops []T, rs []rendering, o options) {
	var toks []bool
	var trs []rendering
	if o.twin {
		tops := make([]T, len(ops))
		for i := range ops {
			tops[i] = g.twin(ops[i]).(T)
		}
		toks, trs = run(tops, o.mutate)
	}
	var aoks [][]bool
	var again [][]rendering
	if o.same {
		for i := 0; i < 3; i++ {
			ok, r := run(ops, o.mutate)
			aoks, again = append(aoks, ok), append(again, r)
		}
	}
	for i, op := range ops {
		if isConstruction(op) {
			if o.twin {
				op["tok"] = toks[i]
			}
			if o.same {
				same := true
				for j := range aoks {
					same = same && aoks[j][i] == boolean(op, "ok")
				}
				op["same"] = same
			}
		}
		if str(op, "op") != "render" {
			continue
		}
		r := rs[i]
		for k, v := range r.observed() {
			op[k] = v
		}
		op["nok"], op["sok"] = r.nok, r.sok
		if o.lin {
			op["lin"] = linear(ops, i, num(op, "h"), 0).observed()
		}
		if o.twin {
			op["tq"], op["tn"], op["tok"] = trs[i].q, trs[i].n, trs[i].qok
		}
		if o.same {
			same := true
			for j := range again {
				same = same && r.same(again[j][i])
			}
			op["same"] = same
		}
		if o.parts {
			op["ph"], op["qp"] = placeholders(r.q, false)
			op["nph"], op["np"] = placeholders(r.n, true)
		}
	}
}

// observeIs calls the four predicates on the builder, by value and by pointer.
func (w *world) observeIs(op T) {
	b := w.pool[num(op, "h")]
	p := reflect.New(reflect.TypeOf(b))
	p.Elem().Set(reflect.ValueOf(b))
	preds := []func(builder.Builder) bool{builder.IsSelectBuilder, builder.IsInsertBuilder, builder.IsUpdateBuilder, builder.IsDeleteBuilder}
	v, pt := make([]bool, 4), make([]bool, 4)
	op["ok"] = guard(func() {
		for i, f := range preds {
			v[i] = f(b.(builder.Builder))
			pt[i] = f(p.Interface().(builder.Builder))
		}
	})
	op["v"], op["p"] = v, pt
}

// observeStmt renders Statement() with contexts of our own.
func (w *world) observeStmt(op T) {
	b := w.pool[num(op, "h")].(builder.Builder)
	var st stmt.Statement
	op["empty"] = false
	op["got"] = guard(func() {
		st = b.Statement()
		op["empty"] = st.IsEmpty()
	})
	var q, n, s string
	args, nargs := []T{}, []T{}
	ok := guard(func() {
		ctx := &types.StdContext{}
		st.Write(ctx)
		q = enc(ctx.Query())
		for _, a := range ctx.Values() {
			args = append(args, argTerm(a))
		}
	})
	nok := guard(func() {
		ctx := &types.NamedContext{}
		st.Write(ctx)
		n = enc(ctx.Query())
		nargs = namedTerms(ctx.Values())
	})
	sok := guard(func() {
		ctx := &types.RawContext{}
		st.Write(ctx)
		s = enc(ctx.Query())
	})
	if !ok {
		args = []T{}
	}
	op["ok"], op["q"], op["args"] = ok && nok && sok, q, args
	op["n"], op["s"], op["nargs"] = n, s, nargs
}

// observeJoin parses a textual join.
func observeJoin(op T) {
	text := str(op, "str")
	var j stmt.Join
	var err error
	op["ok"], op["t"], op["tab"], op["q"], op["zero"], op["cause"] = false, "", "", "", false, false
	op["panic"] = !guard(func() {
		j, err = parser.ParseJoin(text)
		op["ok"] = err == nil
		if err != nil {
			op["zero"] = reflect.DeepEqual(j, stmt.Join{})
			op["cause"] = errors.Cause(err) == parser.ErrJoinInvalidCondition
			return
		}
		op["t"], op["tab"] = string(j.Type), j.Table.Name
		ctx := &types.StdContext{}
		j.Condition.Write(ctx)
		op["q"] = ctx.Query()
	})
	op["must"] = !guard(func() {
		m := parser.MustParseJoin(text)
		if !reflect.DeepEqual(m, j) {
			panic("differs")
		}
	})
}

func tok(t token.Token) T { return T{"t": string(t.Type), "v": t.Value} }

// observeLex runs the lexer and its iterator to their ends, and further.
func observeLex(op T) {
	text := str(op, "str")
	toks, its, more := []T{}, []T{}, []T{}
	limit := len(text) + 16
	op["panic"] = !guard(func() {
		l := lexer.New(strings.NewReader(text))
		for i := 0; ; i++ {
			t := l.Next()
			if t.Type == token.EOF {
				break
			}
			if i > limit {
				panic("the lexer does not terminate")
			}
			toks = append(toks, tok(t))
		}
		for i := 0; i < 3; i++ {
			if t := l.Next(); t.Type != token.EOF {
				more = append(more, tok(t))
			}
		}
		l = lexer.New(strings.NewReader(text))
		it := l.Iterator()
		for it.HasNext() {
			next := T{}
			// Is() must announce what Next() returns.
			probe := *it
			t := probe.Next()
			if !it.Is(t.Type) || it.Is(token.EOF) {
				more = append(more, T{"t": "Is", "v": fmt.Sprint(t.Type)})
			}
			next = tok(it.Next())
			its = append(its, next)
			if len(its) > limit {
				panic("the iterator does not terminate")
			}
		}
		for i := 0; i < 3; i++ {
			if t := it.Next(); t.Type != token.EOF || it.HasNext() || it.Is(token.Literal) {
				more = append(more, tok(t))
			}
		}
	})
	if op["panic"] == false {
		// A reader may give its bytes as it likes, and the iterator may start anywhere.
		same := guard(func() {
			half := len(toks) / 2
			l := lexer.New(iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(text))))
			for i := 0; i < half; i++ {
				if t := l.Next(); !reflect.DeepEqual(tok(t), toks[i]) {
					more = append(more, tok(t))
				}
			}
			it := l.Iterator()
			for i := half; i < len(toks); i++ {
				if t := it.Next(); !reflect.DeepEqual(tok(t), toks[i]) {
					more = append(more, tok(t))
				}
			}
			if it.HasNext() {
				more = append(more, tok(it.Next()))
			}
		})
		// The specification says that a blank separates (MCText, Separable): a long
		// text made of this one has the tokens of this one, again and again.
		if len(text) > 0 && crc32.ChecksumIEEE([]byte(text))%16 == 0 {
			same = same && guard(func() {
				l := lexer.New(strings.NewReader(strings.Repeat(text+"\n", 9000/(len(text)+1)) + text + strings.Repeat("\t", 4097) + text))
				for i := 0; i < 9000/(len(text)+1)+2; i++ {
					for j := range toks {
						if t := l.Next(); !reflect.DeepEqual(tok(t), toks[j]) {
							more = append(more, T{"t": "long", "v": t.Value})
							return
						}
					}
				}
				if t := l.Next(); t.Type != token.EOF {
					more = append(more, T{"t": "long", "v": t.Value})
				}
			})
		}
		if !same {
			more = append(more, T{"t": "panic", "v": "reading it otherwise"})
		}
	}
	op["toks"], op["its"], op["more"] = toks, its, more
}
