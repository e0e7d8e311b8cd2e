package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
)

// expect executes the behaviours the specification exported (one JSON string
// per line, holding a program and the results the specification gives) and
// compares what the code does with them.  The first difference is written to
// out, and the process exits with status 4.
func expect(profile, focus, in, out, hang string) {
	p := base()
	if f, ok := profiles[profile]; ok {
		p = f()
	}
	on := map[string]bool{}
	for _, a := range strings.Split(focus, ",") {
		on[a] = true
	}
	p.opts.twin, p.opts.same, p.opts.lin, p.opts.mutate = on["twin"], on["same"], on["linear"], on["kept"]
	p.opts.parts = on["count"] || on["agree"]
	f, err := os.Open(in)
	check(err)
	defer f.Close()
	dog := newWatchdog(hang)
	type job struct {
		i    int
		text string
	}
	work := make(chan job, 64)
	var done, lost int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	bestAt, best, why := -1, []T(nil), ""
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range work {
				var doc string
				check(json.Unmarshal([]byte(j.text), &doc))
				var s struct {
					Ev []T `json:"ev"`
				}
				check(json.Unmarshal([]byte(doc), &s))
				want := make([]interface{}, len(s.Ev))
				for x, op := range s.Ev {
					want[x] = op["ok"]
				}
				if on["twin"] {
					markBound(s.Ev)
				}
				dog.enter(j.i, func() []T { return s.Ev })
				execute(s.Ev, &p, int64(j.i))
				dog.leave(j.i)
				what, gone := judge(s.Ev, want, on)
				atomic.AddInt64(&done, 1)
				if gone {
					atomic.AddInt64(&lost, 1)
				}
				if what != "" {
					mu.Lock()
					if bestAt < 0 || j.i < bestAt {
						bestAt, best, why = j.i, s.Ev, what
					}
					mu.Unlock()
				}
			}
		}()
	}
	r := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		line, err := r.ReadString('\n')
		if line = strings.TrimSpace(line); line != "" {
			work <- job{i, line}
		}
		if err != nil {
			break
		}
	}
	close(work)
	wg.Wait()
	fmt.Printf("{\"done\":%d,\"lost\":%d}\n", done, lost)
	if bestAt >= 0 {
		check(os.WriteFile(out, []byte(jsonText(T{"ev": best, "why": why})+"\n"), 0o644))
		os.Exit(4)
	}
}

func sameJSON(a, b interface{}) bool { return jsonText(a) == jsonText(b) }

// pairs keeps the type and the value of described arguments.
func pairs(x interface{}) []T {
	r := []T{}
	for _, a := range list(T{"x": x}, "x") {
		r = append(r, T{"t": a["t"], "v": a["v"]})
	}
	return r
}

// judge compares the results with those of the specification.  gone tells that
// the code took another way on an aspect that is not compared.
func judge(ops []T, want []interface{}, on map[string]bool) (what string, gone bool) {
	first := map[int]T{}
	for i, op := range ops {
		switch str(op, "op") {
		case "new", "call":
			if on["twin"] && boolean(op, "ok") != boolean(op, "tok") {
				return "a call panics or not depending on the contents of a bound value", false
			}
			if on["kept"] && !boolean(op, "kept") {
				return "a call modified a slice or a map that it was given", false
			}
			if on["same"] && !boolean(op, "same") {
				return "the same program panicked or not when run again", false
			}
			if want[i] != op["ok"] {
				if !on["ok"] {
					return "", true
				}
				if boolean(op, "ok") {
					return "accepted a call that must panic", false
				}
				return "panicked on a valid call", false
			}
		case "join":
			if w := judgeJoin(op); w != "" {
				return w, false
			}
		case "lex":
			for _, k := range []string{"toks", "its"} {
				if !sameJSON(op[k], op["xtoks"]) {
					return "tokens", false
				}
			}
			if boolean(op, "panic") || !sameJSON(op["more"], []T{}) {
				return "the lexer panicked, or went on after the end of the text", false
			}
		case "is":
			if !boolean(op, "ok") || !sameJSON(op["v"], op["xv"]) || !sameJSON(op["p"], op["xv"]) {
				return "builder kind is not recognised", false
			}
		case "stmt":
			if !boolean(op, "got") || op["ok"] != op["xok"] || boolean(op, "empty") != boolean(op, "xempty") {
				return "Statement() panicks, or is empty, unlike its builder", false
			}
			if boolean(op, "ok") && (op["q"] != op["xq"] || op["n"] != op["xn"] || op["s"] != op["xs"] ||
				!reflect.DeepEqual(pairs(op["args"]), pairs(op["xargs"])) || !reflect.DeepEqual(pairs(op["nargs"]), pairs(op["xargs"]))) {
				return "Statement() does not render like its builder", false
			}
		case "parts":
			if w := judgeParts(op); w != "" {
				return w, false
			}
		case "render":
			if w := judgeRender(op, first, on); w != "" {
				return w, false
			}
		}
	}
	return "", false
}

func judgeParts(op T) string {
	switch {
	case !boolean(op, "got"):
		return "a constructor panicked"
	case !boolean(op, "held"):
		return "a context read between the parts holds something else"
	case !sameJSON(op["empty"], op["xempty"]):
		return "IsEmpty of a part"
	case !boolean(op, "ok") || op["q"] != op["xq"] || !reflect.DeepEqual(pairs(op["args"]), pairs(op["xargs"])):
		return "parts on a StdContext"
	case op["n"] != op["xn"] || !reflect.DeepEqual(pairs(op["nargs"]), pairs(op["xargs"])):
		return "parts on a NamedContext"
	case !boolean(op, "sok") || op["s"] != op["xs"]:
		return "parts on a RawContext"
	}
	return ""
}

func judgeJoin(op T) string {
	switch {
	case boolean(op, "panic"):
		return "ParseJoin panicked"
	case op["ok"] != op["xok"]:
		if boolean(op, "ok") {
			return "ParseJoin accepted a text it cannot represent entirely"
		}
		return "ParseJoin refused a well-formed join"
	case boolean(op, "ok") && (op["t"] != op["xt"] || op["tab"] != op["xtab"] || op["q"] != op["xq"]):
		return "join type, table or condition"
	case !boolean(op, "ok") && !(boolean(op, "zero") && boolean(op, "cause")):
		return "ParseJoin returned a partial join or another error"
	case boolean(op, "must") == boolean(op, "ok"):
		return "MustParseJoin does not panic exactly on errors"
	}
	return ""
}

// haveLiterals tells that no argument is a driver.Valuer that fails.
func haveLiterals(op T) bool {
	for _, a := range list(op, "args") {
		for n := a; n != nil; n, _ = n["in"].(T) {
			if str(n, "k") == "error" {
				return false
			}
		}
	}
	return true
}

func judgeRender(op T, first map[int]T, on map[string]bool) string {
	obs := T{"ok": op["ok"], "q": op["q"], "n": op["n"], "s": op["s"], "args": op["args"], "nargs": op["nargs"]}
	ok, want := boolean(op, "ok"), boolean(op, "xok")
	both := ok && want
	h := num(op, "h")
	switch {
	case on["ok"] && ok != want:
		if ok {
			return "rendered a statement that must panic"
		}
		return "rendering panicked"
	case on["stable"] && first[h] != nil && !sameJSON(first[h], obs):
		return "rendering differs from the first rendering of the same builder"
	case on["linear"] && !sameJSON(op["lin"], obs):
		return "rendering differs from the same builder built alone"
	case on["twin"] && !(op["q"] == op["tq"] && op["n"] == op["tn"] && op["ok"] == op["tok"]):
		return "query text depends on the contents of a bound value"
	case on["same"] && !boolean(op, "same"):
		return "the same program rendered differently when run again"
	case on["agree"] && !(op["ok"] == op["nok"] && boolean(op, "sok") == (ok && haveLiterals(op))):
		return "only some of the renderings panic"
	}
	if first[h] == nil {
		first[h] = obs
	}
	if !both {
		return ""
	}
	args := pairs(op["xargs"])
	named := list(op, "nargs")
	keys := true
	for i := range named {
		keys = keys && str(named[i], "n") == fmt.Sprintf("arg_%d", i+1)
	}
	marks := func(key, mark string) bool {
		ph, _ := op[key].([]string)
		if len(ph) != len(args) {
			return false
		}
		for i := range ph {
			if ph[i] != fmt.Sprintf("%s%d", mark, i+1) {
				return false
			}
		}
		return true
	}
	switch {
	case on["count"] && (!marks("ph", "$") || len(list(op, "args")) != len(args)):
		return "placeholders of Query are not $1..$n in order"
	case on["count"] && (!marks("nph", ":arg_") || len(named) != len(args)):
		return "placeholders of NamedQuery are not :arg_1..:arg_n in order"
	case on["args"] && !reflect.DeepEqual(pairs(op["args"]), args):
		return "arguments of Query"
	case on["args"] && !(reflect.DeepEqual(pairs(op["nargs"]), args) && keys):
		return "arguments of NamedQuery"
	case on["agree"] && !(sameJSON(op["qp"], op["np"]) && reflect.DeepEqual(pairs(op["args"]), pairs(op["nargs"]))):
		return "Query and NamedQuery differ beyond their placeholders"
	case on["agree"] && boolean(op, "sok") && op["s"] != op["xs"] && op["q"] == op["xq"]:
		return "String is not Query with its arguments inlined"
	case on["q"] && op["q"] != op["xq"]:
		return "text of Query"
	case on["n"] && op["n"] != op["xn"]:
		return "text of NamedQuery"
	case on["s"] && op["xsok"] != nil && op["sok"] != op["xsok"]:
		return "String panics or not, unlike the values it writes"
	case on["s"] && boolean(op, "sok") && op["s"] != op["xs"]:
		return "text of String"
	}
	return ""
}

// markBound marks the values that a program binds (see TwinOp in Theorems.tla):
// the specification gives programs without marks.
func markBound(ops []T) {
	var kinds []string
	for _, op := range ops {
		switch str(op, "op") {
		case "new":
			if boolean(op, "ok") {
				kinds = append(kinds, strings.TrimPrefix(str(op, "kind"), "new"))
			}
		case "call":
			kind := kinds[num(op, "h")-1]
			if boolean(op, "ok") {
				kinds = append(kinds, kind)
			}
			m := str(op, "m")
			switch m {
			case "Where", "And", "Or", "Having", "Values", "Set", "Using", "OnConflict", "With", "Join":
			default:
				continue
			}
			for _, a := range list(op, "args") {
				if str(a, "k") != "val" || m == "Values" || m == "Using" && kind == "update" {
					markTerm(a)
				}
			}
		}
	}
}

func markTerm(x interface{}) {
	switch v := x.(type) {
	case []interface{}:
		for i := range v {
			markTerm(v[i])
		}
	case []T:
		for i := range v {
			markTerm(v[i])
		}
	case T:
		switch str(v, "k") {
		case "val":
			v["w"] = 1
		case "pair":
			markTerm(v["val"])
		case "map", "cmp", "in", "btw", "slice", "doupdate", "rows", "call":
			markTerm(v["a"])
		case "log":
			markTerm(v["l"])
			markTerm(v["r"])
		case "ex", "value", "with", "ptime":
			markTerm(v["e"])
		case "enc":
			for _, e := range sub(v, "i") {
				markTerm(e)
			}
		}
		if e, ok := v["x"]; ok {
			markTerm(e)
		}
	}
}
