package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// prof says what a family of programs is made of.
type prof struct {
	kinds   map[string]int // statements started
	m       map[string]int // weights of the methods, "select.Where"
	calls   [2]int         // number of calls
	branch  float64        // a call on an older builder than the last one
	render  float64        // a rendering after a call
	rerend  float64        // a second rendering at the end
	is      float64        // predicates and Statement() on builders
	pieces  int            // parts of statements written to contexts, at most
	tricky  float64        // unusual names
	bad     float64        // unusable argument
	again   float64        // a single-value clause set again
	sub     float64        // a subquery as an operand
	depth   int            // depth of conditions
	big     float64        // a long list
	huge    float64        // a very long list
	share   float64        // a value that was used before
	listset float64        // SET given as a list of columns
	restart float64        // another statement in the same program
	nilp    float64        // nil as an operand
	enc     float64        // encoders, pointers, Valuers
	rawp    float64        // raw text as an operand
	values  []string       // types of the values
	lists   int            // usual longest list
	comment string         // "plain" or "any"
	newbare float64        // start from the bare builder
	opts    options
}

type meta struct {
	kind  string
	set   map[string]bool
	mode  string // of an UPDATE's SET
	cmt   bool
	empty bool
}

type gen struct {
	r     *rand.Rand
	p     *prof
	metas []meta // by handle - 1

	prev    string // the last name
	prevKey string // the last column of a SET
	prevOn  T      // the last receiver of a condition
	kind    int    // the kind of the last condition

	ids    int            // values kept in a variable
	shared map[string][]T // those of each sort
}

// kept is a value made for one use, or one that was used before.
func (g *gen) kept(sort string, fresh func() T) T {
	if l := g.shared[sort]; len(l) > 0 && g.p1(g.p.share) {
		return clone([]T{l[g.n(len(l))]})[0]
	}
	t := fresh()
	if _, ok := t["id"]; !ok && g.p.share > 0 && g.p1(0.5) {
		g.ids++
		t["id"] = g.ids
		if g.shared == nil {
			g.shared = map[string][]T{}
		}
		g.shared[sort] = append(g.shared[sort], clone([]T{t})[0])
	}
	return t
}

// ways says how the value of a term is made, where there are several ways.
func (g *gen) ways(x interface{}) {
	switch v := x.(type) {
	case T:
		switch str(v, "k") {
		case "col", "tab", "agg", "on", "join", "raw", "ident", "value", "cmp", "in", "btw", "log", "ex", "onlog", "ord", "lim", "off", "with", "donothing", "b":
			if _, ok := v["way"]; !ok {
				v["way"] = g.n(4)
			}
		}
		for _, k := range sortedKeys(v) {
			g.ways(v[k])
		}
	case []T:
		for i := range v {
			g.ways(v[i])
		}
	case [][]T:
		for i := range v {
			g.ways(v[i])
		}
	case []interface{}:
		for i := range v {
			g.ways(v[i])
		}
	}
}

func (g *gen) n(k int) int {
	if k <= 0 {
		return 0
	}
	return g.r.Intn(k)
}
func (g *gen) p1(x float64) bool        { return g.r.Float64() < x }
func (g *gen) pick(xs ...string) string { return xs[g.n(len(xs))] }
func (g *gen) one(fs ...func() T) T     { return fs[g.n(len(fs))]() }
func (g *gen) weighted(keys []string, w map[string]int) string {
	sum := 0
	for _, k := range keys {
		sum += w[k]
	}
	x := g.n(sum)
	for _, k := range keys {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return keys[0]
}

// size of a list of at least min elements.
func (g *gen) size(min int) int {
	if g.p1(g.p.huge) {
		if g.p1(0.06) {
			return []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}[g.n(9)]
		}
		return []int{98, 99, 100, 101, 127, 128, 254, 255, 256, 257, 300}[g.n(11)]
	}
	if g.p1(g.p.big) {
		return []int{9, 10, 11, 12, 13, 16, 17, 20, 33}[g.n(9)]
	}
	max := g.p.lists
	if max < min {
		max = min
	}
	return min + g.n(max-min+1)
}

// ---------------------------------------------------------------- names

var plainNames = []string{"id", "name", "email", "age", "created_at", "users", "posts", "u", "p", "author_id", "status", "deleted_at", "x1",
	"total", "Name", "ID", "Zed", "_private", "public", "Public"}
var trickyNames = []string{`a"b`, `"`, `""`, `a"; DROP TABLE x; --`, "a b", "select", "FROM", "é", "名字", "Ωmega", "a'b", `a\b`, "x--y", "a;b",
	"(x)", "a(b", "t AS u", "t as u", "t u", "COUNT(x)", "x ASC", "x desc", "ONLY t", "t.*", "schema.", "a.b.c", "null", "NULL", "DEFAULT", "a b c", "$1", ":arg_1", "*", "A", "aB", "a%", "1abc", "a-b", "@v", "#t", "~", "a=b", "a)", "[0]", "{}", "very_long_name_that_goes_beyond_sixty_three_bytes_in_length_to_be_sure_of_it",
	`"quoted"`, "?", "a/b", "a|b", "a&b", "<a>", "a!", "`tick`", "Information_Schema", "pg_catalog", "PUBLIC", "EXCLUDED", "excluded", "ñandú", "שם", "a\uf7ffb", "\uf7ffx"}

func (g *gen) part() string {
	if g.p1(g.p.tricky) {
		if g.p1(0.25) {
			chars := []rune(` !"#$%&'()*+-/0123456789:;<=>?@ABCXYZ[\]^_` + "`" + `abcxyz{|}~éñÀΩ中`)
			n := 1 + g.n(6)
			s := make([]rune, n)
			for i := range s {
				s[i] = chars[g.n(len(chars))]
			}
			return strings.TrimSpace("x"+string(s)) + "y"
		}
		if g.p1(0.2) { // nearly another name
			s := plainNames[g.n(len(plainNames))]
			switch g.n(8) {
			case 0:
				return s + " "
			case 1:
				return " " + s
			case 6:
				return s + g.pick("\t", "\r", "\f", "\u00a0", "\u2003", "\u200b", "\ufffd")
			case 7:
				return g.pick("\t", "\r", "\f", "\u00a0", "\u2003", "\u200b", "\ufeff") + s
			case 2:
				return strings.ToUpper(s)
			case 3:
				return s + `"`
			case 4:
				return s + "\n"
			}
			return strings.Title(s)
		}
		return trickyNames[g.n(len(trickyNames))]
	}
	s := plainNames[g.n(len(plainNames))]
	if g.p1(0.02) {
		s = caseMix(g, s)
	}
	return s
}

// name of a column or a table, never blank, never with a comma.
func (g *gen) name() string {
	s := g.newName()
	if g.p1(0.04) {
		s = g.near(g.prev, s)
	}
	g.prev = s
	return s
}

// near is a name that looks like another one.
func (g *gen) near(s, other string) string {
	r := []rune(s)
	if len(r) == 0 || strings.ContainsAny(s, " .,\t\n") {
		return other
	}
	switch g.n(10) {
	case 0:
		return s + "s"
	case 1:
		return s + "_id"
	case 2:
		return s + g.pick("0", "1", "2", "_")
	case 3:
		return s + s
	case 4:
		return strings.ToUpper(s)
	case 5:
		return strings.ToLower(s)
	case 6:
		return g.pick("_", "x", "a") + s
	case 7:
		if len(r) > 1 {
			return string(r[1:])
		}
	case 8:
		if len(r) > 1 {
			return string(r[:len(r)-1])
		}
	}
	return s
}

func (g *gen) newName() string {
	if g.p1(0.3) {
		s := g.part() + "." + g.part()
		if g.p1(0.15) {
			s += "." + g.part()
		}
		return s
	}
	if g.p1(g.p.tricky * 0.1) {
		return g.pick(".", "a.", ".b", "a..b", `a"."b`, "users.*")
	}
	return g.part()
}

func vstr(s string) T { return T{"k": "val", "t": "string", "v": s} }

// ---------------------------------------------------------------- values

var strs = []string{"", "a", "joe", "O'Brien", `back\slash`, `"double"`, "$1", ":arg_1", "line\nfeed", "cr\rlf\n", "tab\there", "'; DROP TABLE users; --", "null", "NULL",
	"0", "%x%", "_", "é名字🙂", " lead", "trail ", "\\", "'", "\\'", "''", "a\x00b", "--", "/* c */", "$$", "\\n", "true", "\v\f", "\u2028", "1.5", "very " + "long",
	"DEFAULT", "now()", "CURRENT_TIMESTAMP", "2020-01-01", "2020-01-01T00:00:00Z", "{}", "{1,2}", "[1]", `\xdead`, "f", "NaN", "Infinity", "1e5", "-1", "*", "?", "@x",
	"550e8400-e29b-41d4-a716-446655440000", "SELECT 1", "(1)", "\ufeff", "\u00a0", "e\u0301", "\x7f", "\uf7ff", "a\uf780\uf7a8b", "\uf7c3"}
var allTypes = []string{"string", "string", "bool", "int", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
	"[]uint8", "time.Time"}
var bigTypes = []string{"[]int64", "[]string", "pgtype.FlatArray[int64]", "pgtype.FlatArray[string]", "pgtype.Range[int64]", "map[string]string",
	"map[string]interface {}"}
var valuerTypes = []string{"sql.NullString", "sql.NullInt64", "sql.NullBool", "main.Val", "*main.PVal", "main.ValTime", "main.ValBytes", "main.ValNil", "main.ValAll", "main.ValErr", "*main.ValText", "*main.ValText", "*sql.NullInt64", "main.ValMap"}

var intBits = map[string]uint{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}

func (g *gen) str() string {
	if g.p1(0.3) {
		chars := []rune("abcXYZ019 '\"\\\n\r\t$:;-%_é名\x00\x1b")
		n := g.n(12)
		s := make([]rune, n)
		for i := range s {
			s[i] = chars[g.n(len(chars))]
		}
		return string(s)
	}
	if g.p1(0.01) {
		return strings.Repeat(g.pick("ab", "'", "é", "\\", "x\n"), []int{31, 32, 64, 128, 256, 600, 1100, 2049, 4097}[g.n(9)])
	}
	return strs[g.n(len(strs))]
}

func (g *gen) integer(t string) string {
	bits := intBits[t]
	unsigned := strings.HasPrefix(t, "u")
	if g.p1(0.5) {
		if unsigned {
			return strconv.Itoa(g.n(100))
		}
		return strconv.Itoa(g.n(120) - 20)
	}
	if unsigned {
		max := uint64(math.MaxUint64) >> (64 - bits)
		switch g.n(5) {
		case 0:
			return strconv.FormatUint(max, 10)
		case 1:
			return strconv.FormatUint(max-1, 10)
		case 2:
			return strconv.FormatUint(max/2, 10)
		case 3:
			return strconv.FormatUint(max/2+1, 10)
		}
		return strconv.FormatUint(g.r.Uint64()>>(64-bits), 10)
	}
	max := int64(math.MaxInt64) >> (64 - bits)
	switch g.n(6) {
	case 0:
		return strconv.FormatInt(max, 10)
	case 1:
		return strconv.FormatInt(-max-1, 10)
	case 2:
		return strconv.FormatInt(max-1, 10)
	case 3:
		return "0"
	}
	return strconv.FormatInt(int64(g.r.Uint64())>>(64-bits), 10)
}

func (g *gen) float(t string) string {
	var f float64
	switch g.n(10) {
	case 0:
		f = 0
	case 1:
		f = float64(g.n(1000)) / 8
	case 2:
		f = -float64(g.n(1000)) / 16
	case 3:
		f = 1e21 * float64(1+g.n(9))
	case 4:
		f = 1e-7 * float64(1+g.n(9))
	case 5:
		f = 0.1 * float64(g.n(100))
	case 6:
		f = math.Copysign(0, -1)
	case 7:
		f = g.r.NormFloat64() * 1e6
	case 8:
		f = math.MaxFloat32 / float64(1+g.n(5))
	default:
		f = g.r.ExpFloat64() / 1e12
	}
	if t == "float32" {
		f = float64(float32(f))
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func (g *gen) time() time.Time {
	var base time.Time
	switch g.n(8 + g.n(50)/49) {
	case 8:
		base = time.Date(10001+g.n(9990), time.Month(1+g.n(12)), 1+g.n(28), g.n(24), g.n(60), g.n(60), 0, time.UTC)
	case 0:
		return time.Time{}
	case 1:
		base = time.Date(1+g.n(9990), time.Month(1+g.n(12)), 1+g.n(28), g.n(24), g.n(60), g.n(60), 0, time.UTC)
	case 2:
		base = time.Date(2000, 2, 29, 23, 59, 59, 0, time.UTC)
	case 3:
		base = time.Date(1900+g.n(200), time.Month(1+g.n(12)), 31, 23, 30, 0, 0, time.UTC)
	case 4:
		base = time.Unix(0, 0).UTC()
	case 5:
		base = time.Date(1600+100*g.n(6), 12, 31, g.n(24), 59, 59, 0, time.UTC)
	default:
		base = time.Unix(int64(g.n(2000000000)), 0).UTC()
	}
	switch g.n(8) {
	case 0:
		base = base.Add(999999999)
	case 1:
		base = base.Add(1000 * time.Duration(g.n(1000000)))
	case 2:
		base = base.Add(time.Duration(g.n(1000000000)))
	case 3:
		base = base.Add(100 * time.Millisecond * time.Duration(g.n(10)))
	case 4:
		base = base.Add(999)
	}
	if base.Year() < 2 || base.Year() > 9990 && base.Year() < 10002 || base.Year() > 19990 {
		return base
	}
	switch g.n(4) {
	case 0:
		mins := []int{0, 60, -60, 330, -210, 765, 14 * 60, -12 * 60, 1, -1, 23*60 + 59, -(23*60 + 59)}[g.n(12)]
		base = base.In(time.FixedZone("Z", mins*60))
	}
	return base
}

func (g *gen) content(t string) string {
	switch t {
	case "string":
		return g.str()
	case "bool":
		return strconv.FormatBool(g.p1(0.5))
	case "[]uint8":
		if g.p1(0.08) {
			return "nil"
		}
		n := []int{0, 1, 2, 3, 8, 17}[g.n(6)]
		if g.p1(0.02) {
			n = []int{31, 32, 33, 63, 64, 65, 129, 255, 256, 257}[g.n(10)]
		}
		b := ""
		for i := 0; i < n; i++ {
			b += fmt.Sprintf("%02x", []int{0, 1, 0x0a, 0x27, 0x5c, 0xff, g.n(256)}[g.n(7)])
		}
		return b
	case "time.Time", "main.ValTime":
		return g.time().Format(timeLayout)
	case "float32", "float64":
		return g.float(t)
	case "[]int64", "pgtype.FlatArray[int64]":
		if g.p1(0.15) {
			return "null"
		}
		x := []int64{}
		for i := g.n(4); i > 0; i-- {
			x = append(x, int64(g.n(1000)-500))
		}
		return jsonText(x)
	case "[]string", "pgtype.FlatArray[string]":
		if g.p1(0.15) {
			return "null"
		}
		if g.p1(0.15) {
			return jsonText([]string{""})
		}
		x := []string{}
		for i := g.n(4); i > 0; i-- {
			x = append(x, g.pick("a", "b c", "", "x'y"))
		}
		return jsonText(x)
	case "pgtype.Range[int64]":
		return fmt.Sprintf("%d,%d", g.n(100), 100+g.n(100))
	case "map[string]string", "map[string]interface {}":
		if g.p1(0.15) {
			return "null"
		}
		x := map[string]string{}
		for i := g.n(3); i > 0; i-- {
			x[g.pick("a", "b", "c")] = g.pick("x", "y", "")
		}
		return jsonText(x)
	case "sql.NullString":
		if g.p1(0.3) {
			return "false|"
		}
		return "true|" + g.str()
	case "sql.NullInt64":
		return fmt.Sprintf("%t|%d", g.p1(0.7), g.n(1000)-100)
	case "sql.NullBool":
		return fmt.Sprintf("%t|%t", g.p1(0.7), g.p1(0.5))
	case "main.Val", "main.ValBytes", "main.ValErr":
		return g.str()
	case "*sql.NullInt64":
		if g.p1(0.4) {
			return "nil"
		}
		return g.content("sql.NullInt64")
	case "main.ValMap":
		return g.pick("nil", "0", "1")
	case "*main.PVal", "*main.ValText":
		if g.p1(0.3) {
			return "nil"
		}
		return "=" + g.str()
	case "main.ValNil":
		return ""
	case "main.ValAll":
		return g.integer("int64")
	}
	return g.integer(t)
}

// value is a bound value of type t; w marks it as such for the twin run.
func (g *gen) valueOf(t string) T {
	d := describe(mkval(t, g.content(t)))
	d["w"] = 1
	return d
}

func (g *gen) value() T {
	return g.valueOf(g.p.values[g.n(len(g.p.values))])
}

// twinValue has the same type and another content (if there is another one).
func (g *gen) twinValue(v T) T {
	if str(v, "k") != "val" {
		return v
	}
	if str(v, "t") == "bool" { // always differ
		d := describe(str(v, "v") != "true")
		d["w"] = 1
		return d
	}
	for i := 0; i < 4; i++ {
		if d := g.valueOf(str(v, "t")); str(d, "v") != str(v, "v") {
			return d
		}
	}
	return g.valueOf(str(v, "t"))
}

func (g *gen) encoder() T {
	if g.p1(0.2) {
		kind := g.pick("time.Duration", "big.Int", "json.Number", "net.IP")
		switch kind {
		case "time.Duration":
			s := (time.Duration(g.n(100000)) * time.Millisecond).String()
			return T{"k": "enc", "g": kind, "i": T{"string": vstr(s)}}
		case "big.Int":
			s := strconv.Itoa(g.n(100000))
			return T{"k": "enc", "g": kind, "i": T{"int64": T{"k": "val", "t": "int64", "v": s}, "string": vstr(s)}}
		case "json.Number":
			return T{"k": "enc", "g": kind, "i": T{"string": vstr(strconv.Itoa(g.n(1000)))}}
		default:
			return T{"k": "enc", "g": kind, "i": T{"string": vstr(fmt.Sprintf("10.0.%d.%d", g.n(256), g.n(256)))}}
		}
	}
	mask := encMasks[g.n(len(encMasks))]
	in := T{}
	if mask&16 != 0 {
		in["stmt"] = g.one(
			func() T { return T{"k": "raw", "v": g.rawText()} },
			func() T { return T{"k": "ident", "v": g.name()} },
			func() T { return T{"k": "value", "e": g.value()} },
			func() T {
				if h := g.selectHandle(); h > 0 {
					return T{"k": "bs", "h": h}
				}
				return T{"k": "raw", "v": "1"}
			},
			func() T {
				if g.p1(g.p.bad * 3) {
					return T{"k": "col", "n": "a", "as": ""}
				}
				return T{"k": "raw", "v": "NOW()"}
			})
	}
	if mask&8 != 0 {
		in["int64"] = g.valueOf("int64")
	}
	if mask&4 != 0 {
		in["bool"] = g.valueOf("bool")
	}
	if mask&2 != 0 {
		in["time"] = g.valueOf("time.Time")
	}
	if mask&1 != 0 {
		in["string"] = g.valueOf("string")
	}
	return T{"k": "enc", "i": in, "ptr": g.p1(0.3)}
}

func (g *gen) rawText() string { return g.pad(g.bareText()) }

// pad sometimes adds blanks around a text.
func (g *gen) pad(s string) string {
	if g.p1(0.04) {
		return g.pick(s+" ", " "+s, s+"\n", "\n"+s, s+"  ", "\t"+s+"\t", s+"\r\n", "  "+s)
	}
	return s
}

func (g *gen) bareText() string {
	return g.pick("NOW()", "1", "lower(name)", "'it''s'", "x::text", "CURRENT_TIMESTAMP", "count + 1", "a.b || '-'", "ARRAY[1,2]", `"q" + 1`, "NULL", "excluded.name",
		"(a, b)", "CASE WHEN a THEN 1 ELSE 2 END", "TRUE", "1 = 1", "false", "*", "DEFAULT", "x AT TIME ZONE 'UTC'", "'a\uf7ff' || x")
}

// selectHandle is the handle of a SELECT that may be embedded, or 0.
func (g *gen) selectHandle() int {
	var hs []int
	for i, m := range g.metas {
		if m.kind == "select" && !m.cmt && !m.empty {
			hs = append(hs, i+1)
		}
	}
	if len(hs) == 0 {
		return 0
	}
	return hs[g.n(len(hs))]
}

func (g *gen) subquery() (T, bool) {
	h := g.selectHandle()
	if h == 0 {
		return nil, false
	}
	return T{"k": g.pick("b", "b", "bs"), "h": h}, true
}

func (g *gen) callExpr(depth int) T {
	return g.kept("call", func() T { return g.newCall(depth) })
}

func (g *gen) newCall(depth int) T {
	n := 1 + g.n(3)
	args := make([]T, n)
	for i := range args {
		args[i] = g.exprArg(depth)
	}
	return T{"k": "call", "f": g.pick("COALESCE", "lower", "array_agg", "F", "pg_catalog.max", `"Odd Fn"`, "f[1]", "f()", "ARRAY[1]", "é"), "a": args}
}

// exprArg is an argument typed stmt.Expression.
func (g *gen) exprArg(depth int) T {
	if g.p1(g.p.sub) {
		if h := g.selectHandle(); h > 0 {
			return T{"k": "bs", "h": h}
		}
	}
	if depth > 0 && g.p1(0.15) {
		return g.callExpr(depth - 1)
	}
	switch g.n(4) {
	case 0:
		return T{"k": "raw", "v": g.rawText()}
	case 1:
		return T{"k": "value", "e": g.value()}
	case 2:
		if g.p1(0.2) {
			return T{"k": "value", "e": T{"k": "nil"}}
		}
	}
	return T{"k": "ident", "v": g.name()}
}

// operand is anything given as interface{} where a value is expected.
func (g *gen) operand() T {
	if g.p1(g.p.bad) {
		return g.badOperand()
	}
	if g.p1(g.p.nilp) {
		return T{"k": "nil"}
	}
	if g.p1(g.p.sub) {
		if s, ok := g.subquery(); ok {
			return s
		}
	}
	if g.p1(g.p.enc) {
		switch g.n(4) {
		case 0:
			if g.p1(0.3) {
				return T{"k": "ptime", "e": T{"k": "nil"}}
			}
			return T{"k": "ptime", "e": g.valueOf("time.Time")}
		case 1:
			return g.valueOf(valuerTypes[g.n(len(valuerTypes))])
		default:
			return g.encoder()
		}
	}
	if g.p1(g.p.rawp) {
		switch g.n(6) {
		case 0:
			return T{"k": "ident", "v": g.name()}
		case 1:
			return g.callExpr(1)
		case 2:
			return T{"k": "value", "e": g.value()}
		case 3:
			if g.p1(0.3) {
				return T{"k": g.pick("ex"), "m": g.pick("Exists", "NotExists"), "e": T{"k": "raw", "v": "SELECT 1"}}
			}
			return T{"k": "identraw", "v": g.rawText()}
		default:
			return T{"k": "raw", "v": g.rawText()}
		}
	}
	return g.value()
}

func (g *gen) badOperand() T {
	switch g.n(8) {
	case 0:
		return T{"k": "col", "n": g.name(), "as": ""}
	case 1:
		return T{"k": "tab", "n": g.name(), "as": "", "only": false}
	case 2:
		for i, m := range g.metas {
			if m.kind != "select" {
				return T{"k": "b", "h": i + 1}
			}
		}
	case 3:
		return T{"k": "slice", "t": g.pick("[]int", "[]bool", "[]float64", "[]interface {}", "[]uint16"), "a": []T{}, "v": "", "p": "", "way": g.n(2)}
	case 4, 5:
		void := g.one(
			func() T { return T{"k": "raw", "v": ""} },
			func() T { return T{"k": "ident", "v": ""} })
		switch g.n(5) {
		case 0:
			return T{"k": "ex", "m": g.pick("Exists", "NotExists"), "e": void}
		case 1:
			return T{"k": "call", "f": "f", "a": []T{{"k": "raw", "v": "1"}, void}}
		case 2:
			return T{"k": "enc", "i": T{"stmt": void}}
		}
		return void
	}
	return T{"k": "bad", "t": badTypes[g.n(len(badTypes))]}
}

// ---------------------------------------------------------------- conditions

var cmpIdent = []string{"Equal", "NotEqual", "Contains", "IsContainedBy", "Overlap", "Is", "IsNot", "GreaterThan", "GreaterThanOrEqual", "LessThan",
	"LessThanOrEqual", "Like", "NotLike", "ILike", "NotILike", "IsDistinctFrom", "IsNotDistinctFrom"}
var cmpValue = []string{"Overlap", "Equal", "NotEqual", "Contains", "IsContainedBy"}
var cmpCall = []string{"Equal", "GreaterThan", "LessThan", "Like", "ILike", "Overlap"}

var sliceTypes = []string{"[]string", "[]int", "[]uint", "[]int8", "[]int16", "[]uint16", "[]int32", "[]uint32", "[]int64", "[]uint64", "[]bool", "[]float32",
	"[]float64", "[][]uint8", "[]stmt.Expression", "[]interface {}"}

// sliceTerm is a slice given by its owner; its elements are bound.
func (g *gen) sliceTerm(t string, n int) T {
	es := make([]T, n)
	elem := strings.TrimPrefix(t, "[]")
	for i := range es {
		switch elem {
		case "stmt.Expression":
			es[i] = g.exprArg(0)
		case "interface {}":
			es[i] = g.operandIn()
		default:
			es[i] = g.valueOf(elem)
		}
	}
	r := T{"k": "slice", "t": t, "a": es, "v": "", "p": ""}
	return r
}

// operandIn is an element of a list.
// bounds are two operands, often of one type.
func (g *gen) bounds() []T {
	if !g.p1(0.35) || g.p1(g.p.bad) {
		return []T{g.operand(), g.operand()}
	}
	t := g.p.values[g.n(len(g.p.values))]
	if g.p1(0.3) {
		t = "int"
	}
	v := g.valueOf(t)
	if g.p1(0.15) {
		return []T{v, clone([]T{v})[0]}
	}
	return []T{v, g.valueOf(t)}
}

func (g *gen) operandIn() T {
	if g.p1(0.05) {
		return T{"k": "nil"}
	}
	return g.operand()
}

func (g *gen) listArgs() []T {
	switch g.n(6) {
	case 0, 1:
		return []T{g.sliceTerm(sliceTypes[g.n(len(sliceTypes))], g.size(0))}
	case 2:
		if g.p1(g.p.sub * 2) {
			if s, ok := g.subquery(); ok {
				return []T{s}
			}
		}
		return []T{g.lone()}
	case 3:
		if g.p1(0.3) {
			return []T{}
		}
	}
	n := g.size(1)
	es := make([]T, n)
	for i := range es {
		es[i] = g.operandIn()
	}
	if n == 1 && (str(es[0], "k") == "nil" || isSliceTerm(es[0])) {
		es[0] = g.lone()
	}
	return es
}

// lone is an operand which is not a slice: one slice is expanded.
func (g *gen) lone() T {
	for {
		if o := g.operand(); !isSliceTerm(o) {
			return o
		}
	}
}

func (g *gen) receiver() T {
	if g.p1(g.p.rawp * 0.3) {
		return T{"k": "identraw", "v": g.rawText()}
	}
	if g.prevOn != nil && g.p1(0.1) {
		return clone([]T{g.prevOn})[0]
	}
	g.prevOn = T{"k": "ident", "v": g.name()}
	return clone([]T{g.prevOn})[0]
}

func (g *gen) leaf() T { return g.kept("cond", g.newLeaf) }

func (g *gen) newLeaf() T {
	if g.prevOn != nil && g.p1(0.05) { // more about the column of the last condition
		x := clone([]T{g.prevOn})[0]
		switch g.n(4) {
		case 0:
			return T{"k": "isnull", "x": x, "v": g.p1(0.3)}
		case 1:
			return T{"k": "in", "m": g.pick("In", "NotIn"), "x": x, "a": g.listArgs()}
		}
		return T{"k": "cmp", "m": g.pick("Equal", "NotEqual", "LessThan", "GreaterThan", "Is", "IsNot"), "x": x, "a": []T{g.operand()}}
	}
	if !g.p1(0.12) && (g.kind != 7 || !g.p1(0.3)) {
		g.kind = g.n(15)
	}
	switch g.kind {
	case 14:
		if h := g.selectHandle(); h > 0 && g.p1(g.p.sub*2) {
			s := T{"k": "bs", "h": h}
			switch g.n(4) {
			case 0:
				return T{"k": "cmp", "way": 1, "m": cmpIdent[g.n(len(cmpIdent))], "x": s, "a": []T{g.operand()}}
			case 1:
				return T{"k": "in", "way": 1, "m": g.pick("In", "NotIn"), "x": s, "a": g.listArgs()}
			default:
				return s
			}
		}
	case 0:
		return T{"k": "isnull", "x": g.receiver(), "v": g.p1(0.5)}
	case 1, 2:
		return T{"k": "in", "m": g.pick("In", "NotIn"), "x": g.receiver(), "a": g.listArgs()}
	case 3:
		return T{"k": "btw", "m": g.pick("Between", "NotBetween"), "x": g.receiver(), "a": g.bounds()}
	case 4:
		if g.p1(g.p.rawp * 2) {
			return T{"k": "cmp", "m": cmpCall[g.n(len(cmpCall))], "x": g.callExpr(1), "a": []T{g.operand()}}
		}
	case 5:
		if g.p1(g.p.rawp * 2) {
			return T{"k": "cmp", "m": cmpValue[g.n(len(cmpValue))], "x": T{"k": "value", "e": g.value()}, "a": []T{g.operand()}}
		}
	case 6:
		if g.p1(g.p.rawp * 2) {
			return T{"k": "in", "m": "In", "x": g.callExpr(1), "a": g.listArgs()}
		}
	case 7:
		s, ok := g.subquery()
		if g.p1(0.3) {
			s, ok = T{"k": "raw", "v": "SELECT 1"}, true
		}
		if ok && g.p1(0.2+g.p.sub*3) {
			return T{"k": "ex", "m": g.pick("Exists", "NotExists"), "e": s}
		}
	case 8:
		if g.p1(g.p.rawp) {
			return T{"k": "raw", "v": g.pick("a > b", "true", "x IS NOT NULL OR y", "1 = 1", "TRUE", "FALSE", "NULL")}
		}
	case 9:
		if g.p1(0.15) {
			return T{"k": "cmp", "m": cmpIdent[g.n(len(cmpIdent))], "x": g.receiver(),
				"a": []T{{"k": "slice", "t": "[]int64", "bound": true, "a": []T{}, "v": "[]", "p": "[]"}}}
		}
		if g.p1(0.2) {
			t := g.pick(bigTypes...)
			return T{"k": "cmp", "m": g.pick("Contains", "IsContainedBy", "Overlap", "Equal"), "x": g.receiver(), "a": []T{g.valueOf(t)}}
		}
	}
	m := cmpIdent[g.n(len(cmpIdent))]
	if g.p1(0.15) {
		m = "Equal"
	}
	return T{"k": "cmp", "m": m, "x": g.receiver(), "a": []T{g.operand()}}
}

func (g *gen) cond(depth int) T {
	if depth <= 0 || g.p1(0.35) {
		return g.leaf()
	}
	return g.kept("cond", func() T { return g.newCond(depth) })
}

func (g *gen) newCond(depth int) T {
	l, r := g.cond(depth-1), g.cond(depth-1)
	op := g.pick("AND", "OR")
	lk := str(l, "k")
	if (lk == "cmp" || lk == "isnull" || lk == "in" || lk == "log") && g.p1(0.6) {
		return T{"k": "log", "f": "m", "op": op, "l": l, "r": r}
	}
	return T{"k": "log", "f": "fn", "op": op, "l": l, "r": r}
}

// undefined is a condition that must be refused.
func (g *gen) undefined() T {
	nl := T{"k": "nil"}
	und := func() T {
		return g.one(
			func() T { return T{"k": "ident", "v": ""} },
			func() T { return T{"k": "raw", "v": ""} },
			func() T { return T{"k": "identraw", "v": g.rawText()} })
	}
	switch g.n(9) {
	case 0, 1:
		return nl
	case 2:
		return T{"k": "raw", "v": ""}
	case 3:
		return T{"k": "ident", "v": ""}
	case 4:
		return T{"k": "cmp", "m": g.pick(cmpIdent...), "x": T{"k": "ident", "v": ""}, "a": []T{g.operand()}}
	case 5:
		return T{"k": "cmp", "m": g.pick(cmpIdent...), "x": g.receiver(), "a": []T{{"k": "raw", "v": ""}}}
	case 6:
		l, r := g.leaf(), und()
		if g.p1(0.5) {
			l, r = r, l
		}
		return T{"k": "log", "f": "fn", "op": g.pick("AND", "OR"), "l": l, "r": r}
	case 7:
		if g.p1(0.5) {
			return T{"k": "in", "m": g.pick("In", "NotIn"), "x": T{"k": "ident", "v": ""}, "a": g.listArgs()}
		}
		return T{"k": "log", "f": "fn", "op": g.pick("AND", "OR"), "l": g.leaf(), "r": nl}
	default:
		return T{"k": "btw", "m": "Between", "x": g.receiver(), "a": []T{g.operand(), {"k": "raw", "v": ""}}}
	}
}

func (g *gen) condition() T {
	if g.p1(g.p.bad) {
		return g.undefined()
	}
	if g.p1(0.008) {
		return g.chain(g.leaf)
	}
	return g.cond(g.n(g.p.depth + 1))
}

// chain is a long condition, which grows on one side or on both.
func (g *gen) chain(leaf func() T) T {
	side := g.n(3)
	c := leaf()
	for i := 6 + g.n(40); i > 0; i-- {
		op, l, r := g.pick("AND", "OR"), c, leaf()
		if side == 1 || side == 2 && g.p1(0.5) {
			l, r = r, l
		}
		f := "fn"
		if k := str(l, "k"); (k == "cmp" || k == "isnull" || k == "in" || k == "log") && g.p1(0.5) {
			f = "m"
		}
		c = T{"k": "log", "f": f, "op": op, "l": l, "r": r}
	}
	return c
}

func (g *gen) onCond(depth int) T {
	return g.kept("on", func() T { return g.newOn(depth) })
}

func (g *gen) newOn(depth int) T {
	if depth > 1 && g.p1(0.01) {
		c := g.newOn(0)
		for i := 6 + g.n(25); i > 0; i-- {
			l, r := c, g.newOn(0)
			if g.p1(0.3) {
				l, r = r, l
			}
			c = T{"k": "onlog", "f": g.pick("fn", "m"), "op": g.pick("AND", "OR"), "l": l, "r": r}
		}
		return c
	}
	if g.p1(g.p.bad * 0.15) {
		return T{"k": "on", "l": g.pick("", g.name()), "r": g.pick("", g.name())}
	}
	if depth <= 0 || g.p1(0.4) {
		return T{"k": "on", "l": g.name(), "r": g.name()}
	}
	return T{"k": "onlog", "f": g.pick("fn", "m"), "op": g.pick("AND", "OR"), "l": g.onCond(depth - 1), "r": g.onCond(depth - 1)}
}

// ---------------------------------------------------------------- arguments

// foreign is an argument that most positions cannot take.
func (g *gen) foreign() T {
	switch g.n(17) {
	case 0, 1:
		return T{"k": "nil"}
	case 2, 3:
		return vstr("")
	case 4:
		return vstr(g.pick("  ", "\t", " \n"))
	case 5:
		return T{"k": "col", "n": "", "as": g.pick("", "a")}
	case 6:
		return T{"k": "tab", "n": "", "as": "", "only": false}
	case 7:
		return T{"k": "raw", "v": ""}
	case 8:
		return T{"k": "agg", "f": g.pick("COUNT", "MAX", "MIN", "SUM"), "v": "", "distinct": false, "as": ""}
	case 9:
		return T{"k": "ident", "v": g.name()}
	case 10:
		return T{"k": "val", "t": "int", "v": strconv.Itoa(g.n(10)), "p": ""}
	case 11:
		return T{"k": "jt", "v": "LEFT JOIN"}
	case 12:
		return T{"k": "lim", "v": "3"}
	case 13:
		return T{"k": "pair", "key": vstr("a"), "val": g.value()}
	case 14:
		return T{"k": "donothing"}
	case 15:
		return g.tab()
	}
	return T{"k": "bad", "t": badTypes[g.n(len(badTypes))]}
}

// spoil replaces or adds one argument.
func (g *gen) spoil(args []T) []T {
	if !g.p1(g.p.bad) {
		return args
	}
	f := g.foreign()
	if len(args) == 0 || g.p1(0.4) {
		i := g.n(len(args) + 1)
		r := append([]T{}, args[:i]...)
		r = append(r, f)
		return append(r, args[i:]...)
	}
	r := append([]T{}, args...)
	r[g.n(len(r))] = f
	return r
}

func (g *gen) alias() string {
	if g.p1(0.35) {
		return g.part()
	}
	return ""
}

// last is the last part of a name.
func last(s string) string { return s[strings.LastIndex(s, ".")+1:] }

func (g *gen) colTerm(as bool) T {
	c := T{"k": "col", "n": g.name(), "as": ""}
	if as {
		c["as"] = g.alias()
		if g.p1(0.05) {
			c["as"] = last(str(c, "n"))
		}
	}
	return c
}

// columnList is one string naming several columns.
func (g *gen) columnList(n int) string {
	parts := make([]string, n)
	for i := range parts {
		parts[i] = strings.TrimSpace(strings.ReplaceAll(g.name(), ",", ""))
		if g.p1(0.4) {
			parts[i] = g.pick(" ", "  ", "\t") + parts[i]
		}
		if g.p1(0.2) {
			parts[i] += g.pick(" ", "\n")
		}
	}
	if n > 1 && g.p1(g.p.bad) {
		parts[g.n(n)] = g.pick("", " ")
	}
	return strings.Join(parts, ",")
}

// columns are arguments accepted where columns are expected.
func (g *gen) columns(as bool) []T {
	n := g.size(1)
	switch g.n(6) {
	case 0:
		es := make([]T, n)
		for i := range es {
			es[i] = vstr(g.columnList(1))
			if g.p1(g.p.bad * 0.3) {
				es[i] = vstr(g.pick("", " "))
			}
		}
		return []T{{"k": "slice", "t": "[]string", "a": es, "v": "", "p": ""}}
	case 1:
		es := make([]T, n)
		for i := range es {
			es[i] = g.colTerm(as)
			if g.p1(g.p.bad * 0.3) {
				es[i] = T{"k": "col", "n": "", "as": ""}
			}
		}
		return []T{{"k": "cols", "a": es}}
	case 2:
		return []T{vstr(g.columnList(n))}
	}
	es := make([]T, n)
	for i := range es {
		switch g.n(3) {
		case 0:
			es[i] = vstr(g.columnList(1 + g.n(2)))
		case 1:
			es[i] = g.colTerm(as)
		default:
			es[i] = vstr(g.columnList(1))
		}
	}
	return g.spoil(es)
}

func (g *gen) agg() T {
	f := g.pick("COUNT", "COUNT", "MAX", "MIN", "SUM")
	v, as := g.pick("*", "id", "u.id", "a + b", `"x"`, "total"), g.pick("", "", "c", "total")
	if g.p1(0.1) { // the alias is the argument
		as = v
	}
	return T{"k": "agg", "f": f, "v": v, "distinct": f == "COUNT" && g.p1(0.4), "as": as}
}

func (g *gen) selectItem() T {
	switch g.n(8) {
	case 0:
		return g.agg()
	case 1:
		return T{"k": "raw", "v": g.rawText()}
	case 2:
		if s, ok := g.subquery(); ok && g.p1(g.p.sub*2) {
			return T{"k": "ex", "m": g.pick("Exists", "NotExists"), "e": s}
		}
		return g.colTerm(true)
	case 3, 4:
		return g.colTerm(true)
	}
	return vstr(g.columnList(1 + g.n(2)))
}

func (g *gen) selectItems() []T {
	switch g.n(8) {
	case 0:
		return g.columns(true)
	case 1:
		n := g.size(1)
		es := make([]T, n)
		for i := range es {
			for {
				es[i] = g.selectItem()
				if str(es[i], "k") != "val" {
					break
				}
			}
		}
		return []T{{"k": "sexps", "a": es}}
	}
	n := g.size(1)
	es := make([]T, n)
	for i := range es {
		es[i] = g.selectItem()
	}
	return g.spoil(es)
}

func (g *gen) tab() T {
	n, as := g.name(), g.alias()
	if g.p1(0.05) { // the alias is the name
		as = last(n)
	}
	return T{"k": "tab", "n": n, "as": as, "only": g.p1(0.15)}
}

func (g *gen) table() T {
	if g.p1(0.5) {
		return vstr(g.name())
	}
	return g.tab()
}

func (g *gen) fromArg() T {
	switch g.n(8) {
	case 0:
		return T{"k": "raw", "v": g.pick("generate_series(1, 3) AS s", "users u", "(SELECT 1) t")}
	case 1:
		n := 1 + g.n(2)
		es := make([]T, n)
		for i := range es {
			es[i] = g.tab()
			if g.p1(g.p.bad * 0.3) {
				es[i] = T{"k": "tab", "n": "", "as": "", "only": false}
			}
		}
		return T{"k": "from", "a": es}
	}
	return g.table()
}

func (g *gen) fromArgs(max int) []T {
	n := 1 + g.n(max)
	es := make([]T, n)
	for i := range es {
		es[i] = g.fromArg()
	}
	if max == 1 {
		if g.p1(g.p.bad) {
			es[0] = g.foreign()
		}
		return es
	}
	return g.spoil(es)
}

func (g *gen) word() string {
	if g.p1(0.03) {
		return g.pick("w", "t.", "_9") + strings.Repeat(g.pick("a", "xY", "z_", "k.l", "0"), []int{15, 16, 31, 32, 62, 63, 64, 100, 128, 256}[g.n(10)])
	}
	return g.pick("id", "users.id", "a.b", "user_id", "x1", "posts.author_id", "_t", "a", "b9")
}

func (g *gen) blank() string { return g.pick(" ", " ", " ", "  ", "\n", "\t") }

func caseMix(g *gen, s string) string {
	switch g.n(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s[:1] + strings.ToLower(s[1:])
	}
	return s
}

// joinText is a well-formed textual join.
func (g *gen) joinText(withTable bool) string {
	b := g.blank
	s := ""
	if g.p1(0.3) {
		s += b()
	}
	switch g.n(6) {
	case 0, 1:
		s += caseMix(g, g.pick("INNER", "LEFT", "RIGHT")) + b() + caseMix(g, "JOIN") + b()
	case 2:
		s += caseMix(g, "JOIN") + b()
	}
	if withTable {
		s += g.pick("posts", "public.posts", "Users", "t1") + b() + caseMix(g, "ON") + b()
	} else if g.p1(0.5) {
		s += caseMix(g, "ON") + b()
	}
	depth := 0
	deep := 3
	if g.p1(0.03) {
		deep = 40
	}
	for g.p1(0.3) && depth < 3 || deep > 3 && depth < deep {
		depth++
		s += g.pick("(", "( ")
	}
	n := 1
	more := 0.45
	if g.p1(0.1) {
		more = 0.85
	}
	for g.p1(more) && n < 12 {
		n++
	}
	if g.p1(0.015) {
		n += 20 + g.n(60)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += b() + caseMix(g, g.pick("AND", "OR")) + b()
		}
		s += g.word() + g.pick(" = ", "=", " =", "= ") + g.word()
	}
	s += strings.Repeat(g.pick(")", " )"), depth)
	if g.p1(0.15) {
		s += g.pick(";", " ;", ";\n")
	}
	return s
}

// soup is a text made of tokens in any order.
func (g *gen) soup() string {
	toks := []string{"INNER", "LEFT", "RIGHT", "JOIN", "ON", "AND", "OR", "=", "=", "=", "(", ")", ";", ",", "*", ":", "CROSS", "SELECT", "FROM", "on", "Join", "and", "oR", "NOT",
		"'", "$1", "-", "é", "名", "\x00", "\x01", "\"x\"", "<", ">", "!", "x", "y.z", "1", "users", "a", "b", "c", "d", "OUTER", "WHERE", "--", "/", "AS"}
	n := g.n(14)
	s := ""
	for i := 0; i < n; i++ {
		s += toks[g.n(len(toks))]
		if g.p1(0.8) {
			s += g.blank()
		}
	}
	return s
}

// joinNoise is a well-formed join with one accident.
func (g *gen) joinNoise() string {
	s := g.joinText(g.p1(0.6))
	toks := strings.Fields(strings.NewReplacer("=", " = ", "(", " ( ", ")", " ) ", ";", " ; ").Replace(s))
	i := g.n(len(toks))
	extra := []string{"INNER", "JOIN", "ON", "AND", "OR", "=", "(", ")", ";", "x", "y.z", "LEFT", "RIGHT", "\x00", "'", "WHERE", "1 = 1", "users", "a = b", "CROSS JOIN", ",", "AND a = b", "OUTER", "--", `""`, "''", "/* x */", "-- x",
		"()", ";;", "; x", "::", "==", "&&", "||", "USING", "AS", "u", "a = b ;", "OR a = b", "a =", "= b", "NULL", "*", "ON a = b", "JOIN x ON", "NATURAL", "\ufffd"}
	switch g.n(4) {
	case 0: // drop
		toks = append(toks[:i:i], toks[i+1:]...)
	case 1: // insert
		toks = append(toks[:i:i], append([]string{extra[g.n(len(extra))]}, toks[i:]...)...)
	case 2: // replace
		toks[i] = extra[g.n(len(extra))]
	default: // append
		toks = append(toks, extra[g.n(len(extra))])
	}
	return strings.Join(toks, " ")
}

var joinTypes = []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN"}

func (g *gen) joinArgs() []T {
	text := func(tab bool) T {
		if g.p1(g.p.bad * 0.6) {
			return vstr(g.joinNoise())
		}
		return vstr(g.joinText(tab))
	}
	cond := func() T {
		if g.p1(0.35) {
			return text(g.p1(0.3))
		}
		if g.p1(g.p.bad * 0.5) {
			return T{"k": "on", "l": g.pick("", "a"), "r": ""}
		}
		return g.onCond(g.n(4))
	}
	var args []T
	switch g.n(6) {
	case 0:
		args = []T{text(!g.p1(0.1))}
	case 1:
		c := g.onCond(g.n(3))
		if g.p1(0.4) {
			c = g.cond(g.n(3))
		}
		if g.p1(g.p.bad * 0.5) {
			c = g.one(func() T { return T{"k": "nil"} }, func() T { return T{"k": "on", "l": "", "r": "a"} })
			if str(c, "k") == "nil" { // Join.IsEmpty cannot be asked about a nil condition
				c = T{"k": "on", "l": "", "r": ""}
			}
		}
		t := joinTypes[g.n(len(joinTypes))]
		if g.p1(g.p.bad * 0.4) {
			t = ""
		}
		tab := g.tab()
		if g.p1(g.p.bad * 0.4) {
			tab = T{"k": "tab", "n": "", "as": "", "only": false}
		}
		args = []T{{"k": "join", "t": t, "tab": tab, "cond": c}}
	case 2, 3:
		args = []T{g.table(), cond()}
	default:
		args = []T{g.table(), cond(), {"k": "jt", "v": joinTypes[g.n(len(joinTypes))]}}
	}
	if g.p1(g.p.bad * 0.5) {
		switch g.n(4) {
		case 0:
			return []T{}
		case 1:
			return append(args, args...)
		}
		args[g.n(len(args))] = g.foreign()
	}
	return args
}

func (g *gen) withs() []T {
	n := g.n(4)
	if n == 0 && g.p1(0.8) {
		n = 1
	}
	es := make([]T, n)
	for i := range es {
		e := T{"k": "raw", "v": g.pick("SELECT 1", "VALUES (1), (2)")}
		if s, ok := g.subquery(); ok && g.p1(0.85) {
			e = s
		}
		if g.p1(g.p.bad * 0.5) {
			for j, m := range g.metas {
				if m.kind != "select" {
					e = T{"k": "b", "h": j + 1}
					break
				}
			}
		}
		es[i] = g.kept("with", func() T {
			if g.p1(g.p.bad * 0.3) {
				return T{"k": "with", "n": "", "e": e}
			}
			return T{"k": "with", "n": g.pick("a", "members", "t1", "t2", "recent", "x (a, b)"), "e": e}
		})
	}
	return es
}

func (g *gen) orders() []T {
	n := g.size(0)
	es := make([]T, n)
	for i := range es {
		if g.p1(g.p.bad * 0.5) {
			es[i] = g.one(
				func() T { return T{"k": "ord", "f": "Order", "n": "", "t": g.pick("", "ASC", "DESC")} },
				func() T { return T{"k": "ord", "f": g.pick("Asc", "Desc"), "c": T{"k": "col", "n": "", "as": ""}} },
				func() T { return T{"k": "ord", "f": g.pick("Asc", "Desc"), "c": T{"k": "col", "n": "", "as": "al"}} })
			continue
		}
		switch g.n(5) {
		case 0:
			es[i] = T{"k": "ord", "f": "Order", "n": g.pick("id", "users.id", "lower(name)", `"Name"`, "1"), "t": ""}
		case 1, 2:
			es[i] = T{"k": "ord", "f": "Order", "n": g.pick("id", "users.id", "created_at", "2", "a, b"), "t": g.pick("ASC", "DESC", "DESC")}
		default:
			c := T{"k": "col", "n": g.pick("id", "name", "users.id", "created_at"), "as": g.pick("", "", "n", "al")}
			es[i] = T{"k": "ord", "f": g.pick("Asc", "Desc"), "c": c}
		}
	}
	return es
}

// count is the argument of Limit or Offset.
func (g *gen) count(off bool) T {
	if g.p1(g.p.bad) {
		switch g.n(10) {
		case 0:
			return T{"k": "val", "t": g.pick("int", "int8", "int64"), "v": strconv.Itoa(-1 - g.n(9)), "p": ""}
		case 1:
			return T{"k": "val", "t": "uint64", "v": g.pick("9223372036854775808", "18446744073709551615"), "p": ""}
		case 2:
			return T{"k": "val", "t": "uint", "v": g.pick("9223372036854775808", "18446744073709551615"), "p": ""}
		case 3:
			if g.p1(0.5) {
				return vstr(g.almostNumber())
			}
			return vstr(g.pick("", " 1", "1 ", "0x10", "1e3", "1_000", "1.0", "abc", "9223372036854775808", "-5", "+", "-", "--1", "99999999999999999999", "1; DROP TABLE x", "０", "10\n"))
		case 4:
			return T{"k": "val", "t": g.pick("float32", "float64"), "v": g.pick("1", "2.5", "0"), "p": ""}
		case 5:
			return T{"k": "val", "t": "bool", "v": "true", "p": ""}
		case 6:
			return T{"k": g.pick("lim", "off"), "v": g.pick("0", "-1", "-9223372036854775808", "5")}
		case 7:
			return T{"k": "nil"}
		case 8:
			return T{"k": "val", "t": g.pick("int", "uint8", "uint", "int64", "string"), "v": "0", "p": ""}
		}
		return g.foreign()
	}
	switch g.n(4) {
	case 0:
		n := strconv.FormatInt(1+g.r.Int63n(1<<uint(1+g.n(62))), 10)
		return vstr(g.pick(n, "+"+n, "00"+n, "9223372036854775807"))
	case 1:
		k := "lim"
		if off {
			k = "off"
		}
		return T{"k": k, "v": g.pick("1", "10", "100", "9223372036854775807", strconv.Itoa(1+g.n(100000)))}
	}
	t := g.pick("int", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64")
	if off && g.p1(0.1) {
		return T{"k": "val", "t": t, "v": "0", "p": ""}
	}
	bits := intBits[t]
	if !strings.HasPrefix(t, "u") || bits == 64 {
		bits--
	}
	max := uint64(1)<<bits - 1
	v := uint64(1)
	switch g.n(5) {
	case 0:
		v = max
	case 1:
		v = max - 1
	case 2:
		v = g.r.Uint64()%max + 1
	case 3:
		v = max/2 + 1
	default:
		v = uint64(1 + g.n(100))
	}
	return T{"k": "val", "t": t, "v": strconv.FormatUint(v, 10), "p": ""}
}

// almostNumber is a number with something more in it.
func (g *gen) almostNumber() string {
	n := g.pick("0", "5", "10", "127", "1000", "9223372036854775807", "9223372036854775806", "922337203685477580", strconv.Itoa(g.n(100000)))
	junk := g.pick(".", ".5", ".0", "e1", "_0", " ", "+", "-", "x", "\t", ",", "'", "%", "/1", "*", "L", "८", "０", "\x00", "0", "00", "8")
	i := len(n)
	switch g.n(4) {
	case 0:
		i = 0
	case 1:
		i = g.n(len(n) + 1)
	}
	return g.pick("", "", "", "-", "+") + n[:i] + junk + n[i:]
}

func (g *gen) comment() string {
	if g.p.comment == "any" && g.p1(0.2) {
		s := ""
		for i := 1 + g.n(5); i > 0; i-- {
			s += g.pick("-", "--", " ", ";", "/*", "*/", "#", "x", "note", "'", "\"", "\n", "\r", "\r\n", "\\", "$1", "\t", "\v", "\u2028", "\u0085", ",")
		}
		return s
	}
	if g.p.comment == "any" {
		switch g.n(8) {
		case 0:
			return ""
		case 1:
			return "first\nsecond"
		case 2:
			return "x\r\nDROP TABLE users"
		case 3:
			return "\n"
		case 4:
			return "it's a \"comment\" -- ; $1 :arg_1 */"
		case 5:
			return g.str()
		case 6:
			return "café 名字 " + strings.Repeat("long ", g.n(30))
		}
	}
	return g.pick("list of users", "/foo", "query 1", "x")
}

// ---------------------------------------------------------------- SET

var setNames = []string{"name", "Name", "NAME", "email", "a", "b", "c", "aa", "ab", "a_b", "B", "id", "z", "Z", "_x", "é", "a1", "a10", "a2", "created_at", "created_by", "created_by_id", "created_on", "updated_at", "updated_by", "address_line1", "address_line10",
	"address_line2", "中", "a.b", "users.name"}

func (g *gen) setKeyName() string {
	if g.p1(g.p.tricky * 0.5) {
		return strings.TrimSpace(strings.ReplaceAll(g.part(), ",", ""))
	}
	s := setNames[g.n(len(setNames))]
	if g.p1(0.2) {
		s = g.near(g.prevKey, s)
	}
	g.prevKey = s
	return s
}

func (g *gen) setKey() T {
	if g.p1(0.3) {
		return T{"k": "col", "n": g.setKeyName(), "as": ""}
	}
	s := g.setKeyName()
	if g.p1(0.1) {
		s = " " + s + " "
	}
	return vstr(s)
}

func (g *gen) pair() T {
	k := g.setKey()
	if g.p1(g.p.bad * 0.5) {
		k = g.foreign()
	}
	return T{"k": "pair", "key": k, "val": g.operand()}
}

func (g *gen) mapTerm() T {
	t := g.pick("map[string]interface {}", "types.Map")
	n := g.size(0)
	seen := map[string]bool{}
	es := []T{}
	for i := 0; i < n; i++ {
		k := g.setKey()
		if t != "types.Map" {
			k = vstr(g.setKeyName())
		}
		name := str(k, "v") + str(k, "n")
		if name = strings.TrimSpace(name); seen[name] {
			continue
		}
		seen[name] = true
		es = append(es, T{"k": "pair", "key": k, "val": g.operand()})
	}
	if t == "types.Map" && g.p1(g.p.bad*0.3) {
		es = append(es, T{"k": "pair", "key": g.one(func() T { return vstr("") }, func() T { return T{"k": "val", "t": "int", "v": "3", "p": ""} },
			func() T { return T{"k": "bad", "t": "main.plain"} }), "val": g.value()})
	}
	return T{"k": "map", "t": t, "a": es}
}

func (g *gen) assoc() []T {
	n := g.size(1)
	if n > 6 && g.p1(0.7) {
		n = 6
	}
	es := make([]T, n)
	for i := range es {
		if g.p1(0.35) {
			es[i] = g.mapTerm()
		} else {
			es[i] = g.pair()
		}
	}
	return es
}

// ---------------------------------------------------------------- rows

func (g *gen) rowValue() T {
	if g.p1(0.1) {
		return T{"k": "nil"}
	}
	return g.operand()
}

func (g *gen) row(n int) []T {
	es := make([]T, n)
	for i := range es {
		es[i] = g.rowValue()
	}
	return es
}

func (g *gen) insertValues() []T {
	if g.p1(g.p.bad * 0.5) {
		switch g.n(4) {
		case 0:
			return []T{}
		case 1:
			return []T{{"k": "rows", "t": "[][]interface {}", "a": [][]T{g.row(2)}}, g.value()}
		case 2:
			return []T{{"k": "rows", "t": "[][]interface {}", "a": [][]T{}}}
		default:
			return []T{{"k": "bad", "t": badTypes[g.n(len(badTypes))]}}
		}
	}
	n := g.size(1)
	switch g.n(8) {
	case 0, 1:
		t := g.pick("[][]interface {}", "[][]string", "[][]int", "[][]int64", "[][]bool", "[][]stmt.Expression")
		m := g.size(1)
		if m*n > 60 {
			m = 2
		}
		rows := make([][]T, m)
		elem := strings.TrimPrefix(t, "[][]")
		for i := range rows {
			rows[i] = make([]T, n)
			if g.p1(0.1) {
				rows[i] = make([]T, g.n(n+2))
			}
			for j := range rows[i] {
				switch elem {
				case "interface {}":
					rows[i][j] = g.rowValue()
				case "stmt.Expression":
					rows[i][j] = g.exprArg(0)
				default:
					rows[i][j] = g.valueOf(elem)
				}
			}
			if len(rows[i]) == 1 && elem == "interface {}" && isSliceTerm(rows[i][0]) {
				rows[i][0] = g.lone()
			}
			if i > 0 && g.p1(0.15) { // the same row again
				rows[i] = rows[g.n(i)]
			}
		}
		return []T{{"k": "rows", "t": t, "a": rows}}
	case 2:
		return []T{g.sliceTerm(sliceTypes[g.n(len(sliceTypes))], n)}
	}
	es := g.row(n)
	if n == 1 && isSliceTerm(es[0]) {
		es[0] = g.lone()
	}
	return es
}

// isSliceTerm: a row made of exactly one slice would be expanded.
func isSliceTerm(t T) bool {
	return str(t, "k") == "slice" || strings.HasPrefix(str(t, "t"), "[]") && str(t, "t") != "[]uint8"
}

func (g *gen) doUpdate() T {
	return g.kept("doupdate", func() T { return T{"k": "doupdate", "a": g.assoc()} })
}

func (g *gen) conflict() []T {
	args := []T{}
	n := g.n(4)
	if g.p1(0.1) {
		n += g.n(6)
	}
	for i := n; i > 0; i-- {
		if g.p1(0.5) {
			args = append(args, vstr(strings.TrimSpace(g.columnList(1))))
		} else {
			args = append(args, T{"k": "col", "n": g.name(), "as": ""})
		}
	}
	if len(args) > 0 && g.p1(0.65) {
		args = append(args, g.doUpdate())
	} else {
		args = append(args, T{"k": "donothing"})
	}
	if g.p1(g.p.bad) {
		switch g.n(8) {
		case 0:
			return []T{}
		case 5:
			return append(args, g.one(func() T { return vstr("z") }, func() T { return T{"k": "donothing"} },
				func() T { return g.doUpdate() }, func() T { return g.foreign() }))
		case 1:
			return args[:len(args)-1]
		case 6: // an empty target anywhere
			i := g.n(len(args))
			return append(append(append([]T{}, args[:i]...), g.one(func() T { return vstr(g.pick("", " ")) },
				func() T { return T{"k": "col", "n": "", "as": ""} })), args[i:]...)
		case 2:
			return []T{g.doUpdate()}
		case 3:
			return []T{vstr("a"), {"k": "doupdate", "a": []T{}}}
		case 4:
			return []T{vstr("a"), {"k": "doupdate", "a": []T{{"k": "map", "t": "types.Map", "a": []T{}}}}}
		}
		return g.spoil(args)
	}
	return args
}
