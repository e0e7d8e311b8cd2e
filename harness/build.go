package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

func str(t T, k string) string {
	s, _ := t[k].(string)
	return s
}

// Strings that are not valid UTF-8 are written in traces with the private
// characters U+F780 to U+F7FF in place of the bytes 0x80 to 0xff.
func enc(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b.WriteRune(0xf700 + rune(s[i]))
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

func dec(s string) string {
	if !strings.ContainsAny(s, private) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r >= 0xf780 && r <= 0xf7ff {
			b.WriteByte(byte(r - 0xf700))
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

var private = func() string {
	s := ""
	for r := rune(0xf780); r <= 0xf7ff; r++ {
		s += string(r)
	}
	return s
}()

// text is a string of a term, as the code gets it.
func text(t T, k string) string { return dec(str(t, k)) }

func num(t T, k string) int {
	switch n := t[k].(type) {
	case int:
		return n
	case float64:
		return int(n)
	}
	return 0
}
func boolean(t T, k string) bool {
	b, _ := t[k].(bool)
	return b
}
func list(t T, k string) []T {
	switch l := t[k].(type) {
	case []T:
		return l
	case []interface{}:
		r := make([]T, len(l))
		for i := range l {
			r[i] = l[i].(T)
		}
		return r
	}
	return nil
}
func lists(t T, k string) [][]T {
	switch l := t[k].(type) {
	case [][]T:
		return l
	case []interface{}:
		r := make([][]T, len(l))
		for i := range l {
			r[i] = list(T{"x": l[i]}, "x")
		}
		return r
	}
	return nil
}
func sub(t T, k string) T {
	s, _ := t[k].(T)
	return s
}

// world is one execution of a program: the builders it holds by handle.
type world struct {
	pool    map[int]interface{}
	later   []func() // modifications the caller makes to its own containers after the call
	touched bool     // the last call modified a container of the caller
	mutate  bool
	shared  map[int]interface{} // values used more than once, by id
}

func newWorld(mutate bool) *world {
	return &world{pool: map[int]interface{}{}, mutate: mutate, shared: map[int]interface{}{}}
}

// own registers a container that the caller owns, and how it modifies it later.
func (w *world) own(c interface{}, f func()) {
	if w.mutate {
		before := contents(c)
		w.later = append(w.later, func() {
			w.touched = w.touched || !sameContents(before, contents(c))
			f()
		})
	}
}

// contents copies what a slice holds, its spare room included, or a map.
func contents(c interface{}) map[interface{}]interface{} {
	held := map[interface{}]interface{}{}
	v, is := c.(reflect.Value)
	if !is {
		v = reflect.ValueOf(c)
	}
	if v.Kind() == reflect.Map {
		for _, k := range v.MapKeys() {
			held[k.Interface()] = v.MapIndex(k).Interface()
		}
		return held
	}
	held["len"] = v.Len()
	for i, room := 0, v.Slice(0, v.Cap()); i < room.Len(); i++ {
		held[i] = room.Index(i).Interface()
	}
	return held
}

func sameContents(a, b map[interface{}]interface{}) bool {
	for k, x := range a {
		if y, has := b[k]; !has || !reflect.DeepEqual(x, y) && fmt.Sprintf("%T %#v", x, x) != fmt.Sprintf("%T %#v", y, y) {
			return false
		}
	}
	return len(a) == len(b)
}

func (w *world) builds(es []T) []interface{} {
	r := make([]interface{}, len(es))
	for i := range es {
		r[i] = w.build(es[i])
	}
	return r
}

func (w *world) expr(e T) stmt.Expression {
	x := w.build(e)
	if x == nil {
		return nil
	}
	if b, ok := x.(builder.Builder); ok {
		return b.Statement().(stmt.Expression)
	}
	return x.(stmt.Expression)
}

func (w *world) onexpr(e T) stmt.OnExpression { return w.build(e).(stmt.OnExpression) }

func (w *world) slice(t string, es []T) reflect.Value {
	elem := strings.TrimPrefix(t, "[]")
	et, ok := goTypes[elem]
	if !ok {
		panic("harness: unknown slice type " + t)
	}
	// Leave room: an append on the caller's slice must not be visible either.
	s := reflect.MakeSlice(reflect.SliceOf(et), len(es), len(es)+3)
	for i := range es {
		if x := w.build(es[i]); x != nil {
			s.Index(i).Set(reflect.ValueOf(x))
		}
	}
	return s
}

// wreck overwrites the elements of a slice, as its owner may do after a call.
func wreck(s reflect.Value) {
	for i := 0; i < s.Len(); i++ {
		el := s.Index(i)
		switch el.Kind() {
		case reflect.String:
			el.SetString("wrecked")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			el.SetInt(99)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			el.SetUint(99)
		case reflect.Slice:
			if el.Type().Elem().Kind() != reflect.Uint8 {
				wreck(el)
			}
			el.Set(reflect.Zero(el.Type()))
		case reflect.Interface:
			switch el.Type() {
			case goTypes["stmt.Expression"]:
				el.Set(reflect.ValueOf(stmt.NewRaw("wrecked")))
			case goTypes["interface {}"]:
				el.Set(reflect.ValueOf("wrecked"))
			default:
				el.Set(reflect.ValueOf(stmt.NewColumn("wrecked")))
			}
		default:
			switch el.Interface().(type) {
			case stmt.Column:
				el.Set(reflect.ValueOf(stmt.NewColumn("wrecked")))
			case stmt.Order:
				el.Set(reflect.ValueOf(stmt.NewOrder("wrecked", types.Desc)))
			case stmt.WithQuery:
				el.Set(reflect.ValueOf(stmt.NewWithQuery("wrecked", stmt.NewRaw("wrecked"))))
			default:
				el.Set(reflect.Zero(el.Type()))
			}
		}
	}
	if s.Cap() > s.Len() {
		wreck(s.Slice3(s.Len(), s.Cap(), s.Cap()))
	}
}

// build turns a term into the Go value a caller would write.  A term with an
// id stands for a value the caller keeps in a variable and uses again.
func (w *world) build(e T) interface{} {
	id := num(e, "id")
	if id == 0 || w.shared == nil {
		return w.fresh(e)
	}
	if _, ok := w.shared[id]; !ok {
		w.shared[id] = w.fresh(e)
	}
	return w.shared[id]
}

func (w *world) fresh(e T) interface{} {
	switch str(e, "k") {
	case "nil":
		return nil
	case "val":
		return mkval(str(e, "t"), text(e, "v"))
	case "bad":
		return badValue(str(e, "t"))
	case "ptime":
		inner := sub(e, "e")
		if str(inner, "k") == "nil" {
			return (*time.Time)(nil)
		}
		x := w.build(inner).(time.Time)
		return &x
	case "enc":
		if g := str(e, "g"); g != "" {
			return goEnc(g, str(sub(sub(e, "i"), "string"), "v"))
		}
		var s *eS
		var i *eI
		var b *eB
		var t *eT
		var z *eZ
		in := sub(e, "i")
		if x, ok := in["stmt"].(T); ok {
			v := w.build(x)
			st, ok := v.(stmt.Statement)
			if !ok {
				st = v.(builder.Builder).Statement()
			}
			s = &eS{st}
		}
		if x, ok := in["int64"].(T); ok {
			i = &eI{w.build(x).(int64)}
		}
		if x, ok := in["bool"].(T); ok {
			b = &eB{w.build(x).(bool)}
		}
		if x, ok := in["time"].(T); ok {
			t = &eT{w.build(x).(time.Time)}
		}
		if x, ok := in["string"].(T); ok {
			z = &eZ{w.build(x).(string)}
		}
		v := mkEnc(s, i, b, t, z)
		if boolean(e, "ptr") {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			return p.Interface()
		}
		return v
	case "slice":
		if num(e, "way") == 1 && len(list(e, "a")) == 0 { // a nil slice
			return reflect.Zero(reflect.SliceOf(goTypes[strings.TrimPrefix(str(e, "t"), "[]")])).Interface()
		}
		s := w.slice(str(e, "t"), list(e, "a"))
		if !boolean(e, "bound") {
			w.own(s, func() { wreck(s) })
		}
		return s.Interface()
	case "rows":
		t := strings.TrimPrefix(str(e, "t"), "[]")
		rows := lists(e, "a")
		et := goTypes[strings.TrimPrefix(t, "[]")]
		s := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(et)), 0, len(rows)+2)
		for i := range rows {
			s = reflect.Append(s, w.slice(t, rows[i]))
		}
		w.own(s, func() { wreck(s) })
		return s.Interface()
	case "raw":
		if num(e, "way") == 1 {
			return stmt.NewRaw(text(e, "v"))
		}
		return lk.Raw(text(e, "v"))
	case "ident":
		if num(e, "way") == 1 {
			return stmt.NewIdentifier(text(e, "v"))
		}
		return lk.Condition(text(e, "v"))
	case "identraw":
		return lk.Condition(lk.Raw(text(e, "v")))
	case "value":
		if num(e, "way") == 1 {
			return stmt.NewValue(w.build(sub(e, "e")))
		}
		return lk.Value(w.build(sub(e, "e")))
	case "cmp", "in", "btw":
		if num(e, "way") == 1 {
			if x := w.composed(e); x != nil {
				return x
			}
		}
		return callMethod(w.build(sub(e, "x")), str(e, "m"), w.builds(list(e, "a")))
	case "isnull":
		return w.build(sub(e, "x")).(stmt.Identifier).IsNull(boolean(e, "v"))
	case "log":
		l, r := w.expr(sub(e, "l")), w.expr(sub(e, "r"))
		and := str(e, "op") == "AND"
		switch way := num(e, "way"); {
		case text(e, "f") == "m":
		case way == 1:
			if and {
				return stmt.NewInfixExpression(l, stmt.NewAndOperator(), r)
			}
			return stmt.NewInfixExpression(l, stmt.NewOrOperator(), r)
		case way == 2:
			return stmt.NewInfixExpression(l, stmt.NewLogicalOperator(types.LogicalOperator(str(e, "op"))), r)
		}
		if text(e, "f") == "m" {
			if and {
				return callMethod(l, "And", []interface{}{r})
			}
			return callMethod(l, "Or", []interface{}{r})
		}
		if and {
			return lk.And(l, r)
		}
		return lk.Or(l, r)
	case "ex":
		if num(e, "way") == 1 {
			if str(e, "m") == "Exists" {
				return stmt.NewExists(w.build(sub(e, "e")))
			}
			return stmt.NewNotExists(w.build(sub(e, "e")))
		}
		if str(e, "m") == "Exists" {
			return lk.Exists(w.build(sub(e, "e")))
		}
		return lk.NotExists(w.build(sub(e, "e")))
	case "call":
		es := list(e, "a")
		args := make([]stmt.Expression, len(es))
		for i := range es {
			args[i] = w.expr(es[i])
		}
		if w.mutate {
			w.own(args, func() { wreck(reflect.ValueOf(args)) })
		}
		return stmt.NewCall(text(e, "f"), args...)
	case "wrapx":
		return stmt.NewWrapper(w.expr(sub(e, "e")))
	case "on":
		if num(e, "way") == 1 {
			return stmt.NewOnClause(stmt.NewColumn(text(e, "l")), stmt.NewColumn(text(e, "r")))
		}
		return lk.On(text(e, "l"), text(e, "r"))
	case "onlog":
		l, r := w.onexpr(sub(e, "l")), w.onexpr(sub(e, "r"))
		and := str(e, "op") == "AND"
		if num(e, "way") == 1 {
			if and {
				return stmt.NewInfixOnExpression(l, stmt.NewAndOperator(), r)
			}
			return stmt.NewInfixOnExpression(l, stmt.NewOrOperator(), r)
		}
		if text(e, "f") == "m" {
			if and {
				return l.And(r)
			}
			return l.Or(r)
		}
		if and {
			return lk.AndOn(l, r)
		}
		return lk.OrOn(l, r)
	case "b":
		b := w.pool[num(e, "h")]
		if num(e, "way") == 1 { // a pointer
			p := reflect.New(reflect.TypeOf(b))
			p.Elem().Set(reflect.ValueOf(b))
			return p.Interface()
		}
		return b
	case "bs":
		return w.pool[num(e, "h")].(builder.Builder).Statement()
	case "col":
		as := text(e, "as")
		if num(e, "way") == 3 {
			return stmt.NewColumnAlias(text(e, "n"), as)
		}
		c := lk.Column(text(e, "n"))
		if as != "" {
			if num(e, "way") == 1 {
				c = c.As("replaced")
			}
			c = c.As(as)
		}
		if num(e, "way") == 2 {
			_, _ = c.As("other"), c.Desc()
		}
		return c
	case "cols":
		es := list(e, "a")
		s := make([]stmt.Column, len(es), len(es)+2)
		for i := range es {
			s[i] = w.build(es[i]).(stmt.Column)
		}
		w.own(s, func() { wreck(reflect.ValueOf(s)) })
		return s
	case "sexps":
		es := list(e, "a")
		s := make([]stmt.SelectExpression, len(es), len(es)+2)
		for i := range es {
			s[i] = w.build(es[i]).(stmt.SelectExpression)
		}
		w.own(s, func() { wreck(reflect.ValueOf(s)) })
		return s
	case "tab":
		as, way := text(e, "as"), num(e, "way")
		t := lk.Table(text(e, "n"))
		if way == 3 {
			t = stmt.NewTableAlias(text(e, "n"), as)
		}
		if way == 1 && boolean(e, "only") {
			t = t.Only()
		}
		if as != "" && way != 3 {
			if way == 1 {
				t = t.As("replaced")
			}
			t = t.As(as)
		}
		if boolean(e, "only") {
			t = t.Only()
		}
		if way == 2 {
			_, _ = t.As("other"), t.Only()
		}
		return t
	case "from":
		es := list(e, "a")
		s := make([]stmt.Statement, len(es), len(es)+2)
		for i := range es {
			s[i] = w.build(es[i]).(stmt.Statement)
		}
		w.own(s, func() { wreck(reflect.ValueOf(s)) })
		return stmt.NewFrom(s)
	case "into":
		return stmt.NewInto(w.build(sub(e, "e")).(stmt.Table))
	case "join":
		var cond stmt.Expression
		if c := sub(e, "cond"); str(c, "k") != "nil" {
			cond = w.expr(c)
		}
		if num(e, "way") > 0 {
			switch tab := w.build(sub(e, "tab")).(stmt.Table); str(e, "t") {
			case "INNER JOIN":
				return stmt.NewInnerJoin(tab, cond)
			case "LEFT JOIN":
				return stmt.NewLeftJoin(tab, cond)
			case "RIGHT JOIN":
				return stmt.NewRightJoin(tab, cond)
			}
		}
		return stmt.NewJoin(joinType(str(e, "t")), w.build(sub(e, "tab")).(stmt.Table), cond)
	case "jt":
		return joinType(text(e, "v"))
	case "ord":
		switch text(e, "f") {
		case "Asc":
			return w.build(sub(e, "c")).(stmt.Column).Asc()
		case "Desc":
			return w.build(sub(e, "c")).(stmt.Column).Desc()
		}
		switch t := str(e, "t"); t {
		case "":
			if num(e, "way") == 1 {
				return stmt.NewOrder(text(e, "n"), types.Asc)
			}
		case "ASC":
			if num(e, "way") == 1 {
				return stmt.NewOrder(text(e, "n"), types.Asc)
			}
			return lk.Order(text(e, "n"), lk.Asc)
		case "DESC":
			return lk.Order(text(e, "n"), lk.Desc)
		default:
			return lk.Order(text(e, "n"), types.OrderType(t))
		}
		return lk.Order(text(e, "n"))
	case "agg":
		v, as, way := text(e, "v"), text(e, "as"), num(e, "way")
		switch text(e, "f") {
		case "COUNT":
			c := lk.Count(v)
			if way == 1 {
				c = c.Distinct(true).Distinct(false).Distinct(false)
			}
			if as != "" && way == 2 {
				c = c.As("replaced").As(as)
			}
			if boolean(e, "distinct") {
				c = c.Distinct(true)
				if way > 1 {
					c = c.Distinct(true)
				}
			}
			if as != "" && way != 2 {
				c = c.As(as)
			}
			_, _ = c.Distinct(!boolean(e, "distinct")), c.As("other")
			return c
		case "MAX":
			c := lk.Max(v)
			if way == 1 && as != "" {
				c = c.As("replaced")
			}
			if as != "" {
				c = c.As(as)
			}
			_ = c.As("other")
			return c
		case "MIN":
			c := lk.Min(v)
			if way == 1 && as != "" {
				c = c.As("replaced")
			}
			if as != "" {
				c = c.As(as)
			}
			_ = c.As("other")
			return c
		default:
			c := lk.Sum(v)
			if way == 1 && as != "" {
				c = c.As("replaced")
			}
			if as != "" {
				c = c.As(as)
			}
			_ = c.As("other")
			return c
		}
	case "pair":
		return lk.Pair(w.build(sub(e, "key")), w.build(sub(e, "val")))
	case "map":
		if str(e, "t") == "map[string]interface {}" {
			m := map[string]interface{}{}
			for _, p := range list(e, "a") {
				m[text(sub(p, "key"), "v")] = w.build(sub(p, "val"))
			}
			w.own(m, func() {
				for k := range m {
					m[k] = "wrecked"
				}
				m["wrecked"] = "wrecked"
			})
			return m
		}
		m := lk.Map{}
		for _, p := range list(e, "a") {
			m[w.build(sub(p, "key"))] = w.build(sub(p, "val"))
		}
		w.own(m, func() {
			for k := range m {
				m[k] = "wrecked"
			}
			m["wrecked"] = "wrecked"
		})
		return m
	case "with":
		if num(e, "way") == 1 {
			return stmt.NewWithQuery(text(e, "n"), w.build(sub(e, "e")))
		}
		return lk.With(text(e, "n"), w.build(sub(e, "e")))
	case "lim":
		if num(e, "way") == 1 {
			return stmt.NewLimit(mkval("int64", text(e, "v")).(int64))
		}
		return lk.Limit(mkval("int64", text(e, "v")).(int64))
	case "off":
		if num(e, "way") == 1 {
			return stmt.NewOffset(mkval("int64", text(e, "v")).(int64))
		}
		return lk.Offset(mkval("int64", text(e, "v")).(int64))
	case "suf":
		return stmt.NewSuffix(text(e, "v"))
	case "pre":
		return stmt.NewPrefix(text(e, "v"))
	case "donothing":
		if num(e, "way") == 1 {
			return stmt.NewConflictNoAction()
		}
		return lk.DoNothing()
	case "doupdate":
		return lk.DoUpdate(w.builds(list(e, "a"))...)
	}
	panic("harness: unknown term " + jsonText(e))
}

var operators = map[string]types.ComparisonOperator{
	"Equal": types.Equal, "NotEqual": types.NotEqual, "Is": types.Is, "IsNot": types.IsNot, "GreaterThan": types.GreaterThan,
	"GreaterThanOrEqual": types.GreaterThanOrEqual, "LessThan": types.LessThan, "LessThanOrEqual": types.LessThanOrEqual, "Like": types.Like,
	"NotLike": types.NotLike, "ILike": types.ILike, "NotILike": types.NotILike, "IsDistinctFrom": types.IsDistinctFrom,
	"IsNotDistinctFrom": types.IsNotDistinctFrom, "Contains": types.Contains, "IsContainedBy": types.IsContainedBy, "Overlap": types.Overlap,
}

// composed makes a condition from its parts.
func (w *world) composed(e T) interface{} {
	x, args := w.expr(sub(e, "x")), list(e, "a")
	part := func(i int) stmt.Expression { return stmt.NewWrapper(stmt.NewExpression(w.build(args[i]))) }
	m := str(e, "m")
	switch m {
	case "In":
		return stmt.NewIn(x, stmt.NewArrayExpression(w.builds(args)...))
	case "NotIn":
		return stmt.NewNotIn(x, stmt.NewArrayExpression(w.builds(args)...))
	case "Between", "NotBetween":
		id, ok := x.(stmt.Identifier)
		if !ok {
			return nil
		}
		if m == "Between" {
			return stmt.NewBetween(id, part(0), part(1))
		}
		return stmt.NewNotBetween(id, part(0), part(1))
	}
	op, ok := operators[m]
	if !ok {
		return nil
	}
	return stmt.NewInfixExpression(x, stmt.NewComparisonOperator(op), part(0))
}

// joinType is the constant of the library for a text, if it has one.
func joinType(text string) types.JoinType {
	switch text {
	case "INNER JOIN":
		return lk.InnerJoin
	case "LEFT JOIN":
		return lk.LeftJoin
	case "RIGHT JOIN":
		return lk.RightJoin
	case "LEFT OUTER JOIN":
		return lk.LeftOuterJoin
	case "RIGHT OUTER JOIN":
		return lk.RightOuterJoin
	}
	return types.JoinType(text)
}

// callMethod calls a method by name, with nil for the zero value of any interface.
func callMethod(recv interface{}, name string, args []interface{}) interface{} {
	m := reflect.ValueOf(recv).MethodByName(name)
	if !m.IsValid() {
		panic("harness: no method " + name + " on " + reflect.TypeOf(recv).String())
	}
	mt := m.Type()
	in := make([]reflect.Value, len(args))
	for i := range args {
		var pt reflect.Type
		if mt.IsVariadic() && i >= mt.NumIn()-1 {
			pt = mt.In(mt.NumIn() - 1).Elem()
		} else {
			pt = mt.In(i)
		}
		if args[i] == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(args[i])
		}
		if !in[i].Type().AssignableTo(pt) {
			panic("harness: argument " + in[i].Type().String() + " does not fit " + name)
		}
	}
	return m.Call(in)[0].Interface()
}

// construct executes a "new" operation.
func (w *world) construct(kind string, args []T) interface{} {
	a := w.builds(args)
	switch kind {
	case "select":
		s := a
		w.own(s, func() { wreck(reflect.ValueOf(s)) })
		return lk.Select(s...)
	case "insert":
		return lk.Insert(a[0])
	case "update":
		return lk.Update(a[0])
	case "delete":
		return lk.Delete(a[0])
	case "newselect":
		return builder.NewSelect()
	case "newinsert":
		return builder.NewInsert()
	case "newdelete":
		return builder.NewDelete()
	}
	panic("harness: unknown kind " + kind)
}

// apply executes a "call" operation.
func (w *world) apply(h int, m string, args []T) interface{} {
	recv, ok := w.pool[h]
	if !ok {
		panic("harness: unknown handle")
	}
	a := w.builds(args)
	mt := reflect.ValueOf(recv).MethodByName(m)
	if !mt.IsValid() {
		panic("harness: no method " + m)
	}
	if mt.Type().IsVariadic() && mt.Type().NumIn() == 1 && len(a) > 0 {
		// Spread a slice the caller owns.
		et := mt.Type().In(0).Elem()
		s := reflect.MakeSlice(reflect.SliceOf(et), len(a), len(a)+2)
		for i := range a {
			if a[i] != nil {
				s.Index(i).Set(reflect.ValueOf(a[i]))
			}
		}
		w.own(s, func() { wreck(s) })
		return mt.CallSlice([]reflect.Value{s})[0].Interface()
	}
	return callMethod(recv, m, a)
}

// settle runs the modifications registered during a call, and tells whether
// the call itself made one.
func (w *world) settle() {
	w.touched = false
	for _, f := range w.later {
		f()
	}
	w.later = nil
}
