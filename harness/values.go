package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/ulule/loukoum/v3/stmt"
)

// T is a term of the language shared with the specification (spec/Sql.tla).
type T = map[string]interface{}

const timeLayout = "2006-01-02T15:04:05.000000000-07:00"

// Valuers.

// Val returns a string.
type Val struct{ S string }

// Value implements driver.Valuer.
func (v Val) Value() (driver.Value, error) { return v.S, nil }

// PVal is a Valuer by pointer, which may be nil.
type PVal struct{ S string }

// Value implements driver.Valuer.
func (v *PVal) Value() (driver.Value, error) { return v.S, nil }

// ValText is a Valuer of a kind that is not a struct.
type ValText string

// Value returns the text.
func (v ValText) Value() (driver.Value, error) { return string(v), nil }

// ValMap is a Valuer whether it is nil or not.
type ValMap map[int]bool

// Value returns the number of keys.
func (v ValMap) Value() (driver.Value, error) { return int64(len(v)), nil }

// ValTime returns a time.
type ValTime struct{ X time.Time }

// Value implements driver.Valuer.
func (v ValTime) Value() (driver.Value, error) { return v.X, nil }

// ValBytes returns bytes.
type ValBytes struct{ X string }

// Value implements driver.Valuer.
func (v ValBytes) Value() (driver.Value, error) { return []byte(v.X), nil }

// ValNil returns nil.
type ValNil struct{}

// Value implements driver.Valuer.
func (v ValNil) Value() (driver.Value, error) { return nil, nil }

// ValErr fails.
type ValErr struct{ S string }

// Value implements driver.Valuer.
func (v ValErr) Value() (driver.Value, error) { return v.S, errors.New(v.S) }

// ValAll is a Valuer that also implements every encoder but StatementEncoder.
type ValAll struct{ I int64 }

// Value implements driver.Valuer.
func (v ValAll) Value() (driver.Value, error) { return v.I, nil }

// String implements stmt.StringEncoder.
func (v ValAll) String() string { return "no" }

// Int64 implements stmt.Int64Encoder.
func (v ValAll) Int64() int64 { return -77 }

// Bool implements stmt.BoolEncoder.
func (v ValAll) Bool() bool { return true }

// Time implements stmt.TimeEncoder.
func (v ValAll) Time() time.Time { return time.Time{} }

// Encoders: every subset of the five interfaces, by embedding.
type (
	eS struct{ s stmt.Statement }
	eI struct{ i int64 }
	eB struct{ b bool }
	eT struct{ t time.Time }
	eZ struct{ z string }
)

func (e eS) Statement() stmt.Statement { return e.s }
func (e eI) Int64() int64              { return e.i }
func (e eB) Bool() bool                { return e.b }
func (e eT) Time() time.Time           { return e.t }
func (e eZ) String() string            { return e.z }

func mkEnc(s *eS, i *eI, b *eB, t *eT, z *eZ) interface{} {
	mask := 0
	if s != nil {
		mask |= 16
	}
	if i != nil {
		mask |= 8
	}
	if b != nil {
		mask |= 4
	}
	if t != nil {
		mask |= 2
	}
	if z != nil {
		mask |= 1
	}
	switch mask {
	case 1:
		return struct{ eZ }{*z}
	case 2:
		return struct{ eT }{*t}
	case 3:
		return struct {
			eT
			eZ
		}{*t, *z}
	case 4:
		return struct{ eB }{*b}
	case 5:
		return struct {
			eB
			eZ
		}{*b, *z}
	case 6:
		return struct {
			eB
			eT
		}{*b, *t}
	case 7:
		return struct {
			eB
			eT
			eZ
		}{*b, *t, *z}
	case 8:
		return struct{ eI }{*i}
	case 9:
		return struct {
			eI
			eZ
		}{*i, *z}
	case 10:
		return struct {
			eI
			eT
		}{*i, *t}
	case 11:
		return struct {
			eI
			eT
			eZ
		}{*i, *t, *z}
	case 12:
		return struct {
			eI
			eB
		}{*i, *b}
	case 13:
		return struct {
			eI
			eB
			eZ
		}{*i, *b, *z}
	case 14:
		return struct {
			eI
			eB
			eT
		}{*i, *b, *t}
	case 15:
		return struct {
			eI
			eB
			eT
			eZ
		}{*i, *b, *t, *z}
	case 16:
		return struct{ eS }{*s}
	case 17:
		return struct {
			eS
			eZ
		}{*s, *z}
	case 18:
		return struct {
			eS
			eT
		}{*s, *t}
	case 19:
		return struct {
			eS
			eT
			eZ
		}{*s, *t, *z}
	case 20:
		return struct {
			eS
			eB
		}{*s, *b}
	case 21:
		return struct {
			eS
			eB
			eZ
		}{*s, *b, *z}
	case 22:
		return struct {
			eS
			eB
			eT
		}{*s, *b, *t}
	case 23:
		return struct {
			eS
			eB
			eT
			eZ
		}{*s, *b, *t, *z}
	case 24:
		return struct {
			eS
			eI
		}{*s, *i}
	case 25:
		return struct {
			eS
			eI
			eZ
		}{*s, *i, *z}
	case 26:
		return struct {
			eS
			eI
			eT
		}{*s, *i, *t}
	case 27:
		return struct {
			eS
			eI
			eT
			eZ
		}{*s, *i, *t, *z}
	case 28:
		return struct {
			eS
			eI
			eB
		}{*s, *i, *b}
	case 29:
		return struct {
			eS
			eI
			eB
			eZ
		}{*s, *i, *b, *z}
	case 30:
		return struct {
			eS
			eI
			eB
			eT
		}{*s, *i, *b, *t}
	case 31:
		return struct {
			eS
			eI
			eB
			eT
			eZ
		}{*s, *i, *b, *t, *z}
	}
	panic("harness: unknown set of encoders")
}

var encMasks = []int{1, 1, 1, 2, 2, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}

var goTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(true),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"[]uint8": reflect.TypeOf([]byte{}), "time.Time": reflect.TypeOf(time.Time{}),
	"stmt.Expression": reflect.TypeOf((*stmt.Expression)(nil)).Elem(),
	"interface {}":    reflect.TypeOf((*interface{})(nil)).Elem(),
}

// parseTime also knows the years from 10000 to 19999.
func parseTime(v string) (time.Time, error) {
	if len(v) < 6 || v[4] == '-' {
		return time.Parse(timeLayout, v)
	}
	x, err := time.Parse(timeLayout, v[1:])
	return x.AddDate(10000, 0, 0), err
}

// mkval builds the Go value of a "val" term.
func mkval(t, v string) interface{} {
	v = dec(v)
	switch t {
	case "string":
		return v
	case "bool":
		return v == "true"
	case "[]uint8":
		if v == "nil" {
			return []byte(nil)
		}
		b, err := hex.DecodeString(v)
		check(err)
		return b
	case "time.Time":
		x, err := parseTime(v)
		check(err)
		return x
	case "int", "int8", "int16", "int32", "int64":
		n, err := strconv.ParseInt(v, 10, 64)
		check(err)
		return reflect.ValueOf(n).Convert(goTypes[t]).Interface()
	case "uint", "uint8", "uint16", "uint32", "uint64":
		n, err := strconv.ParseUint(v, 10, 64)
		check(err)
		return reflect.ValueOf(n).Convert(goTypes[t]).Interface()
	case "float32", "float64":
		n, err := strconv.ParseFloat(v, 64)
		check(err)
		return reflect.ValueOf(n).Convert(goTypes[t]).Interface()
	case "[]int64":
		x := []int64{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "[]string":
		x := []string{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "pgtype.FlatArray[int64]":
		x := pgtype.FlatArray[int64]{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "pgtype.FlatArray[string]":
		x := pgtype.FlatArray[string]{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "pgtype.Range[int64]":
		parts := strings.Split(v, ",")
		lo, _ := strconv.ParseInt(parts[0], 10, 64)
		hi, _ := strconv.ParseInt(parts[1], 10, 64)
		return pgtype.Range[int64]{Lower: lo, Upper: hi, LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: true}
	case "map[string]string":
		x := map[string]string{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "map[string]interface {}":
		x := map[string]interface{}{}
		check(json.Unmarshal([]byte(v), &x))
		return x
	case "sql.NullString":
		p := strings.SplitN(v, "|", 2)
		return sql.NullString{Valid: p[0] == "true", String: p[1]}
	case "sql.NullInt64":
		p := strings.SplitN(v, "|", 2)
		n, _ := strconv.ParseInt(p[1], 10, 64)
		return sql.NullInt64{Valid: p[0] == "true", Int64: n}
	case "sql.NullBool":
		p := strings.SplitN(v, "|", 2)
		return sql.NullBool{Valid: p[0] == "true", Bool: p[1] == "true"}
	case "main.Val":
		return Val{v}
	case "*main.PVal":
		if v == "nil" {
			return (*PVal)(nil)
		}
		return &PVal{v[1:]}
	case "*main.ValText":
		if v == "nil" {
			return (*ValText)(nil)
		}
		x := ValText(v[1:])
		return &x
	case "*sql.NullInt64":
		if v == "nil" {
			return (*sql.NullInt64)(nil)
		}
		x := mkval("sql.NullInt64", v).(sql.NullInt64)
		return &x
	case "main.ValMap":
		switch v {
		case "nil":
			return ValMap(nil)
		case "0":
			return ValMap{}
		}
		return ValMap{1: true}
	case "main.ValTime":
		x, err := parseTime(v)
		check(err)
		return ValTime{x}
	case "main.ValErr":
		return ValErr{v}
	case "main.ValBytes":
		return ValBytes{v}
	case "main.ValNil":
		return ValNil{}
	case "main.ValAll":
		n, err := strconv.ParseInt(v, 10, 64)
		check(err)
		return ValAll{n}
	}
	panic("harness: unknown value type " + t)
}

func jsonText(x interface{}) string {
	b, err := json.Marshal(x)
	check(err)
	return string(b)
}

// describe is the inverse of mkval: the term of a Go value.
func describe(x interface{}) T {
	if x == nil {
		return T{"k": "nil", "t": "nil", "v": ""}
	}
	n := T{"k": "val", "t": fmt.Sprintf("%T", x)}
	switch v := x.(type) {
	case string:
		n["v"] = v
	case bool:
		n["v"] = strconv.FormatBool(v)
	case []byte:
		n["v"] = hex.EncodeToString(v)
		if v == nil {
			n["v"] = "nil"
		}
	case time.Time:
		n["v"] = v.Format(timeLayout)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		n["v"] = fmt.Sprint(v)
	case float32:
		n["v"] = strconv.FormatFloat(float64(v), 'f', -1, 64)
	case float64:
		n["v"] = strconv.FormatFloat(v, 'f', -1, 64)
	case []int64, []string, pgtype.FlatArray[int64], pgtype.FlatArray[string], map[string]string, map[string]interface{}:
		n["v"] = jsonText(v)
		n["p"] = fmt.Sprint(v)
	case pgtype.Range[int64]:
		n["v"] = fmt.Sprintf("%d,%d", v.Lower, v.Upper)
		n["p"] = fmt.Sprint(v)
	case sql.NullString:
		n["v"] = fmt.Sprintf("%t|%s", v.Valid, v.String)
	case sql.NullInt64:
		n["v"] = fmt.Sprintf("%t|%d", v.Valid, v.Int64)
	case sql.NullBool:
		n["v"] = fmt.Sprintf("%t|%t", v.Valid, v.Bool)
	case Val:
		n["v"] = v.S
	case *PVal:
		if v == nil {
			n["v"] = "nil"
			n["in"] = T{"k": "null"}
			return n
		}
		n["v"] = "=" + v.S
	case *ValText:
		if v == nil {
			n["v"] = "nil"
			n["in"] = T{"k": "null"}
			return n
		}
		n["v"] = "=" + string(*v)
	case *sql.NullInt64:
		if v == nil {
			n["v"] = "nil"
			n["in"] = T{"k": "null"}
			return n
		}
		n["v"] = fmt.Sprintf("%t|%d", v.Valid, v.Int64)
	case ValMap:
		n["v"] = fmt.Sprint(len(v))
		if v == nil {
			n["v"] = "nil"
		}
	case ValTime:
		n["v"] = v.X.Format(timeLayout)
	case ValBytes:
		n["v"] = v.X
	case ValErr:
		n["v"] = v.S
	case ValNil:
		n["v"] = ""
	case ValAll:
		n["v"] = fmt.Sprint(v.I)
	default:
		n["v"] = fmt.Sprintf("?%v", x)
		n["p"] = fmt.Sprint(x)
	}
	if valuer, ok := x.(driver.Valuer); ok {
		in, err := valuer.Value()
		if err != nil {
			n["in"] = T{"k": "error"}
		} else if in == nil {
			n["in"] = T{"k": "null"}
		} else {
			n["in"] = describe(in)
		}
	}
	for _, k := range []string{"v", "p"} {
		if s, ok := n[k].(string); ok {
			n[k] = enc(s)
		}
	}
	return n
}

// goEnc builds values of well-known types that are converted by an encoder.
func goEnc(g, v string) interface{} {
	switch g {
	case "time.Duration":
		d, err := time.ParseDuration(v)
		check(err)
		return d
	case "big.Int":
		n, ok := new(big.Int).SetString(v, 10)
		if !ok {
			panic("harness: bad big.Int")
		}
		return n
	case "json.Number":
		return json.Number(v)
	case "net.IP":
		return net.ParseIP(v)
	}
	panic("harness: unknown encoder " + g)
}

type plain struct{ A, B int }
type namedString string
type namedInt int

// badValue builds values of types no expression supports.
func badValue(t string) interface{} {
	one := 1
	str := "x"
	switch t {
	case "main.plain":
		return plain{1, 2}
	case "*main.plain":
		return &plain{1, 2}
	case "main.namedString":
		return namedString("x")
	case "main.namedInt":
		return namedInt(3)
	case "*int":
		return &one
	case "*string":
		return &str
	case "map[int]int":
		return map[int]int{1: 2}
	case "complex128":
		return complex(1, 2)
	case "uintptr":
		return uintptr(4)
	case "struct {}":
		return struct{}{}
	case "[]float32":
		return []float32{1}
	case "[]bool":
		return []bool{true}
	case "[2]int":
		return [2]int{1, 2}
	case "func()":
		return func() {}
	case "error":
		return fmt.Errorf("x")
	}
	panic("harness: unknown bad type " + t)
}

var badTypes = []string{"main.plain", "*main.plain", "main.namedString", "main.namedInt", "*int", "*string", "map[int]int",
	"complex128", "uintptr", "struct {}", "[2]int", "func()", "error"}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}
