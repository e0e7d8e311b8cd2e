------------------------------- MODULE MCVals -------------------------------
(* Values and what becomes of them: the argument that Query() binds (C23)    *)
(* and the literal that String() writes (C22).  Every entry gives both; they *)
(* are written here, or computed in another way than Sql.tla does.           *)
EXTENDS Theorems
CONSTANTS Entries(_), Place

(* x: term; b: what is bound (<<>> for nothing); lit: in String()            *)
X(x, b, lit) == [x |-> x, b |-> b, lit |-> lit]
Same(x, lit) == X(x, <<x>>, lit)
Refuse(x) == X(x, <<>>, "<panic>")
In(t, v, in) == [k |-> "val", t |-> t, v |-> v, p |-> v, in |-> in]

-----------------------------------------------------------------------------
(* C22: numbers, booleans, bytes, times, valuers                             *)
Num_(t, v) == Same(Val(t, v), v)
Numbers == <<
  Num_("int", "0"), Num_("int", "-1"), Num_("int", "9223372036854775807"), Num_("int", "-9223372036854775808"),
  Num_("int8", "127"), Num_("int8", "-128"), Num_("int16", "32767"), Num_("int16", "-32768"), Num_("int32", "2147483647"), Num_("int32", "-2147483648"),
  Num_("int64", "9223372036854775807"), Num_("int64", "-9223372036854775808"), Num_("uint", "18446744073709551615"), Num_("uint8", "255"),
  Num_("uint16", "65535"), Num_("uint32", "4294967295"), Num_("uint64", "18446744073709551615"), Num_("uint64", "9223372036854775808"), Num_("uint64", "0"),
  Num_("bool", "true"), Num_("bool", "false"),
  Num_("float64", "0"), Num_("float64", "-0"), Num_("float64", "0.1"), Num_("float64", "-1.5"), Num_("float64", "1000000000000000000000"), Num_("float64", "0.0000001"),
  Num_("float64", "123456789012345680"), Num_("float64", "3.141592653589793"), Num_("float64", "9007199254740993000"), Num_("float64", "100000"),
  Num_("float32", "0.5"), Num_("float32", "-16777216"), Num_("float32", "0.10000000149011612"), Num_("float32", "340282346638528860000000000000000000000")>>
Bytes_ == <<
  Same(Val("[]uint8", ""), "decode('', 'hex')"), Same(Val("[]uint8", "00"), "decode('00', 'hex')"),
  Same(Val("[]uint8", "275c0aff7f80"), "decode('275c0aff7f80', 'hex')")>>
At_(v, lit) == Same(Val("time.Time", v), lit)
Times_ == <<
  At_("1970-01-01T00:00:00.000000000+00:00", "'1970-01-01 00:00:00+00'"),
  At_("0001-01-01T00:00:00.000000000+00:00", "'0001-01-01 00:00:00+00'"),
  At_("9999-12-31T23:59:59.999999999+00:00", "'9999-12-31 23:59:59.999999+00'"),
  At_("2000-02-29T23:59:59.000001000+00:00", "'2000-02-29 23:59:59.000001+00'"),
  At_("2000-02-29T23:59:59.000000999+00:00", "'2000-02-29 23:59:59+00'"),
  At_("2000-03-01T00:30:00.500000000+01:00", "'2000-02-29 23:30:00.5+00'"),
  At_("1900-02-28T23:30:00.123000000-01:00", "'1900-03-01 00:30:00.123+00'"),
  At_("1999-12-31T23:59:00.000000000-00:01", "'2000-01-01 00:00:00+00'"),
  At_("2024-01-01T05:29:59.100000000+05:30", "'2023-12-31 23:59:59.1+00'"),
  At_("2024-03-01T09:00:00.010000000+14:00", "'2024-02-29 19:00:00.01+00'"),
  At_("0100-03-01T00:00:00.000000000+00:01", "'0100-02-28 23:59:00+00'")>>
Str_(s) == Val("string", s)
when == "2020-05-17T10:20:30.123456789-03:00"
Valuers == <<
  X(In("sql.NullString", "true|it's", Str_("it's")), <<In("sql.NullString", "true|it's", NULL)>>, "'it\\'s'"),
  X(In("sql.NullString", "false|", NULL), <<In("sql.NullString", "false|", NULL)>>, "NULL"),
  X(In("sql.NullInt64", "true|-5", Val("int64", "-5")), <<In("sql.NullInt64", "true|-5", NULL)>>, "-5"),
  X(In("sql.NullInt64", "false|0", NULL), <<In("sql.NullInt64", "false|0", NULL)>>, "NULL"),
  X(In("sql.NullBool", "true|false", Val("bool", "false")), <<In("sql.NullBool", "true|false", NULL)>>, "false"),
  X(In("main.Val", "a\tb", Str_("a\tb")), <<In("main.Val", "a\tb", NULL)>>, "'a\\tb'"),
  X(In("main.Val", "", Str_("")), <<In("main.Val", "", NULL)>>, "''"),
  X(In("*main.PVal", "nil", NULL), <<In("*main.PVal", "nil", NULL)>>, "NULL"),
  X(In("*main.PVal", "=x", Str_("x")), <<In("*main.PVal", "=x", NULL)>>, "'x'"),
  X(In("main.ValTime", when, Val("time.Time", when)), <<In("main.ValTime", when, NULL)>>, "'2020-05-17 13:20:30.123456+00'"),
  X(In("main.ValBytes", "'\n", Val("[]uint8", "270a")), <<In("main.ValBytes", "'\n", NULL)>>, "decode('270a', 'hex')"),
  X(In("main.ValNil", "", NULL), <<In("main.ValNil", "", NULL)>>, "NULL"),
  X(In("main.ValErr", "e'", [k |-> "error"]), <<In("main.ValErr", "e'", NULL)>>, NoLiteral),
  X(In("main.ValAll", "12", Val("int64", "12")), <<In("main.ValAll", "12", NULL)>>, "12")>>
Nothing_ == <<X(Nil, <<>>, "NULL"), X(Value(Nil), <<>>, "NULL"), X(Ptime(Nil), <<>>, "NULL"), X(Raw("now()"), <<>>, "now()")>>
Literals(u_) == Numbers \o Bytes_ \o Times_ \o Valuers \o Nothing_
WrappedLiterals(u_) == LET all == Literals(0) IN [i \in 1..Len(all) |-> IF all[i].x.k = "val" THEN [all[i] EXCEPT !.x = Value(@)] ELSE all[i]]

(* All the short texts of these characters. *)
Alphabet == <<"a", "", "'", "\\", "\n", "\r", "\t", "\"", "$", "n", " ", "é">>
Esc(c) == CASE c = "'" -> "\\'" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\r" -> "\\r" [] c = "\t" -> "\\t" [] OTHER -> c
Texts(n) == LET A == 1..Len(Alphabet)
            IN IF n = 1 THEN [i \in A |-> <<Alphabet[i]>>]
               ELSE IF n = 2 THEN [i \in 1..(Len(Alphabet) * Len(Alphabet)) |->
                                     <<Alphabet[((i - 1) \div Len(Alphabet)) + 1], Alphabet[((i - 1) % Len(Alphabet)) + 1]>>]
               ELSE [i \in 1..(Len(Alphabet) * Len(Alphabet) * Len(Alphabet)) |->
                       <<Alphabet[((i - 1) \div (Len(Alphabet) * Len(Alphabet))) + 1],
                         Alphabet[(((i - 1) \div Len(Alphabet)) % Len(Alphabet)) + 1], Alphabet[((i - 1) % Len(Alphabet)) + 1]>>]
StringsOf(cs) == [i \in 1..Len(cs) |-> Same(Str_(Cat(cs[i])), "'" \o Cat([j \in 1..Len(cs[i]) |-> Esc(cs[i][j])]) \o "'")]
Strings2(u_) == <<Same(Str_(""), "''")>> \o StringsOf(Texts(1)) \o StringsOf(Texts(2))
Strings3(u_) == StringsOf(Texts(3))
Strings(u_) == Strings2(0) \o Strings3(0)

-----------------------------------------------------------------------------
(* C23: conversions                                                          *)
T_(t, v) == Val(t, v)
encodings == [stmt |-> Raw("st()"), int64 |-> T_("int64", "64"), bool |-> T_("bool", "true"), time |-> T_("time.Time", when), string |-> T_("string", "str")]
(* in the documented order: each subset gives its first                      *)
Ordered == <<"stmt", "int64", "bool", "time", "string">>
Subset(mask) == LET on(i) == (mask \div (2 ^ (i - 1))) % 2 = 1
                IN [f \in {Ordered[i] : i \in {j \in 1..5 : on(j)}} |-> encodings[f]]
FirstOf_(mask) == LET on(i) == (mask \div (2 ^ (i - 1))) % 2 = 1 IN Ordered[CHOOSE i \in 1..5 : on(i) /\ \A j \in 1..(i - 1) : ~on(j)]
Encoders(ptr) == [mask \in 1..31 |->
  LET f == FirstOf_(mask)
      x == [k |-> "enc", i |-> Subset(mask), ptr |-> ptr]
  IN CASE f = "stmt" -> X(x, <<>>, "st()")
       [] f = "time" -> X(x, <<T_("time.Time", when)>>, "'2020-05-17 13:20:30.123456+00'")
       [] f = "string" -> X(x, <<T_("string", "str")>>, "'str'")
       [] OTHER -> X(x, <<encodings[f]>>, encodings[f].v)]
Known(g, i, b, lit) == X([k |-> "enc", g |-> g, i |-> i], <<b>>, lit)
WellKnown == <<
  Known("time.Duration", [string |-> Str_("1.5s")], Str_("1.5s"), "'1.5s'"),
  Known("big.Int", [int64 |-> T_("int64", "77"), string |-> Str_("77")], T_("int64", "77"), "77"),
  Known("json.Number", [string |-> Str_("12")], Str_("12"), "'12'"), Known("net.IP", [string |-> Str_("10.0.0.1")], Str_("10.0.0.1"), "'10.0.0.1'"),
  X([k |-> "enc", i |-> [stmt |-> Id("a.b"), string |-> Str_("s")]], <<>>, "\"a\".\"b\""),
  X([k |-> "enc", i |-> [stmt |-> Value(Str_("inner"))]], <<Str_("inner")>>, "'inner'"),
  Refuse([k |-> "enc", i |-> [stmt |-> Col("a"), string |-> Str_("s")]])>>
Expressions == <<X(Id("a.b"), <<>>, "\"a\".\"b\""), X(CallT("f", <<Value(Str_("v")), Raw("1")>>), <<Str_("v")>>, "f('v', 1)"),
  X(Value(T_("int64", "3")), <<T_("int64", "3")>>, "3"), X(Ptime(T_("time.Time", when)), <<T_("time.Time", when)>>, "'2020-05-17 13:20:30.123456+00'"),
  X(OrF(Id("a"), Raw("r")), <<>>, "(\"a\" OR r)")>>
(* types whose literal is not specified: what they bind is                   *)
Big(t, v) == X(Val(t, v), <<Val(t, v)>>, "")
Others == <<Big("[]int64", "[1,-2]"), Big("[]int64", "[]"), Big("[]string", "[\"a\",\"\"]"), Big("pgtype.FlatArray[int64]", "[3]"),
  Big("pgtype.FlatArray[string]", "[\"x'y\"]"), Big("pgtype.Range[int64]", "1,5"), Big("map[string]string", "{\"a\":\"b\"}"),
  Big("map[string]interface {}", "{\"a\":\"b\"}"), Big("map[string]string", "{}"), Big("map[string]string", "null"), Big("map[string]interface {}", "null"),
  Big("[]int64", "null"), Big("[]string", "null"), Big("pgtype.FlatArray[int64]", "null"), Big("pgtype.FlatArray[string]", "null"), Big("[]uint8", "nil")>>
Bad == <<"main.plain", "*main.plain", "main.namedString", "main.namedInt", "*int", "*string", "map[int]int", "complex128", "uintptr", "struct {}",
         "[2]int", "func()", "error">>
BadOf(ts) == [i \in 1..Len(ts) |-> Refuse(BadT(ts[i]))]
Conversions(u_) == Encoders(FALSE) \o Encoders(TRUE) \o WellKnown \o Expressions \o Others \o Literals(0)
                   \o BadOf(Bad)

-----------------------------------------------------------------------------
(* Where the value is given *)
SelPrefix == <<<<0, New("select", <<Str("s")>>)>>>>
InsPrefix == <<<<0, New("insert", <<Str("t")>>)>>>>
UpdPrefix == <<<<0, New("update", <<Str("t")>>)>>>>
UsePrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<Str("k")>>)>>>>
Where == "where"
Between == "between"
InList == "in"
Row1 == "row1"
Row2 == "row2"
Pair_ == "pair"
Use == "use"
Insets == "insets"
CallOf(x) ==
  CASE Place = "where" -> C("Where", <<Cmp(Id("a"), "Equal", x)>>)
    [] Place = "between" -> C("Having", <<Btw(Id("a"), "Between", Raw("0"), x)>>)
    [] Place = "in" -> C("Where", <<InT(Id("a"), "In", <<Raw("0"), x>>)>>)
    [] Place = "row1" -> C("Values", <<Raw("0"), x>>)
    [] Place = "row2" -> C("Values", <<Rows("[][]interface {}", <<<<Raw("0")>>, <<x, Raw("1")>>>>)>>)
    [] Place = "pair" -> C("Set", <<Pair(Str("k"), x)>>)
    [] Place = "use" -> C("Using", <<x>>)
    [] Place = "insets" -> C("Set", <<MapT(<<Pair(Str("k"), x)>>)>>)
Around ==
  CASE Place = "where" -> <<"SELECT \"s\" WHERE (\"a\" = ", ")">>
    [] Place = "between" -> <<"SELECT \"s\" HAVING (\"a\" BETWEEN 0 AND ", ")">>
    [] Place = "in" -> <<"SELECT \"s\" WHERE (\"a\" IN (0, ", "))">>
    [] Place = "row1" -> <<"INSERT INTO \"t\" VALUES (0, ", ")">>
    [] Place = "row2" -> <<"INSERT INTO \"t\" VALUES (0), (", ", 1)">>
    [] Place = "pair" -> <<"UPDATE \"t\" SET \"k\" = ", "">>
    [] Place = "use" -> <<"UPDATE \"t\" SET (\"k\") = (", ")">>
    [] Place = "insets" -> <<"INSERT INTO \"t\" (\"k\") VALUES (", ")">>
NoStarts == <<>>
ASSUME TLCSet(42, TLCEval(Entries(0)))
MCCalls(u_) == LET m_ == TLCEval(Entries(0)) IN [i \in 1..Len(m_) |-> CallOf(m_[i].x)]
Entry == TLCGet(42)[hist[1][2]]

RefusedHere == hist # <<>> => (dead <=> Entry.lit = "<panic>")
Bound == Live =>
  LET args == ArgsOf(Segs)
  IN Len(args) = Len(Entry.b) /\ \A i \in 1..Len(args) : args[i].t = Entry.b[i].t /\ args[i].v = Entry.b[i].v
Literal == Live /\ Entry.lit # "" => RawText(Segs) = Cat(<<Around[1], Entry.lit, Around[2]>>)
(* Reading a literal of a text gives the text back.                          *)
Faithful == Live /\ Entry.x.k = "val" /\ Entry.x.t = "string" =>
  LET t == RawText(Segs)
  IN StringUnlit(SubSeq(t, Len(Around[1]) + 1, Len(t) - Len(Around[2]))) = Entry.x.v
=============================================================================
