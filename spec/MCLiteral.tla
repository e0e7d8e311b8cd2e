----------------------------- MODULE MCLiteral ------------------------------
(* Calls whose text is known beforehand.  Every entry of a menu is a call    *)
(* with the text it must leave (what, written here and not taken from        *)
(* Sql.tla) or No when it must panic; the statement is Head_, followed by    *)
(* the texts of the calls.                                                   *)
EXTENDS Theorems
CONSTANTS Menu(_), Head_, Tail_

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
L(c, what) == [c |-> c, what |-> what]
No == "<panic>"
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> m_[i].c]
NoPrefix == <<>>
NoStarts == <<>>
First_ == IF MaxNew = 0 THEN 1 ELSE 2
(* Placeholders are written # in the menus. *)
Anonymous(segs) == Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN "#" ELSE segs[i].s])
Expected == Cat(<<Head_>> \o [j \in 1..(Len(hist) + 1 - First_) |-> MenuAt(hist[j + First_ - 1][2]).what] \o <<Tail_>>)
Exact == Live /\ Len(hist) >= First_ => Anonymous(Segs) = Expected
RefusedExactly == hist # <<>> /\ Len(hist) >= First_ => (dead <=> MenuAt(hist[Len(hist)][2]).what = No)

(* FoldLeft: TLC would otherwise compute an entry each time it is used.      *)
Product(as, bs, F(_, _)) ==
  FoldLeft(LAMBDA acc, x : acc \o FoldLeft(LAMBDA acc2, y : Append(acc2, F(x, y)), <<>>, bs), <<>>, as)

-----------------------------------------------------------------------------
(* Joins (C14) *)
Tables == <<
  <<Str("t"), "\"t\"">>, <<Str("s.T"), "\"s\".\"T\"">>, <<Tab("t"), "\"t\"">>, <<TabAs("t", "x"), "\"t\" AS \"x\"">>,
  <<TabOnly("t"), "ONLY \"t\"">>, <<Str(""), No>>, <<IntV("3"), No>>, <<Nil, No>>, <<Col("t"), No>>>>
on1 == OnT("t.a", "u.b")
on2 == OnT("c", "d")
on3 == OnT("e", "f")
(* condition, text, type and table of a textual one *)
JConds == <<
  <<on1, "\"t\".\"a\" = \"u\".\"b\"", "INNER JOIN">>,
  <<OnLog("m", "AND", on1, on2), "(\"t\".\"a\" = \"u\".\"b\" AND \"c\" = \"d\")", "INNER JOIN">>,
  <<OnLog("m", "OR", OnLog("m", "AND", on1, on2), on3), "((\"t\".\"a\" = \"u\".\"b\" AND \"c\" = \"d\") OR \"e\" = \"f\")", "INNER JOIN">>,
  <<OnLog("fn", "AND", on3, OnLog("fn", "OR", on1, on2)), "(\"e\" = \"f\" AND (\"t\".\"a\" = \"u\".\"b\" OR \"c\" = \"d\"))", "INNER JOIN">>,
  <<Str("c = d"), "\"c\" = \"d\"", "INNER JOIN">>,
  <<Str("ON (c = d AND e = f)"), "(\"c\" = \"d\" AND \"e\" = \"f\")", "INNER JOIN">>,
  <<Str("right join other on c = d or e = f;"), "(\"c\" = \"d\" OR \"e\" = \"f\")", "RIGHT JOIN">>,
  <<Str("c = "), No, "">>, <<Str(""), No, "">>, <<Str("c = d AND"), No, "">>, <<Raw("c = d"), No, "">>, <<IntV("1"), No, "">>, <<Nil, No, "">>>>
JTypes == <<"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN">>
JoinWhat(type, tab, cond) == IF tab = No \/ cond = No THEN No ELSE Cat(<<" ", type, " ", tab, " ON ", cond>>)
Join2(t, c) == L(C("Join", <<t[1], c[1]>>), JoinWhat(c[3], t[2], c[2]))
Join3(jt, tc) == L(C("Join", <<tc[1][1], tc[2][1], Jt(jt)>>), JoinWhat(jt, tc[1][2], tc[2][2]))
Pairs2(u_) == Product(Tables, JConds, LAMBDA t, c : <<t, c>>)
Join1(u_) == <<
  L(C("Join", <<Str("u ON a = b")>>), " INNER JOIN \"u\" ON \"a\" = \"b\""),
  L(C("Join", <<Str("LEFT JOIN s.u ON a = b;")>>), " LEFT JOIN \"s\".\"u\" ON \"a\" = \"b\""),
  L(C("Join", <<Str("JOIN u ON (a = b AND c = d)")>>), " INNER JOIN \"u\" ON (\"a\" = \"b\" AND \"c\" = \"d\")"),
  L(C("Join", <<Str("a = b")>>), No), L(C("Join", <<Str("LEFT JOIN u")>>), No), L(C("Join", <<Str("CROSS JOIN u ON a = b")>>), No),
  L(C("Join", <<JoinT("LEFT JOIN", TabAs("u", "y"), on1)>>), " LEFT JOIN \"u\" AS \"y\" ON \"t\".\"a\" = \"u\".\"b\""),
  L(C("Join", <<JoinT("RIGHT JOIN", TabOnly("u"), OnLog("fn", "OR", on1, on2))>>), " RIGHT JOIN ONLY \"u\" ON (\"t\".\"a\" = \"u\".\"b\" OR \"c\" = \"d\")"),
  L(C("Join", <<JoinT("", Tab("u"), on1)>>), No), L(C("Join", <<JoinT("LEFT JOIN", Tab(""), on1)>>), No),
  L(C("Join", <<>>), No), L(C("Join", <<IntV("1")>>), No), L(C("Join", <<Nil>>), No),
  L(C("Join", <<Str("t"), on1, Str("LEFT JOIN")>>), No), L(C("Join", <<Str("t"), on1, Jt("LEFT JOIN"), Jt("LEFT JOIN")>>), No)>>
JoinMenu(u_) == Join1(0) \o Product(Tables, JConds, Join2) \o Product(JTypes, Pairs2(0), Join3)
JoinFew(u_) == SubSeq(Join1(0), 1, 3) \o SubSeq(Join1(0), 7, 8)
           \o SelectSeq(Product(SubSeq(Tables, 2, 5), SubSeq(JConds, 1, 7), Join2), LAMBDA e : TRUE)
(* A join again, after others or not. *)
JoinAgain(u_) == SubSeq(Join1(0), 1, 2) \o SubSeq(Join1(0), 7, 7)
           \o <<Join2(Tables[1], JConds[1]), Join2(Tables[2], JConds[1]), Join2(Tables[1], JConds[3]), Join3("LEFT JOIN", <<Tables[1], JConds[1]>>)>>
(* Trees of ON conditions: every combination of two and three comparisons,   *)
(* by function and by method.                                                *)
OnForms(l, x) == [i \in 1..4 |->
  LET f == IF i < 3 THEN "fn" ELSE "m"
      op == IF i % 2 = 1 THEN "AND" ELSE "OR"
  IN <<OnLog(f, op, l[1], x[1]), Cat(<<"(", l[2], " ", op, " ", x[2], ")">>)>>]
OnFlat(ls, xs) == FoldLeft(LAMBDA acc, l : acc \o FoldLeft(LAMBDA acc2, x : acc2 \o OnForms(l, x), <<>>, xs), <<>>, ls)
OnLeaves == <<<<on1, "\"t\".\"a\" = \"u\".\"b\"">>, <<on2, "\"c\" = \"d\"">>, <<on3, "\"e\" = \"f\"">>>>
OnTreeMenu(u_) ==
  LET two == TLCEval(OnFlat(OnLeaves, OnLeaves))
      few == TLCEval(OnFlat(SubSeq(OnLeaves, 1, 1), SubSeq(OnLeaves, 2, 2)))
      all == TLCEval(two \o OnFlat(two, SubSeq(OnLeaves, 3, 3)) \o OnFlat(SubSeq(OnLeaves, 3, 3), two) \o OnFlat(few, few))
  IN FoldLeft(LAMBDA acc, x : Append(acc, L(C("Join", <<Str("t"), x[1]>>), " INNER JOIN \"t\" ON " \o x[2])), <<>>, all)
     \o FoldLeft(LAMBDA acc, x : Append(acc, L(C("Join", <<JoinT("LEFT JOIN", Tab("t"), x[1])>>), " LEFT JOIN \"t\" ON " \o x[2])), <<>>, two)
     \o FoldLeft(LAMBDA acc, x : Append(acc, L(C("Join", <<Str("t"), Way(x[1], 1)>>), " INNER JOIN \"t\" ON " \o x[2])), <<>>, two)
SelStart == <<New("select", <<Str("a")>>)>>
SelHead == "SELECT \"a\""
NoTail == ""

-----------------------------------------------------------------------------
(* Comparisons (C17): the condition is the only WHERE. *)
Receivers == <<
  <<Id("x"), "\"x\"">>, <<Id("t.x"), "\"t\".\"x\"">>, <<CallT("lower", <<Id("x")>>), "lower(\"x\")">>,
  <<CallT("now", <<>>), "now()">>, <<Value(IntV("7")), "#">>, <<CallT("f", <<Value(Str("v")), Id("y")>>), "f(#, \"y\")">>>>
Infixes == <<
  <<"Equal", "=">>, <<"NotEqual", "!=">>, <<"LessThan", "<">>, <<"LessThanOrEqual", "<=">>, <<"GreaterThan", ">">>,
  <<"GreaterThanOrEqual", ">=">>, <<"Is", "IS">>, <<"IsNot", "IS NOT">>, <<"Like", "LIKE">>, <<"NotLike", "NOT LIKE">>, <<"ILike", "ILIKE">>,
  <<"NotILike", "NOT ILIKE">>, <<"IsDistinctFrom", "IS DISTINCT FROM">>, <<"IsNotDistinctFrom", "IS NOT DISTINCT FROM">>,
  <<"Contains", "@>">>, <<"IsContainedBy", "<@">>, <<"Overlap", "&&">>>>
Operands == <<
  <<IntV("1"), "#">>, <<Str(""), "#">>, <<Val("bool", "false"), "#">>, <<Nil, "NULL">>, <<Id("z"), "\"z\"">>, <<Raw("1 + 1"), "1 + 1">>,
  <<CallT("g", <<Nil, IntV("2")>>), No>>, <<CallT("g", <<Value(Nil), Value(IntV("2"))>>), "g(NULL, #)">>,
  <<Cmp(Id("i"), "Equal", IntV("3")), "(\"i\" = #)">>, <<ExT("Exists", Raw("SELECT 1")), "(EXISTS (SELECT 1))">>,
  <<[k |-> "slice", t |-> "[]int64", v |-> "[1,2]", p |-> "[1 2]", a |-> <<Val("int64", "1"), Val("int64", "2")>>], "#">>,
  <<BadT("main.plain"), No>>, <<BadT("*int"), No>>, <<Raw(""), No>>, <<Id(""), No>>, <<CallT("g", <<Raw("1"), Id("")>>), No>>>>
W(x, what) == L(C("Where", <<x>>), IF what = No THEN No ELSE " WHERE " \o what)
Three(x, m) == <<x, m>>
CmpOf(xm, a) == W(Cmp(xm[1][1], xm[2][1], a[1]), IF a[2] = No THEN No ELSE Cat(<<"(", xm[1][2], " ", xm[2][2], " ", a[2], ")">>))
(* The methods that a receiver has. *)
CallHas == {"Equal", "GreaterThan", "LessThan", "Like", "ILike", "In", "Overlap"}
ValueHas == {"Overlap", "Equal", "NotEqual", "Contains", "IsContainedBy"}
Has(xm) == CASE xm[1][1].k = "call" -> xm[2][1] \in CallHas [] xm[1][1].k = "value" -> xm[2][1] \in ValueHas [] OTHER -> TRUE
Receiving(ms) == SelectSeq(Product(Receivers, ms, Three), Has)
CmpMenu(u_) == Product(Receiving(Infixes), Operands, CmpOf)
(* Every type of slice that is a list of values, with one to three elements. *)
ListTypes == <<"string", "int", "uint", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", "float32", "float64", "[]uint8",
               "interface {}", "stmt.Expression">>
Sample(t, i) == CASE t = "string" -> Str(<<"", "b", "it's">>[i]) [] t = "bool" -> Val("bool", <<"false", "true", "false">>[i])
                  [] t \in {"float32", "float64"} -> Val(t, <<"0", "1.5", "-2">>[i]) [] t = "[]uint8" -> Val(t, <<"", "61", "0062">>[i])
                  [] t = "interface {}" -> <<IntV("3"), Str("x"), Val("bool", "true")>>[i]
                  [] t = "stmt.Expression" -> <<Value(IntV("4")), Raw("DEFAULT"), Id("z")>>[i]
                  [] OTHER -> Val(t, <<"0", "5", "7">>[i])
Shown1(t, i) == IF t = "stmt.Expression" THEN <<"#", "DEFAULT", "\"z\"">>[i] ELSE "#"
Samples(t, from, n) == [i \in 1..n |-> Sample(t, ((from + i - 2) % 3) + 1)]
ShownAll(t, from, n) == Join([i \in 1..n |-> Shown1(t, ((from + i - 2) % 3) + 1)], ", ")
TypedLists(F(_, _)) == FoldLeft(LAMBDA acc, t : acc \o [n \in 1..3 |-> F(<<Slice("[]" \o t, Samples(t, 1, n))>>, ShownAll(t, 1, n))], <<>>, ListTypes)
IntSlice(t, vs) == Slice(t, [i \in 1..Len(vs) |-> Val(SubSeq(t, 3, Len(t)), vs[i])])
Lists == <<
  <<<<>>, "">>, <<<<IntV("1")>>, "#">>, <<<<IntV("1"), Str("b"), Id("c")>>, "#, #, \"c\"">>, <<<<Nil>>, "">>, <<<<Nil, IntV("1")>>, "NULL, #">>,
  <<<<Raw("SELECT 1")>>, "SELECT 1">>,
  <<<<Slice("[]int", <<IntV("1"), IntV("2"), IntV("3")>>)>>, "#, #, #">>, <<<<Slice("[]string", <<Str("a")>>)>>, "#">>,
  <<<<Slice("[]string", <<>>)>>, "">>, <<<<IntSlice("[]uint16", <<"4", "5">>)>>, "#, #">>, <<<<IntSlice("[]float64", <<"1.5", "2">>)>>, "#, #">>,
  <<<<IntSlice("[]bool", <<"true", "false">>)>>, "#, #">>, <<<<BadT("main.plain")>>, No>>, <<<<IntV("1"), BadT("*int")>>, No>>,
  <<<<Raw("")>>, No>>, <<<<Id(""), IntV("1")>>, No>>, <<<<Slice("[]stmt.Expression", <<Id("y"), Raw("")>>)>>, No>>>>
InOf(xm, a) == W(InT(xm[1][1], xm[2][1], a[1]), IF a[2] = No THEN No ELSE Cat(<<"(", xm[1][2], " ", xm[2][2], " (", a[2], "))">>))
TypedIn == TypedLists(LAMBDA a, what : W(InT(Id("x"), "In", a), Cat(<<"(\"x\" IN (", what, "))">>)))
        \o TypedLists(LAMBDA a, what : W(InT(Id("x"), "NotIn", a), Cat(<<"(\"x\" NOT IN (", what, "))">>)))
        \o TypedLists(LAMBDA a, what : W(InT(CallT("f", <<>>), "In", a), Cat(<<"(f() IN (", what, "))">>)))
InMenu(u_) == TypedIn \o Product(Receiving(<<<<"In", "IN">>, <<"NotIn", "NOT IN">>>>), Lists, InOf)
BtwOf(xm, ab) == W(Btw(xm[1][1], xm[2][1], ab[1][1], ab[2][1]),
                   IF No \in {ab[1][2], ab[2][2]} THEN No
                   ELSE Cat(<<"(", xm[1][2], " ", xm[2][2], " ", ab[1][2], " AND ", ab[2][2], ")">>))
(* Bounds of one type, in any order or equal.                                *)
SameBounds == FoldLeft(LAMBDA acc, t : acc \o [n \in 1..9 |-> <<<<Sample(t, ((n - 1) \div 3) + 1), "#">>, <<Sample(t, ((n - 1) % 3) + 1), "#">>>>], <<>>,
                       SelectSeq(ListTypes, LAMBDA t : t # "stmt.Expression" /\ t # "interface {}"))
BtwMenu(u_) == Product(Receiving(<<<<"Between", "BETWEEN">>, <<"NotBetween", "NOT BETWEEN">>>>),
                   Product(Operands, Operands, LAMBDA a, b : <<a, b>>), BtwOf)
             \o Product(Receiving(<<<<"Between", "BETWEEN">>, <<"NotBetween", "NOT BETWEEN">>>>), SameBounds, BtwOf)
NullMenu(u_) == CatSegs([i \in 1..2 |-> <<
  W(IsNullT(Receivers[i][1], TRUE), Cat(<<"(", Receivers[i][2], " IS NULL)">>)),
  W(IsNullT(Receivers[i][1], FALSE), Cat(<<"(", Receivers[i][2], " IS NOT NULL)">>))>>])
            \o <<W(ExT("Exists", Raw("SELECT 1")), "(EXISTS (SELECT 1))"), W(ExT("NotExists", Raw("SELECT 1")), "(NOT EXISTS (SELECT 1))")>>
CompareMenu(u_) == CmpMenu(0) \o InMenu(0) \o BtwMenu(0) \o NullMenu(0)

(* Conditions composed with the constructors of stmt, which take any left    *)
(* side.                                                                     *)
Remade(e, n) == L(C(e.c.m, <<Way(e.c.args[1], n)>>), e.what)
RemadeAll(es, n) == FoldLeft(LAMBDA acc, e : Append(acc, Remade(e, n)), <<>>, es)
FnLeaves == <<<<Cmp(Way(Id("a"), 1), "Equal", Way(Raw("r"), 1)), "(\"a\" = r)">>, <<InT(Id("b"), "In", <<Way(Value(IntV("1")), 1), IntV("2")>>), "(\"b\" IN (#, #))">>,
              <<Way(Raw("c"), 1), "c">>>>
Both(op) == Product(FnLeaves, FnLeaves, LAMBDA a, b : <<IF op = "AND" THEN AndF(a[1], b[1]) ELSE OrF(a[1], b[1]), Cat(<<"(", a[2], " ", op, " ", b[2], ")">>)>>)
ComposedMenu(u_) ==
  LET two == TLCEval(Both("AND") \o Both("OR"))
  IN RemadeAll(Product(Product(Receivers, Infixes, Three), SubSeq(Operands, 1, 6), CmpOf), 1)
     \o RemadeAll(Product(Product(Receivers, <<<<"In", "IN">>, <<"NotIn", "NOT IN">>>>, Three), SubSeq(Lists, 1, 9), InOf), 1)
     \o RemadeAll(Product(Receiving(<<<<"Between", "BETWEEN">>, <<"NotBetween", "NOT BETWEEN">>>>), Product(SubSeq(Operands, 1, 6), SubSeq(Operands, 1, 6), LAMBDA a, b : <<a, b>>), BtwOf), 1)
     \o FoldLeft(LAMBDA acc, x : acc \o <<W(Way(x[1], 1), x[2]), W(Way(x[1], 2), x[2])>>, <<>>, two)
     \o FoldLeft(LAMBDA acc, x : acc \o <<W(Way(OrF(x[1], FnLeaves[1][1]), 1), Cat(<<"(", x[2], " OR ", FnLeaves[1][2], ")">>)),
                                            W(Way(AndF(FnLeaves[2][1], x[1]), 2), Cat(<<"(", FnLeaves[2][2], " AND ", x[2], ")">>))>>, <<>>, two)
     \o <<W(Way(ExT("Exists", Raw("SELECT 1")), 1), "(EXISTS (SELECT 1))"), W(Way(ExT("NotExists", Way(Raw("SELECT 1"), 1)), 1), "(NOT EXISTS (SELECT 1))")>>

(* The same conditions after WHERE p, for C08: none is lost, in any position. *)
Every(ms, n) == TLCEval([i \in 1..(Len(ms) \div n) |-> ms[i * n]])
SomeConds(u_) == TLCEval(Every(TLCEval(CmpMenu(0)), 7) \o Every(TLCEval(InMenu(0)), 2) \o Every(TLCEval(BtwMenu(0)), 29) \o NullMenu(0))
After(m, pre, post, e) == L(C(m, e.c.args), IF e.what = No THEN No ELSE Cat(<<pre, SubSeq(e.what, 8, Len(e.what)), post>>))
More(pre) == LET cs == SomeConds(0) IN [i \in 1..Len(cs) |-> After("And", pre \o " AND ", ")", cs[i])]
                                    \o [i \in 1..Len(cs) |-> After("Or", pre \o " OR ", ")", cs[i])]
                                    \o [i \in 1..Len(cs) |-> After("Where", pre \o " AND ", ")", cs[i])]
MoreMenu(u_) == LET cs == SelectSeq(SomeConds(0), LAMBDA e : e.c.args[1].k # "ex") IN More("(p") \o [i \in 1..Len(cs) |-> After("Having", "p HAVING ", "", cs[i])]
MoreOfUpdate(u_) == More("(p")
CondPrefix == <<<<0, New("select", <<Str("a")>>)>>, <<1, C("Where", <<Raw("p")>>)>>>>
CondHead == "SELECT \"a\" WHERE "
CondUpPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<Pair(Str("u"), Raw("v"))>>)>>, <<2, C("Where", <<Raw("p")>>)>>>>
CondUpHead == "UPDATE \"t\" SET \"u\" = v WHERE "
CondDelPrefix == <<<<0, New("delete", <<Str("t")>>)>>, <<1, C("Where", <<Raw("p")>>)>>>>
CondDelHead == "DELETE FROM \"t\" WHERE "

-----------------------------------------------------------------------------
(* LIMIT and OFFSET (C19) *)
IntTypes == <<"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64">>
Lims(m, k) ==
  LET w(v) == IF v = No THEN No ELSE IF v = "" THEN "" ELSE Cat(<<" ", k, " ", v>>)
      zero == IF m = "Offset" THEN "" ELSE No
      own(v) == IF m = "Limit" THEN Lim(v) ELSE Off(v)
      other(v) == IF m = "Limit" THEN Off(v) ELSE Lim(v)
  IN [i \in 1..10 |-> L(C(m, <<Val(IntTypes[i], "0")>>), w(zero))]
     \o [i \in 1..10 |-> L(C(m, <<Val(IntTypes[i], "127")>>), w("127"))]
     \o [i \in 1..5 |-> L(C(m, <<Val(IntTypes[i], "-1")>>), No)]
     \o << L(C(m, <<Val("uint64", "9223372036854775807")>>), w("9223372036854775807")), L(C(m, <<Val("uint64", "9223372036854775808")>>), No),
           L(C(m, <<Val("uint64", "18446744073709551615")>>), No), L(C(m, <<Val("uint", "9223372036854775808")>>), No),
           L(C(m, <<Val("uint", "18446744073709551615")>>), No), L(C(m, <<Val("int64", "9223372036854775807")>>), w("9223372036854775807")),
           L(C(m, <<Val("int64", "-9223372036854775808")>>), No), L(C(m, <<Val("uint32", "4294967295")>>), w("4294967295")),
           L(C(m, <<Val("int32", "-2147483648")>>), No), L(C(m, <<Val("uint8", "255")>>), w("255")), L(C(m, <<Val("uint16", "65535")>>), w("65535")),
           L(C(m, <<Val("int", "4294967296")>>), w("4294967296")), L(C(m, <<Val("uint32", "2147483648")>>), w("2147483648")),
           L(C(m, <<Str("10")>>), w("10")), L(C(m, <<Str("0")>>), w(zero)), L(C(m, <<Str("-1")>>), No), L(C(m, <<Str("")>>), No),
           L(C(m, <<Str(" 10")>>), No), L(C(m, <<Str("10 ")>>), No), L(C(m, <<Str("1.0")>>), No), L(C(m, <<Str("1e3")>>), No), L(C(m, <<Str("0x10")>>), No),
           L(C(m, <<Str("1_000")>>), No), L(C(m, <<Str("ALL")>>), No), L(C(m, <<Str("10; DROP TABLE x")>>), No),
           L(C(m, <<Str("+7")>>), w("7")), L(C(m, <<Str("007")>>), w("7")), L(C(m, <<Str("-0")>>), w(zero)),
           L(C(m, <<Str("9223372036854775807")>>), w("9223372036854775807")), L(C(m, <<Str("9223372036854775808")>>), No),
           L(C(m, <<Str("18446744073709551617")>>), No), L(C(m, <<Str("-9223372036854775809")>>), No),
           L(C(m, <<own("42")>>), w("42")), L(C(m, <<Way(own("43"), 1)>>), w("43")), L(C(m, <<own("0")>>), w(zero)), L(C(m, <<own("-3")>>), No), L(C(m, <<other("42")>>), No),
           L(C(m, <<Nil>>), No), L(C(m, <<Val("float64", "1")>>), No), L(C(m, <<Val("float32", "2.5")>>), No), L(C(m, <<Val("bool", "true")>>), No),
           L(C(m, <<Val("[]uint8", "31")>>), No), L(C(m, <<Raw("10")>>), No), L(C(m, <<Id("x")>>), No),
           L(C(m, <<BadT("main.namedInt")>>), No), L(C(m, <<BadT("*int")>>), No), L(C(m, <<BadT("uintptr")>>), No)>>
(* Every string of up to three of these characters, and strings around 2^63. *)
NumChars == <<"0", "1", "9", "-", "+", ".", "e", " ", "_", "x">>
OneNum(u_) == [i \in 1..Len(NumChars) |-> NumChars[i]]
TwoNum(u_) == Product(OneNum(0), OneNum(0), LAMBDA a, b : a \o b)
ThreeNum(u_) == Product(TLCEval(TwoNum(0)), OneNum(0), LAMBDA a, b : a \o b)
Long63 == Product(<<"9223372036854775800", "922337203685477580", "9223372036854775807", "-922337203685477580", "0922337203685477580">>,
                  <<"", "0", "6", "7", "8", "9", ".5", ".0", "e0", " ", "_", "x", "00">>, LAMBDA a, b : a \o b)
Read_(s, zero) ==
  LET neg == Ch(s, 1) = "-"
      ds == IF Ch(s, 1) \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
      allds == ds # "" /\ \A i \in 1..Len(ds) : Ch(ds, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
      sig == {i \in 1..Len(ds) : Ch(ds, i) # "0"}
      num == IF sig = {} THEN "" ELSE SubSeq(ds, CHOOSE i \in sig : \A j \in sig : i <= j, Len(ds))
      small == Len(num) < 19 \/ (Len(num) = 19 /\ (num = "9223372036854775807" \/ (SubSeq(num, 1, 18) = "922337203685477580" /\ Ch(num, 19) \in {"0", "6", "7"})))
  IN IF ~allds THEN No ELSE IF num = "" THEN zero ELSE IF neg \/ ~small THEN No ELSE num
NumberStrings(m, k) ==
  FoldLeft(LAMBDA acc, s : Append(acc, LET v == Read_(s, IF m = "Offset" THEN "" ELSE No) IN L(C(m, <<Str(s)>>), IF v = No \/ v = "" THEN v ELSE Cat(<<" ", k, " ", v>>))),
           <<>>, TLCEval(OneNum(0) \o TwoNum(0) \o ThreeNum(0) \o Long63))
LimitStrings(u_) == NumberStrings("Limit", "LIMIT")
OffsetStrings(u_) == NumberStrings("Offset", "OFFSET")
LimitMenu(u_) == Lims("Limit", "LIMIT")
OffsetMenu(u_) == Lims("Offset", "OFFSET")

-----------------------------------------------------------------------------
(* ON CONFLICT (C26), after INSERT INTO "t" ("a") VALUES ($1) *)
InsPrefix == <<<<0, New("insert", <<Str("t")>>)>>, <<1, C("Columns", <<Str("a")>>)>>, <<2, C("Values", <<IntV("1")>>)>>>>
RetPrefix == InsPrefix \o <<<<3, C("Returning", <<Str("r"), Raw("s + 1")>>)>>>>
RetTail == " RETURNING \"r\", s + 1"
InsHead == "INSERT INTO \"t\" (\"a\") VALUES (#)"
u1 == Pair(Str("u"), IntV("1"))
u2 == Pair(Col("u"), Str("x"))
v1 == Pair(Str("b.v"), Nil)
subq == Pair(Str("w"), Raw("DEFAULT"))
OC(args, what) == L(C("OnConflict", args), IF what = No THEN No ELSE " ON CONFLICT " \o what)
Targets == <<<<<<>>, "">>, <<<<Str("a"), Col("b"), Str("c"), Col("d")>>, "(\"a\", \"b\", \"c\", \"d\") ">>,
             <<<<Str("q"), Str("w"), Str("e"), Str("r"), Str("t"), Str("y"), Str("u")>>, "(\"q\", \"w\", \"e\", \"r\", \"t\", \"y\", \"u\") ">>, <<<<Str("k")>>, "(\"k\") ">>, <<<<Col("k"), Str("s.m")>>, "(\"k\", \"s\".\"m\") ">>, <<<<Str(" k ")>>, "(\"k\") ">>,
             <<<<Str("k"), Str("k"), Col("A")>>, "(\"k\", \"k\", \"A\") ">>>>
Actions == <<
  <<<<DoNothing>>, "DO NOTHING", FALSE>>, <<<<Way(DoNothing, 1)>>, "DO NOTHING", FALSE>>, <<<<DoUpdate(<<u1>>)>>, "DO UPDATE SET \"u\" = #", TRUE>>,
  <<<<DoUpdate(<<u1, u2>>)>>, "DO UPDATE SET \"u\" = #", TRUE>>, <<<<DoUpdate(<<u1, v1, subq>>)>>, "DO UPDATE SET \"b\".\"v\" = NULL, \"u\" = #, \"w\" = DEFAULT", TRUE>>,
  <<<<DoUpdate(<<MapT(<<u1, v1>>)>>)>>, "DO UPDATE SET \"b\".\"v\" = NULL, \"u\" = #", TRUE>>,
  <<<<DoUpdate(<<MapS(<<v1>>), u2>>)>>, "DO UPDATE SET \"b\".\"v\" = NULL, \"u\" = #", TRUE>>,
  <<<<DoUpdate(<<>>)>>, No, TRUE>>, <<<<DoUpdate(<<MapT(<<>>)>>)>>, No, TRUE>>,
  <<<<DoUpdate(<<Pair(Str(""), IntV("1"))>>)>>, No, TRUE>>,
  <<<<>>, No, FALSE>>, <<<<IntV("1")>>, No, FALSE>>, <<<<Nil>>, No, FALSE>>, <<<<Raw("x")>>, No, FALSE>>, <<<<Str(" ")>>, No, FALSE>>>>
ConflictMenu(u_) == Product(Targets, Actions,
  LAMBDA t, a : OC(t[1] \o a[1], IF a[2] = No \/ (a[3] /\ t[1] = <<>>) THEN No ELSE t[2] \o a[2]))
  (* Nothing may follow the action. *)
  \o Product(SubSeq(Actions, 1, 6), <<<<Str("k")>>, <<Col("k")>>, <<DoNothing>>, <<DoUpdate(<<u1>>)>>, <<Nil>>, <<IntV("1")>>>>,
             LAMBDA a, x : OC(<<Str("k")>> \o a[1] \o x, No))

-----------------------------------------------------------------------------
(* Rows (C13) after INSERT INTO "t" ("c1", "c2") *)
RowPrefix == <<<<0, New("insert", <<Str("t")>>)>>, <<1, C("Columns", <<Str("c1, c2")>>)>>>>
RowHead == "INSERT INTO \"t\" (\"c1\", \"c2\")"
V(args, what) == L(C("Values", args), IF what = No THEN No ELSE " VALUES " \o what)
Cells == <<<<IntV("0"), "#">>, <<Str(""), "#">>, <<Val("bool", "false"), "#">>, <<Val("[]uint8", ""), "#">>, <<Nil, "NULL">>, <<Raw("DEFAULT"), "DEFAULT">>,
           <<Id("x"), "\"x\"">>, <<CallT("now", <<>>), "now()">>, <<ExT("Exists", Raw("SELECT 1")), "(EXISTS (SELECT 1))">>, <<BadT("struct {}"), No>>, <<Raw(""), No>>>>
Two(u_) == Product(Cells, Cells, LAMBDA a, b : <<a, b>>)
TwoOf(x) == V(<<x[1][1], x[2][1]>>, IF No \in {x[1][2], x[2][2]} THEN No ELSE Cat(<<"(", x[1][2], ", ", x[2][2], ")">>))
RowsOf(x, y) == V(<<Rows("[][]interface {}", <<<<x[1][1], x[2][1]>>, <<y[1][1], y[2][1]>>>>)>>,
                  IF No \in {x[1][2], x[2][2], y[1][2], y[2][2]} THEN No
                  ELSE Cat(<<"(", x[1][2], ", ", x[2][2], "), (", y[1][2], ", ", y[2][2], ")">>))
(* Every type of rows, with rows of the same length or not. *)
RowShapes == <<<<1>>, <<3>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>, <<1, 2, 3>>, <<2, 2, 2, 1>>>>
RowsFor(t, shape) ==
  V(<<Rows("[][]" \o t, [i \in 1..Len(shape) |-> Samples(t, i, shape[i])])>>,
    Join([i \in 1..Len(shape) |-> Cat(<<"(", ShownAll(t, i, shape[i]), ")">>)], ", "))
TypedRows(u_) == Product(<<"string", "int", "int64", "bool", "interface {}", "stmt.Expression">>, RowShapes, RowsFor)
             \o TypedLists(LAMBDA a, what : V(a, Cat(<<"(", what, ")">>)))
RowMenu(u_) == TypedRows(0) \o [i \in 1..Len(Two(0)) |-> TwoOf(Two(0)[i])]
  \o Product(SubSeq(Two(0), 1, 40), SubSeq(Two(0), 12, 60), RowsOf)
  \o << V(<<>>, No), V(<<Nil>>, "(NULL)"), V(<<Rows("[][]interface {}", <<>>)>>, No),
        V(<<Rows("[][]string", <<<<Str("a"), Str("")>>, <<Str("c"), Str("d")>>>>)>>, "(#, #), (#, #)"),
        V(<<Rows("[][]string", <<<<Str("a")>>, <<Str("b")>>, <<Str("a")>>, <<Str("a")>>>>)>>, "(#), (#), (#), (#)"),
        V(<<Rows("[][]int", <<<<IntV("0"), IntV("0")>>, <<IntV("0"), IntV("0")>>, <<IntV("0"), IntV("0")>>>>)>>, "(#, #), (#, #), (#, #)"),
        V(<<Rows("[][]int", <<<<IntV("1"), IntV("0")>>>>)>>, "(#, #)"),
        V(<<Rows("[][]int64", <<<<Val("int64", "1")>>, <<Val("int64", "2")>>, <<Val("int64", "3")>>>>)>>, "(#), (#), (#)"),
        V(<<Rows("[][]bool", <<<<Val("bool", "true"), Val("bool", "false")>>>>)>>, "(#, #)"),
        V(<<Rows("[][]stmt.Expression", <<<<Raw("DEFAULT"), Value(IntV("1"))>>>>)>>, "(DEFAULT, #)"),
        V(<<Rows("[][]int", <<<<IntV("1")>>>>), IntV("2")>>, No),
        V(<<Slice("[]string", <<Str("a"), Str("b")>>)>>, "(#, #)"), V(<<Slice("[]int", <<IntV("1"), IntV("2"), IntV("3")>>)>>, "(#, #, #)"),
        V(<<Slice("[]interface {}", <<IntV("1"), Nil, Str("x")>>)>>, "(#, NULL, #)"),
        V(<<Slice("[]bool", <<Val("bool", "false")>>)>>, "(#)")>>

-----------------------------------------------------------------------------
(* Select lists, DISTINCT ON, GROUP BY, ORDER BY, RETURNING (C24) *)
Items_ == <<
  <<Str("a"), "\"a\"">>, <<Str(" b , t.c"), "\"b\", \"t\".\"c\"">>, <<Col("d"), "\"d\"">>, <<ColAs("t.e", "f"), "\"t\".\"e\" AS \"f\"">>,
  <<Raw("1 + 1"), "1 + 1">>, <<Agg("COUNT", "*", FALSE, ""), "COUNT(*)">>, <<Agg("COUNT", "x", TRUE, "n"), "COUNT(DISTINCT x) AS n">>,
  <<Agg("MIN", "x", FALSE, "m"), "MIN(x) AS m">>, <<Agg("MAX", "x", FALSE, ""), "MAX(x)">>, <<Agg("SUM", "x", FALSE, "s"), "SUM(x) AS s">>,
  <<Agg("MAX", "x", FALSE, "x"), "MAX(x) AS x">>, <<Agg("COUNT", "x", TRUE, "x"), "COUNT(DISTINCT x) AS x">>, <<ColAs("a", "a"), "\"a\" AS \"a\"">>, <<ColAs("t.e", "e"), "\"t\".\"e\" AS \"e\"">>,
  <<Way(Agg("COUNT", "x", TRUE, "n"), 2), "COUNT(DISTINCT x) AS n">>, <<Way(Agg("COUNT", "y", FALSE, "n"), 1), "COUNT(y) AS n">>,
  <<Way(Agg("SUM", "x", FALSE, "s"), 1), "SUM(x) AS s">>, <<Way(ColAs("t.e", "f"), 1), "\"t\".\"e\" AS \"f\"">>, <<Way(ColAs("e", "f"), 2), "\"e\" AS \"f\"">>,
  <<ExT("Exists", Raw("SELECT 1")), "EXISTS (SELECT 1)">>, <<Str(""), No>>, <<Str("a,,b"), No>>, <<Str(" "), No>>, <<Col(""), No>>,
  <<IntV("1"), No>>, <<Nil, No>>, <<Agg("MAX", "", FALSE, ""), No>>>>
ColItems == SelectSeq(Items_, LAMBDA x : x[1].k \in {"val", "col", "nil"})
Glue2(a, b) == IF No \in {a[2], b[2]} THEN No ELSE Cat(<<a[2], ", ", b[2]>>)
ListOf(m, pre, post, its) ==
  [i \in 1..Len(its) |-> L(C(m, <<its[i][1]>>), IF its[i][2] = No THEN No ELSE Cat(<<pre, its[i][2], post>>))]
  \o Product(its, its, LAMBDA a, b : L(C(m, <<a[1], b[1]>>), IF Glue2(a, b) = No THEN No ELSE Cat(<<pre, Glue2(a, b), post>>)))
  \o << L(C(m, <<Slice("[]string", <<Str("a"), Str("t.b")>>)>>), Cat(<<pre, "\"a\", \"t\".\"b\"", post>>)),
        L(C(m, <<ColsT(<<Col("a"), Col("b")>>)>>), Cat(<<pre, "\"a\", \"b\"", post>>)) >>
ReturnMenu(u_) == ListOf("Returning", " RETURNING ", "", Items_)
GroupMenu(u_) == ListOf("GroupBy", " GROUP BY ", "", SelectSeq(ColItems, LAMBDA x : x[1].k # "col" \/ x[1].as = ""))
ColumnMenu(u_) == ListOf("Columns", "SELECT ", "", Items_) \o <<L(C("Columns", <<>>), "SELECT *")>> 
OnMenu(u_) == ListOf("DistinctOn", "SELECT DISTINCT ON (", ") \"a\"", SelectSeq(ColItems, LAMBDA x : x[1].k # "col" \/ x[1].as = ""))
BareSelect == <<New("newselect", <<>>)>>
Nothing == ""
DelPrefix == <<<<0, New("delete", <<Str("t")>>)>>>>
DelHead == "DELETE FROM \"t\""
Orders_ == <<
  <<OrderT("a", "ASC"), "a ASC">>, <<OrderT("t.b", "DESC"), "t.b DESC">>, <<OrderT("c", ""), "c ASC">>, <<AscT(Col("d")), "d ASC">>,
  <<DescT(Col("t.e")), "t.e DESC">>, <<DescT(ColAs("f", "g")), "g DESC">>, <<AscT(ColAs("h", "i")), "i ASC">>, <<DescT(ColAs("t.f", "g")), "g DESC">>, <<AscT(Way(ColAs("t.h", "i"), 1)), "i ASC">>,
  <<Way(OrderT("z", ""), 1), "z ASC">>, <<DescT(Way(Col("z"), 3)), "z DESC">>, <<OrderT("z", "DESC"), "z DESC">>, <<AscT(Col("y")), "y ASC">>>>
FirstOrders(u_) == Product(Orders_, Orders_, LAMBDA a, b : L(C("OrderBy", <<a[1], b[1]>>), Cat(<<" ORDER BY ", a[2], ", ", b[2]>>)))
               \o [i \in 1..Len(Orders_) |-> L(C("OrderBy", <<Orders_[i][1]>>), " ORDER BY " \o Orders_[i][2])]
MoreOrders(u_) == [i \in 1..Len(Orders_) |-> L(C("OrderBy", <<Orders_[i][1]>>), ", " \o Orders_[i][2])] \o <<L(C("OrderBy", <<>>), "")>>
(* After one ORDER BY, the next ones are added to it. *)
OrderPrefix == <<<<0, New("select", <<Str("a")>>)>>, <<1, C("OrderBy", <<OrderT("z", "DESC"), AscT(Col("y"))>>)>>>>
OrderHead == "SELECT \"a\" ORDER BY z DESC, y ASC"

-----------------------------------------------------------------------------
(* Tables: FROM, INTO, USING, UPDATE (C09, C11, C20) *)
Froms == <<<<Str("t"), "\"t\"">>, <<Str("s.t"), "\"s\".\"t\"">>, <<Tab("t"), "\"t\"">>, <<TabAs("t", "x"), "\"t\" AS \"x\"">>, <<TabOnly("t"), "ONLY \"t\"">>,
           <<Way(TabAs("t", "x"), 1), "\"t\" AS \"x\"">>, <<Way(TabAs("s.t", "x"), 3), "\"s\".\"t\" AS \"x\"">>, <<Way(TabOnly("t"), 1), "ONLY \"t\"">>,
           <<Str(""), No>>, <<Tab(""), No>>, <<IntV("1"), No>>, <<Nil, No>>, <<Col("t"), No>>, <<Id("t"), No>>>>
RawFrom == <<<<Raw("f(1)"), "f(1)">>, <<Raw(""), No>>, <<FromT(<<Tab("p")>>), "\"p\"">>>>
FromMenu(u_) == LET its == Froms \o RawFrom
            IN [i \in 1..Len(its) |-> L(C("From", <<its[i][1]>>), IF its[i][2] = No THEN No ELSE " FROM " \o its[i][2])]
               \o Product(its, its, LAMBDA a, b : L(C("From", <<a[1], b[1]>>), IF Glue2(a, b) = No THEN No ELSE " FROM " \o Glue2(a, b)))
               \o <<L(C("From", <<>>), No)>>
UsingMenu(u_) == [i \in 1..Len(Froms) |-> L(C("Using", <<Froms[i][1]>>), IF Froms[i][2] = No THEN No ELSE " USING " \o Froms[i][2])]
             \o Product(Froms, Froms, LAMBDA a, b : L(C("Using", <<a[1], b[1]>>), IF Glue2(a, b) = No THEN No ELSE " USING " \o Glue2(a, b)))
=============================================================================
