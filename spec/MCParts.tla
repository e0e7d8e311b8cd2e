------------------------------ MODULE MCParts -------------------------------
(* Parts of statements one after the other on one context (C27): every       *)
(* sequence of at most MaxOps parts of a menu.  Each part comes with the     *)
(* text it leaves, cut at the values it binds.                               *)
EXTENDS Parts, Terms, Json, CSV, IOUtils

CONSTANTS Menu(_), MaxOps

VARIABLE seq
OutFile == IOEnv.OUT

(* The builders that parts refer to. *)
Before == <<
  <<0, New("select", <<Str("a")>>)>>, <<1, C("Where", <<Cmp(Id("x"), "Equal", IntV("11"))>>)>>,
  <<0, New("delete", <<Str("t")>>)>>, <<3, C("Where", <<InT(Id("y"), "In", <<IntV("12"), IntV("13")>>)>>)>>,
  <<0, New("update", <<Str("u")>>)>>, <<5, C("Set", <<Pair(Str("s"), IntV("14"))>>)>>>>
RECURSIVE Made(_, _)
Made(ops, ps) ==
  IF ops = <<>> THEN ps
  ELSE LET h == Head(ops)[1]
           o == Head(ops)[2]
       IN Made(Tail(ops), Append(ps, IF h = 0 THEN Start(o.kind, BuildAll(o.args, ps)) ELSE Apply(ps[h], o.m, BuildAll(o.args, ps))))
ASSUME TLCSet(42, TLCEval(Made(Before, <<>>)))
Pool == TLCGet(42)

(* p: the part; t: its text around the values v it binds; none: is it empty? *)
P_(p, t, v) == [p |-> p, t |-> t, v |-> v, none |-> FALSE]
None_(p) == [p |-> p, t |-> <<"">>, v |-> <<>>, none |-> TRUE]
Stm(e) == [k |-> "stm", e |-> e]
Txt(v) == [k |-> "txt", v |-> v]
Cl(c, a) == [k |-> "cl", c |-> c, a |-> a]
Cnd(c, e, a) == [k |-> "cnd", c |-> c, e |-> e, a |-> a]
Lnk(op, e) == [k |-> "lnk", op |-> op, e |-> e]

one == Cmp(Id("a"), "Equal", IntV("1"))
two == Btw(Id("b"), "Between", IntV("2"), IntV("3"))
Several(u_) == <<
  P_(Txt(" "), <<" ">>, <<>>), P_(Txt("/* $1 :arg_1 %d */"), <<"/* $1 :arg_1 %d */">>, <<>>), None_(Txt("")),
  P_(Stm(one), <<"(\"a\" = ", ")">>, <<IntV("1")>>), P_(Stm(two), <<"(\"b\" BETWEEN ", " AND ", ")">>, <<IntV("2"), IntV("3")>>),
  P_(Stm(InT(Id("c"), "NotIn", <<Str("x"), Str("y")>>)), <<"(\"c\" NOT IN (", ", ", "))">>, <<Str("x"), Str("y")>>),
  P_(Stm(OrM(one, Raw("r"))), <<"((\"a\" = ", ") OR r)">>, <<IntV("1")>>),
  P_(Stm(ExT("NotExists", Bld(2))), <<"NOT EXISTS (SELECT \"a\" WHERE (\"x\" = ", "))">>, <<IntV("11")>>),
  P_(Stm(CallT("f", <<Value(IntV("4")), Bld(1)>>)), <<"f(", ", (SELECT \"a\"))">>, <<IntV("4")>>),
  P_(Stm(Value(Str("v"))), <<"", "">>, <<Str("v")>>), P_(Stm(Raw("now()")), <<"now()">>, <<>>), P_(Stm(Id("i.j")), <<"\"i\".\"j\"">>, <<>>),
  P_(Stm(ColAs("c.d", "e")), <<"\"c\".\"d\" AS \"e\"">>, <<>>), P_(Stm(TabAs("t", "u")), <<"\"t\" AS \"u\"">>, <<>>), P_(Stm(TabOnly("t")), <<"ONLY \"t\"">>, <<>>),
  P_(Stm(Agg("COUNT", "x", TRUE, "n")), <<"COUNT(DISTINCT x) AS n">>, <<>>),
  P_(Stm(OnT("a.b", "c.d")), <<"\"a\".\"b\" = \"c\".\"d\"">>, <<>>),
  P_(Stm(JoinT("LEFT JOIN", Tab("j"), AndM(OnT("a", "b"), OnT("c", "d")))), <<"LEFT JOIN \"j\" ON (\"a\" = \"b\" AND \"c\" = \"d\")">>, <<>>),
  P_(Stm(JoinT("INNER JOIN", TabAs("j", "k"), one)), <<"INNER JOIN \"j\" AS \"k\" ON (\"a\" = ", ")">>, <<IntV("1")>>),
  P_(Stm(DescT(ColAs("a", "b"))), <<"b DESC">>, <<>>), None_(Stm(OrderT("", "DESC"))),
  P_(Stm(Lim("7")), <<"LIMIT 7">>, <<>>), None_(Stm(Lim("0"))), P_(Stm(Off("8")), <<"OFFSET 8">>, <<>>), None_(Stm(Off("0"))),
  P_(Stm(Pre("EXPLAIN")), <<"EXPLAIN">>, <<>>), None_(Stm(Pre(""))), P_(Stm(Suf(" FOR UPDATE ")), <<" FOR UPDATE ">>, <<>>), None_(Stm(Suf(""))),
  P_(Stm(FromT(<<Tab("f"), Raw("g(1)")>>)), <<"FROM \"f\", g(1)">>, <<>>), P_(Stm(IntoT(TabAs("i", "k"))), <<"INTO \"i\" AS \"k\"">>, <<>>),
  P_(Stm(WithT("w", Bld(2))), <<"w AS (SELECT \"a\" WHERE (\"x\" = ", "))">>, <<IntV("11")>>), None_(Stm(WithT("", Raw("SELECT 1")))),
  P_(Stm(Bld(1)), <<"SELECT \"a\"">>, <<>>), P_(Stm(Bld(2)), <<"SELECT \"a\" WHERE (\"x\" = ", ")">>, <<IntV("11")>>),
  P_(Stm(Bld(4)), <<"DELETE FROM \"t\" WHERE (\"y\" IN (", ", ", "))">>, <<IntV("12"), IntV("13")>>),
  P_(Stm(Bld(6)), <<"UPDATE \"u\" SET \"s\" = ", "">>, <<IntV("14")>>),
  P_(Cl("OrderBy", <<OrderT("a", "DESC"), AscT(Col("b"))>>), <<"ORDER BY a DESC, b ASC">>, <<>>), None_(Cl("OrderBy", <<>>)),
  P_(Cl("GroupBy", <<Col("g"), Col("h.i")>>), <<"GROUP BY \"g\", \"h\".\"i\"">>, <<>>),
  P_(Cl("DistinctOn", <<Col("g"), Col("h")>>), <<"DISTINCT ON (\"g\", \"h\")">>, <<>>), None_(Cl("DistinctOn", <<>>)),
  P_(Cl("Using", <<Tab("k"), TabAs("l", "m")>>), <<"USING \"k\", \"l\" AS \"m\"">>, <<>>), None_(Cl("Using", <<>>)),
  P_(Cl("Returning", <<Col("r"), Agg("MAX", "x", FALSE, ""), Raw("1")>>), <<"RETURNING \"r\", MAX(x), 1">>, <<>>),
  P_(Cl("With", <<WithT("w", Bld(2)), WithT("z", Bld(2))>>),
     <<"WITH w AS (SELECT \"a\" WHERE (\"x\" = ", ")), z AS (SELECT \"a\" WHERE (\"x\" = ", "))">>, <<IntV("11"), IntV("11")>>),
  None_(Cl("With", <<>>)), P_(Cl("Comment", <<Str("a\nb")>>), <<"-- a b">>, <<>>), None_(Cl("Comment", <<Str("")>>)),
  P_(Cl("Set", <<Pair(Str("b"), IntV("5")), MapT(<<Pair(Str("a"), Str("z"))>>), Pair(Str("b"), IntV("6"))>>),
     <<"SET \"a\" = ", ", \"b\" = ", "">>, <<Str("z"), IntV("6")>>),
  P_(Cnd("Where", one, <<>>), <<"WHERE (\"a\" = ", ")">>, <<IntV("1")>>),
  P_(Cnd("Having", two, <<Lnk("AND", one)>>), <<"HAVING ((\"b\" BETWEEN ", " AND ", ") AND (\"a\" = ", "))">>, <<IntV("2"), IntV("3"), IntV("1")>>) >>

-----------------------------------------------------------------------------
(* Where and Having extended by And and Or, with conditions of every sort.   *)
(* A leaf: its term, its text on its own, and between parentheses if it has  *)
(* to be there.                                                              *)
Leaf(e, where, having, v) == [e |-> e, where |-> where, having |-> having, v |-> v]
Leaves == <<
  Leaf(one, <<"(\"a\" = ", ")">>, <<"(\"a\" = ", ")">>, <<IntV("1")>>),
  Leaf(Raw("r"), <<"r">>, <<"r">>, <<>>),
  Leaf(ExT("Exists", Raw("SELECT 1")), <<"(EXISTS (SELECT 1))">>, <<"EXISTS (SELECT 1)">>, <<>>),
  Leaf(Bld(2), <<"(SELECT \"a\" WHERE (\"x\" = ", "))">>, <<"(SELECT \"a\" WHERE (\"x\" = ", "))">>, <<IntV("11")>>),
  Leaf(AndM(one, Raw("s")), <<"((\"a\" = ", ") AND s)">>, <<"((\"a\" = ", ") AND s)">>, <<IntV("1")>>),
  Leaf(InT(Id("c"), "In", <<Str("x"), Str("y")>>), <<"(\"c\" IN (", ", ", "))">>, <<"(\"c\" IN (", ", ", "))">>, <<Str("x"), Str("y")>>) >>
(* Texts cut at values, glued. *)
Glue(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)
Around(a, l, r) == Glue(Glue(<<l>>, a), <<r>>)
RECURSIVE ChainText(_, _)
ChainText(t, links) == IF links = <<>> THEN t
                       ELSE ChainText(Around(Glue(Glue(t, <<Cat(<<" ", Head(links)[1], " ">>)>>), Head(links)[2]), "(", ")"), Tail(links))
RECURSIVE ChainVals(_)
ChainVals(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls).v \o ChainVals(Tail(ls))
OpAt == <<"AND", "OR">>
LeafSeqs == UNION {[1..n -> 1..Len(Leaves)] : n \in 1..3}
OpSeqs(n) == [1..n -> {1, 2}]
Chained == {<<c, s, o>> : c \in {"Where", "Having"}, s \in LeafSeqs, o \in OpSeqs(2)}
ChainOf(x) ==
  LET c == x[1]
      s == [i \in 1..Len(x[2]) |-> Leaves[x[2][i]]]
      text(i) == IF c = "Where" THEN s[i].where ELSE s[i].having
  IN P_(Cnd(c, s[1].e, [i \in 1..(Len(s) - 1) |-> Lnk(OpAt[x[3][i]], s[i + 1].e)]),
        Around(ChainText(text(1), [i \in 1..(Len(s) - 1) |-> <<OpAt[x[3][i]], text(i + 1)>>]), IF c = "Where" THEN "WHERE " ELSE "HAVING ", ""),
        ChainVals(s))
Chains(u_) == LET q == SetToSeq({x \in Chained : \A i \in 1..2 : i < Len(x[2]) \/ x[3][i] = 1}) IN [i \in 1..Len(q) |-> ChainOf(q[i])]

-----------------------------------------------------------------------------
ASSUME TLCSet(41, TLCEval(Menu(0)))
Nth(i) == TLCGet(41)[i]
Init == seq = <<>>
Next == Len(seq) < MaxOps /\ \E i \in 1..Len(TLCGet(41)) : seq' = Append(seq, i)
Spec == Init /\ [][Next]_seq

Given == [i \in 1..Len(seq) |-> Nth(seq[i]).p]
Segs == PartsSegs(Given, Pool)
Shown == [parts |-> Given, text |-> QueryText(Segs), empty |-> Empties(Given, Pool)]

(* The texts one after the other, with the placeholders numbered through.    *)
RECURSIVE Filled(_, _, _)
Filled(t, mark, k) == IF Len(t) = 1 THEN t[1] ELSE Cat(<<t[1], mark, ToString(k), Filled(Tail(t), mark, k + 1)>>)
AllText == FoldLeft(Glue, <<"">>, [i \in 1..Len(seq) |-> Nth(seq[i]).t])
AllVals == CatSegs([i \in 1..Len(seq) |-> Nth(seq[i]).v])
Concatenated ==
  /\ QueryText(Segs) = Filled(AllText, "$", 1)
  /\ NamedText_(Segs) = Filled(AllText, ":arg_", 1)
  /\ [i \in 1..Len(ArgsOf(Segs)) |-> <<ArgsOf(Segs)[i].t, ArgsOf(Segs)[i].v>>] = [i \in 1..Len(AllVals) |-> <<AllVals[i].t, AllVals[i].v>>]
NothingWhenEmpty == \A i \in 1..Len(seq) : LET x == Nth(seq[i]) IN PartEmpty(x.p, Pool) = x.none /\ (x.none => QueryText(PartSegs(x.p, Pool)) = "")

ArgsJson(segs) == LET a == ArgsOf(segs) IN [i \in 1..Len(a) |-> [t |-> a[i].t, v |-> a[i].v]]
BeforeOps == [j \in 1..Len(Before) |-> LET h == Before[j][1]
                                           o == Before[j][2]
                                       IN IF h = 0 THEN [op |-> "new", kind |-> o.kind, args |-> o.args, ok |-> TRUE]
                                          ELSE [op |-> "call", h |-> h, m |-> o.m, args |-> o.args, ok |-> TRUE]]
Export == seq = <<>> \/
  CSVWrite("%1$s", <<ToJson([ev |-> BeforeOps \o <<[op |-> "parts", parts |-> Given, xempty |-> Empties(Given, Pool), xq |-> QueryText(Segs),
                                                    xn |-> NamedText_(Segs), xs |-> RawText(Segs), xargs |-> ArgsJson(Segs)]>>])>>, OutFile)
=============================================================================
