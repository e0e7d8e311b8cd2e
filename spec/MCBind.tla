------------------------------- MODULE MCBind -------------------------------
(* Where bound values go: every entry of a menu says which values its call   *)
(* binds and the rank of its clause (C01, C02, C03).  The arguments of a     *)
(* statement are those of its calls, clause by clause.                       *)
EXTENDS Theorems
CONSTANT Menu(_)

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> m_[i].c]
NoStarts == <<>>

(* c: call; vals: what it binds; rank of its clause; key: what a later call  *)
(* with the same one replaces (pairs of SET); "" if it accumulates.          *)
V(c, rank, vals) == [c |-> c, rank |-> rank, vals |-> vals, key |-> ""]
K(c, rank, key, vals) == [c |-> c, rank |-> rank, vals |-> vals, key |-> key]

(* b1 .. b4: a subquery that binds s1 and 2.                                 *)
Sub == <<<<0, New("select", <<Str("x")>>)>>, <<1, C("From", <<Str("y")>>)>>, <<2, C("Where", <<Cmp(Id("z"), "Equal", Str("s1"))>>)>>,
         <<3, C("Having", <<Cmp(CallT("count", <<Raw("*")>>), "GreaterThan", IntV("2"))>>)>>>>
sub == <<Str("s1"), IntV("2")>>
SelectPrefix == Sub \o <<<<0, New("select", <<Str("c"), ExT("Exists", Bld(4))>>)>>>>
UpdatePrefix == Sub \o <<<<0, New("update", <<Str("t")>>)>>, <<5, C("Set", <<Pair(Str("m"), Str("first"))>>)>>>>
ListPrefix   == Sub \o <<<<0, New("update", <<Str("t")>>)>>, <<5, C("Set", <<Str("m"), Col("k")>>)>>, <<6, C("Using", <<Str("it's"), IntV("7")>>)>>>>
ManyDelPrefix == Sub \o <<<<0, New("delete", <<Str("t")>>)>>, <<5, C("Where", <<Raw("true")>>)>>>>
InsertPrefix == Sub \o <<<<0, New("insert", <<Str("t")>>)>>>>
DeletePrefix == Sub \o <<<<0, New("delete", <<Str("t")>>)>>>>

quote == Str("'; $1 :arg_1 --")
zero == IntV("0")
I64(v) == Val("int64", v)
yes == Val("bool", "true")
bytes == Val("[]uint8", "00ff")
big == Val("uint64", "18446744073709551615")
many == [i \in 1..260 |-> IF i = 256 THEN Str("x") ELSE IntV(ToString(i))]
Conds == <<
  <<Cmp(Id("a"), "Equal", quote), <<quote>>>>,
  <<InT(Id("b"), "In", <<IntV("11"), Nil, Raw("r"), Str("")>>), <<IntV("11"), Str("")>>>>,
  <<InT(Id("b"), "NotIn", <<Slice("[]int", <<IntV("4"), IntV("5")>>)>>), <<IntV("4"), IntV("5")>>>>,
  <<InT(Id("b"), "In", <<>>), <<>>>>,
  <<InT(Id("b"), "In", <<IntV("6"), IntV("6"), Str("%d"), Str("%d")>>), <<IntV("6"), IntV("6"), Str("%d"), Str("%d")>>>>,
  <<InT(Id("b"), "In", <<Slice("[]string", <<Str("u"), Str("u")>>)>>), <<Str("u"), Str("u")>>>>,
  <<InT(Id("b"), "NotIn", <<Slice("[]int64", <<Val("int64", "8"), Val("int64", "8")>>)>>), <<Val("int64", "8"), Val("int64", "8")>>>>,
  <<Cmp(Id("g"), "Like", Str("plain")), <<Str("plain")>>>>, <<Cmp(Id("g%d"), "ILike", Str("12-3")), <<Str("12-3")>>>>,
  <<AndF(Raw("h % 2 = 1"), Cmp(Id("%s"), "IsDistinctFrom", IntV("9"))), <<IntV("9")>>>>, <<Cmp(Id("g"), "NotILike", Str("50%s")), <<Str("50%s")>>>>,
  <<Btw(Id("d"), "Between", zero, Bld(4)), <<zero>> \o sub>>,
  <<AndF(ExT("NotExists", Bld(4)), OrM(Cmp(Id("e"), "NotEqual", bytes), Cmp(Id("f"), "Is", yes))), sub \o <<bytes, yes>>>>,
  <<Cmp(CallT("f", <<Raw("1"), Value(Str("in call")), CallT("g", <<Value(zero)>>)>>), "LessThan", Str("after")),
    <<Str("in call"), zero, Str("after")>>>>,
  <<Cmp(Value(Str("left")), "Equal", Value(Nil)), <<Str("left")>>>>,
  <<Cmp(Id("n"), "Equal", big), <<big>>>>>>
Given(ms, rank) == FoldLeft(LAMBDA acc, m : acc \o [i \in 1..Len(Conds) |-> V(C(m, <<Conds[i][1]>>), rank, Conds[i][2])], <<>>, ms)
SelectMenu(u_) ==
  <<V(C("With", <<WithT("w1", Bld(4)), WithT("w2", CallT("f", <<Value(Str("cte"))>>))>>), 1, sub \o <<Str("cte")>>),
    V(C("From", <<Raw("generate(1)")>>), 2, <<>>),
    V(C("Join", <<Str("j ON a = b")>>), 2, <<>>),
    V(C("Limit", <<IntV("3")>>), 9, <<>>), V(C("Suffix", <<Str("FOR UPDATE ")>>), 9, <<>>), V(C("Suffix", <<Suf("UNION SELECT 1\n")>>), 9, <<>>),
    V(C("Prefix", <<Str(" EXPLAIN  ")>>), 9, <<>>), V(C("Comment", <<Str("note")>>), 9, <<>>)>>
  \o Given(<<"Where", "Or">>, 3) \o [i \in 1..3 |-> V(C("Having", <<Conds[i][1]>>), 4, Conds[i][2])]
SelectExtra == <<sub>>                               \* of the select list, between WITH and WHERE
UpdateMenu(u_) ==
  <<V(C("With", <<WithT("w", Bld(4))>>), 1, sub),
    K(C("Set", <<Pair(Str("m"), quote)>>), 2, "m", <<quote>>),
    K(C("Set", <<Pair(Col("m"), Nil)>>), 2, "m", <<>>),
    K(C("Set", <<Pair(Str("a"), Bld(4))>>), 2, "a", sub),
    K(C("Set", <<MapT(<<Pair(Str("z"), CallT("f", <<Value(zero), Raw("q")>>))>>)>>), 2, "z", <<zero>>),
    K(C("Set", <<Pair(Str("b"), Raw("b + 1"))>>), 2, "b", <<>>),
    V(C("From", <<Raw("generate(1)")>>), 3, <<>>),
    V(C("Returning", <<Str("c"), ExT("Exists", Bld(4))>>), 5, sub), V(C("Comment", <<Str("note")>>), 9, <<>>)>>
  \o Given(<<"Where", "And">>, 4)
UpdateStart == <<<<"m", <<Str("first")>>>>>>
ListMenu(u_) ==
  <<V(C("Using", <<quote, Nil, bytes>>), 2, <<quote, bytes>>), V(C("Using", <<Bld(4), CallT("f", <<Value(zero)>>)>>), 2, sub \o <<zero>>),
    V(C("Set", <<Str("n")>>), 9, <<>>), V(C("With", <<WithT("w", Bld(4))>>), 1, sub)>> \o Given(<<"Where">>, 4)
InsertMenu(u_) ==
  <<V(C("Columns", <<Str("a"), Str("b")>>), 9, <<>>),
    V(C("Values", <<quote, Nil, zero, Bld(4), Raw("DEFAULT"), CallT("f", <<Value(yes)>>)>>), 2, <<quote, zero>> \o sub \o <<yes>>),
    V(C("Values", <<Rows("[][]interface {}", <<<<IntV("1"), Str("")>>, <<Nil, bytes>>, <<Bld(4), Raw("r")>>>>)>>), 2,
      <<IntV("1"), Str(""), bytes>> \o sub),
    V(C("Values", <<Slice("[]int", <<IntV("1"), IntV("2")>>)>>), 2, <<IntV("1"), IntV("2")>>),
    V(C("Values", <<Rows("[][]int64", <<<<I64("1"), I64("1")>>, <<I64("-1"), I64("9223372036854775807")>>>>)>>), 2, <<I64("1"), I64("1"), I64("-1"), I64("9223372036854775807")>>),
    V(C("Values", <<Rows("[][]string", <<<<Str("1"), Str("")>>, <<Str(" "), Str("$1")>>>>)>>), 2, <<Str("1"), Str(""), Str(" "), Str("$1")>>),
    V(C("Set", <<Pair(Str("z"), zero), MapT(<<Pair(Str("a"), quote), Pair(Str("m"), Bld(4))>>)>>), 2, <<quote>> \o sub \o <<zero>>),
    V(C("OnConflict", <<Str("k"), DoUpdate(<<Pair(Str("y"), bytes), Pair(Str("x"), Bld(4)), Pair(Str("w"), Raw("1"))>>)>>), 3, sub \o <<bytes>>),
    V(C("OnConflict", <<DoNothing>>), 9, <<>>),
    V(C("Returning", <<ExT("Exists", Bld(4)), Str("c")>>), 4, sub)>>
(* So many values that a byte does not hold their number.                   *)
ManyInserted(u_) == <<V(C("Values", many), 2, many)>>
ManyCompared(u_) == <<V(C("Where", <<InT(Id("n"), "In", many)>>), 4, many), V(C("And", <<InT(Id("n"), "NotIn", <<Slice("[]int", SubSeq(many, 1, 255))>>)>>), 4, SubSeq(many, 1, 255))>>
DeleteMenu(u_) ==
  <<V(C("Using", <<Str("u"), Tab("v")>>), 9, <<>>), V(C("Returning", <<Str("c"), ExT("Exists", Bld(4))>>), 5, sub)>> \o Given(<<"Where", "Or">>, 4)

-----------------------------------------------------------------------------
Ranks == 1..5
Steps == [j \in 1..Len(hist) |-> MenuAt(hist[j][2])]
OfRank(s, r) == CatSegs([j \in 1..Len(s) |-> IF s[j].rank = r /\ s[j].key = "" THEN s[j].vals ELSE <<>>])
(* SET, sorted by key, last value.                                           *)
Keys == <<"a", "b", "m", "z">>
LastOfKey(s, key) ==
  LET js == {j \in 1..Len(s) : s[j].key = key}
  IN IF js # {} THEN s[CHOOSE j \in js : \A i \in js : i <= j].vals
     ELSE IF key = "m" /\ pool[Len(pool)].kind = "update" /\ pool[Len(pool)].set.mode = "assoc" THEN <<Str("first")>> ELSE <<>>
Pairs == LET s == Steps IN CatSegs([i \in 1..4 |-> LastOfKey(s, Keys[i])])
List_ == IF pool[Len(pool)].kind = "update" /\ pool[Len(pool)].set.mode = "list" THEN <<Str("it's"), IntV("7")>> ELSE <<>>
Wanted == LET s == Steps
              list == IF Newest.kind = "select" THEN sub ELSE <<>>
          IN OfRank(s, 1) \o list \o Pairs \o List_ \o OfRank(s, 2) \o OfRank(s, 3) \o OfRank(s, 4) \o OfRank(s, 5)
BoundInOrder == Renders_ =>
  LET args == ArgsOf(Segs)
      want == Wanted
  IN Len(args) = Len(want) /\ \A i \in 1..Len(args) : args[i].t = want[i].t /\ args[i].v = want[i].v
=============================================================================
