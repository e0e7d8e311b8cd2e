------------------------------ MODULE MCGroup -------------------------------
(* Conditions: their grouping (C07) and their presence (C08).                *)
EXTENDS Theorems

p == Raw("p")
q == IsNullT(Id("q"), TRUE)
r == Btw(Id("r"), "Between", IntV("1"), IntV("2"))
s == Raw("s")
Conds == <<
  p, q, r,
  AndF(p, q), OrF(q, s), OrM(q, s), AndM(q, OrF(r, s)),
  OrF(AndF(p, s), q), AndM(OrM(q, p), OrF(s, AndF(p, q))),
  OrF(p, OrM(q, AndF(r, s)))>>
Undefined == <<Nil, Raw(""), Id("")>>
Given(ms, cs) == TLCEval([i \in 1..(Len(ms) * Len(cs)) |-> C(ms[((i - 1) \div Len(cs)) + 1], <<cs[((i - 1) % Len(cs)) + 1]>>)])
Few == <<p, AndF(p, q), OrM(q, s), r>>

WhereCalls(u_) == Given(<<"Where", "And", "Or">>, Conds)
FewCalls(u_) == Given(<<"Where", "And", "Or">>, Few)
HavingCalls(u_) == Given(<<"Having", "Where", "And", "Or">>, Few)
(* Other clauses between conditions, and conditions that are undefined. *)
Others == <<C("From", <<Str("f")>>), C("Comment", <<Str("c")>>), C("Returning", <<Str("ret")>>), C("Set", <<Pair(Str("u"), IntV("3"))>>),
            C("Limit", <<IntV("3")>>), C("GroupBy", <<Str("g")>>), C("Columns", <<Str("x")>>), C("With", <<WithT("w", Raw("SELECT 1"))>>),
            C("Using", <<Str("us")>>), C("Only", <<>>), C("Join", <<Str("j ON a = b")>>)>>
LossCalls(u_) == Given(<<"Where", "And", "Or", "Having">>, <<p, OrF(q, s)>>) \o Given(<<"Where", "And", "Or", "Having">>, Undefined) \o Others
(* Trees: every combination of two and three conditions of four sorts, and   *)
(* of four conditions of two sorts, by function and by method.               *)
listed == InT(Id("i"), "In", <<IntV("4"), IntV("5")>>)
HasMethods(x) == x.k \in {"log", "isnull", "in", "cmp"}
Forms(l, r_) == <<AndF(l, r_), OrF(l, r_)>> \o (IF HasMethods(l) THEN <<AndM(l, r_), OrM(l, r_)>> ELSE <<>>)
Flat2(ls, rs) == FoldLeft(LAMBDA acc, l : acc \o FoldLeft(LAMBDA acc2, x : acc2 \o Forms(l, x), <<>>, rs), <<>>, ls)
Sorts4 == <<p, q, r, listed>>
Sorts2 == <<q, listed>>
LeftTrees(u_) ==
  LET two == TLCEval(Flat2(Sorts4, Sorts4))
      all == TLCEval(two \o Flat2(two, Sorts4))
  IN Given(<<"Where">>, all)
RightTrees(u_) ==
  LET two == TLCEval(Flat2(Sorts4, Sorts4))
      all == TLCEval(Flat2(Sorts4, two))
  IN Given(<<"Where">>, all)
(* Two and three conditions of every sort, of different names.               *)
Leaves(n) == <<
  <<Cmp(Id("a" \o n), "Equal", IntV("1")), Cat(<<"\"a", n, "\" = #">>)>>, <<InT(Id("b" \o n), "In", <<IntV("4"), IntV("5")>>), Cat(<<"\"b", n, "\" IN ( #, # )">>)>>,
  <<InT(Id("c" \o n), "NotIn", <<IntV("6")>>), Cat(<<"\"c", n, "\" NOT IN ( # )">>)>>, <<Btw(Id("d" \o n), "NotBetween", IntV("1"), IntV("2")), Cat(<<"\"d", n, "\" NOT BETWEEN # AND #">>)>>,
  <<IsNullT(Id("e" \o n), FALSE), Cat(<<"\"e", n, "\" IS NOT NULL">>)>>, <<ExT("Exists", Raw("f" \o n)), Cat(<<"EXISTS ( f", n, " )">>)>>,
  <<Cmp(CallT("g" \o n, <<>>), "LessThan", Raw("h")), Cat(<<"g", n, " ( ) < h">>)>>, <<Raw("i" \o n), "i" \o n>>,
  <<ExT("NotExists", Raw("j" \o n)), Cat(<<"NOT EXISTS ( j", n, " )">>)>>, <<IsNullT(Id("k" \o n), TRUE), Cat(<<"\"k", n, "\" IS NULL">>)>>,
  <<Btw(Id("l" \o n), "Between", IntV("1"), IntV("2")), Cat(<<"\"l", n, "\" BETWEEN # AND #">>)>>,
  <<Cmp(Id("m" \o n), "NotEqual", Str("")), Cat(<<"\"m", n, "\" != #">>)>>>>
AllLeaves == TLCEval(Leaves("1") \o Leaves("2") \o Leaves("3"))
LeafTerms(n) == LET ls == Leaves(n) IN [i \in 1..Len(ls) |-> ls[i][1]]
PairTrees(u_) ==
  LET two == TLCEval(Flat2(LeafTerms("1"), LeafTerms("2")))
      few == TLCEval(SubSeq(LeafTerms("3"), 1, 2))
  IN Given(<<"Where">>, TLCEval(two \o Flat2(two, few) \o Flat2(few, two)))
(* Conditions of every sort, one call after the other.                       *)
LeafCalls(u_) == Given(<<"Where", "And", "Or">>, LeafTerms("1")) \o Given(<<"And", "Or">>, LeafTerms("2"))
FourTrees(u_) ==
  LET duo   == TLCEval(Flat2(Sorts2, Sorts2))
      three == TLCEval(Flat2(<<q>>, duo) \o Flat2(duo, <<listed>>))
      all   == TLCEval(Flat2(duo, duo) \o Flat2(three, <<q>>) \o Flat2(<<listed>>, three))
  IN Given(<<"Where">>, all)
AllStarts == <<New("select", <<Str("a")>>), New("update", <<Str("t")>>), New("newdelete", <<>>)>>
SelectStart == <<New("select", <<Str("a")>>)>>
NoPrefix == <<>>
NoStarts == <<>>
SelectPrefix == <<<<0, New("select", <<Str("a")>>)>>>>
UpdatePrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<Pair(Str("u"), IntV("3"))>>)>>>>
DeletePrefix == <<<<0, New("delete", <<Str("t")>>)>>>>
From_ == IF MaxNew = 0 THEN 1 ELSE 2 \* the first call of hist

-----------------------------------------------------------------------------
(* How PostgreSQL reads a condition: OR binds less than AND, both associate  *)
(* to the left, parentheses group, and the AND of a BETWEEN is not a         *)
(* connective.  Parse gives the tree of a text.                              *)
IsWordEnd(c) == c = " " \/ c = "(" \/ c = ")" \/ c = ";"
RECURSIVE TokenEnd(_, _)
TokenEnd(t, i) == IF i > Len(t) \/ IsWordEnd(Ch(t, i)) THEN i - 1 ELSE TokenEnd(t, i + 1)
RECURSIVE TokensFrom(_, _)
TokensFrom(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET c == Ch(t, i)
       IN IF c = " " \/ c = ";" THEN TokensFrom(t, i + 1)
          ELSE IF c = "(" \/ c = ")" THEN <<c>> \o TokensFrom(t, i + 1)
          ELSE LET e == TokenEnd(t, i) IN <<SubSeq(t, i, e)>> \o TokensFrom(t, e + 1)

Word1(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE "END"
(* Each parser returns <<tree, next>>. *)
RECURSIVE ParseOr(_, _), ParseAnd(_, _), ParsePrim(_, _), OrRest(_, _), AndRest(_, _), AtomRest(_, _, _, _)
ParseOr(ts, i) == OrRest(ts, ParseAnd(ts, i))
OrRest(ts, l) == IF Word1(ts, l[2]) = "OR"
                 THEN LET x == ParseAnd(ts, l[2] + 1) IN OrRest(ts, <<[op |-> "OR", l |-> l[1], r |-> x[1]], x[2]>>)
                 ELSE l
ParseAnd(ts, i) == AndRest(ts, ParsePrim(ts, i))
AndRest(ts, l) == IF Word1(ts, l[2]) = "AND"
                  THEN LET x == ParsePrim(ts, l[2] + 1) IN AndRest(ts, <<[op |-> "AND", l |-> l[1], r |-> x[1]], x[2]>>)
                  ELSE l
ParsePrim(ts, i) ==
  IF Word1(ts, i) = "(" THEN LET x == ParseOr(ts, i + 1)
                            IN IF Word1(ts, x[2]) = ")" THEN <<x[1], x[2] + 1>> ELSE <<[op |-> "unbalanced"], Len(ts) + 2>>
  ELSE AtomRest(ts, i, <<>>, FALSE)
AtomRest(ts, i, acc, between) ==
  LET w == Word1(ts, i)
  IN IF w = "(" /\ acc # <<>> THEN LET e == CHOOSE j \in i..Len(ts) : ts[j] = ")" /\ \A k \in i..(j - 1) : ts[k] # ")"
                                   IN AtomRest(ts, e + 1, acc \o SubSeq(ts, i, e), between) \* the list of IN
     ELSE IF w \in {"(", ")", "OR", "END"} \/ (w = "AND" /\ ~between) THEN <<[op |-> "atom", v |-> Join(acc, " ")], i>>
     ELSE AtomRest(ts, i + 1, Append(acc, w), w = "BETWEEN" \/ (between /\ w # "AND"))
Parse(t) == LET ts == TokensFrom(t, 1)
                x  == ParseOr(ts, 1)
            IN IF x[2] = Len(ts) + 1 THEN x[1] ELSE [op |-> "not a condition"]

(* What the calls built. *)
Atom(v) == [op |-> "atom", v |-> v]
RECURSIVE TreeOf(_)
TreeOf(c) == CASE c.k = "log" -> [op |-> c.op, l |-> TreeOf(c.l), r |-> TreeOf(c.r)]
               [] c = q -> Atom("\"q\" IS NULL")
               [] c = r -> Atom("\"r\" BETWEEN # AND #")
               [] c = listed -> Atom("\"i\" IN ( #, # )")
               [] \E i \in 1..Len(AllLeaves) : AllLeaves[i][1] = c -> Atom(AllLeaves[CHOOSE i \in 1..Len(AllLeaves) : AllLeaves[i][1] = c][2])
               [] OTHER -> Atom(c.v)
NoTree == [op |-> "none"]
RECURSIVE Built(_, _)
Built(j, t) ==
  IF j > Len(hist) THEN t
  ELSE LET c == CallAt(hist[j][2])
       IN Built(j + 1, IF c.m \notin {"Where", "And", "Or"} THEN t
                       ELSE IF t = NoTree THEN TreeOf(c.args[1])
                       ELSE [op |-> IF c.m = "Or" THEN "OR" ELSE "AND", l |-> t, r |-> TreeOf(c.args[1])])
RECURSIVE BuiltHaving(_)
BuiltHaving(j) == IF j > Len(hist) THEN NoTree
                  ELSE IF CallAt(hist[j][2]).m = "Having" THEN TreeOf(CallAt(hist[j][2]).args[1]) ELSE BuiltHaving(j + 1)
Anonymous(segs) == Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN "#" ELSE segs[i].s])

Grouping == Live =>
  /\ Newest.where.k # "nil" => Parse(Anonymous(Render(Newest.where))) = Built(From_, NoTree)
  /\ "having" \in DOMAIN Newest /\ Newest.having.k # "nil" => Parse(Anonymous(Render(Newest.having))) = BuiltHaving(From_)

-----------------------------------------------------------------------------
(* C08 *)
IsUndefined(c) == c \in {Nil, Raw(""), Id("")}
RECURSIVE AtomsIn(_)
AtomsIn(t) == IF t.op = "atom" THEN <<t.v>> ELSE IF t.op \in {"AND", "OR"} THEN AtomsIn(t.l) \o AtomsIn(t.r) ELSE <<>>
CountIn(ss, x) == Cardinality({i \in 1..Len(ss) : ss[i] = x})
(* Every atom given appears as often as it was given. *)
Present ==
  Renders_ =>
    LET all   == CatSegs([j \in 1..(Len(hist) + 1 - From_) |->
                   LET c == CallAt(hist[j - 1 + From_][2]) IN IF c.m \in {"Where", "And", "Or", "Having"} THEN AtomsIn(TreeOf(c.args[1])) ELSE <<>>])
        names == {"\"q\" IS NULL", "\"r\" BETWEEN # AND #"}
        words == TokensFrom(Anonymous(Segs), 1)
    IN /\ \A n \in names : Occ(Anonymous(Segs), n) = CountIn(all, n)
       /\ \A n \in {"p", "s"} : Cardinality({i \in 1..Len(words) : words[i] = n}) = CountIn(all, n)
(* ... and undefined conditions are refused. *)
NeverDropped == hist # <<>> /\ hist[Len(hist)][1] # 0 =>
  LET c == CallAt(hist[Len(hist)][2])
  IN c.m \in {"Where", "And", "Or", "Having"} =>
       /\ IsUndefined(c.args[1]) => dead
       /\ c.m \in {"And", "Or"} /\ (\A j \in From_..(Len(hist) - 1) : CallAt(hist[j][2]).m # "Where") => dead
       /\ dead => \/ IsUndefined(c.args[1])
                  \/ c.m \in {"And", "Or"} /\ (\A j \in From_..(Len(hist) - 1) : CallAt(hist[j][2]).m # "Where")
                  \/ c.m = "Having" /\ \E j \in From_..(Len(hist) - 1) : CallAt(hist[j][2]).m = "Having"
=============================================================================
