------------------------------- MODULE MCSub --------------------------------
(* Subqueries and CTEs: a SELECT, a SELECT that has a subquery, and the      *)
(* builders that are none, in every position that takes an expression (C18). *)
EXTENDS Theorems
CONSTANTS Menu(_), Head_, Mid_

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
NoStarts == <<>>
No == "<panic>"
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> m_[i].c]
Anonymous(segs) == Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN "#" ELSE segs[i].s])
Product(as, bs, F(_, _)) ==
  FoldLeft(LAMBDA acc, x : acc \o FoldLeft(LAMBDA acc2, y : Append(acc2, F(x, y)), <<>>, bs), <<>>, as)

Base == <<
  <<0, New("select", <<Str("s")>>)>>, <<1, C("From", <<Str("t")>>)>>, <<2, C("Where", <<Cmp(Id("x"), "Equal", IntV("7"))>>)>>,
  <<0, New("select", <<Str("o")>>)>>, <<4, C("Where", <<InT(Id("y"), "In", <<Bld(3)>>)>>)>>, <<5, C("Limit", <<IntV("2")>>)>>,
  <<0, New("insert", <<Str("i")>>)>>, <<0, New("delete", <<Str("d")>>)>>, <<0, New("update", <<Str("u")>>)>>>>
SelPrefix == Base \o <<<<0, New("select", <<Str("a")>>)>>>>
UpdPrefix == Base \o <<<<0, New("update", <<Str("t")>>)>>>>
DelPrefix == Base \o <<<<0, New("delete", <<Str("t")>>)>>>>
InsPrefix == Base \o <<<<0, New("insert", <<Str("t")>>)>>, <<10, C("Columns", <<Str("c1, c2")>>)>>>>
ConPrefix == Base \o <<<<0, New("insert", <<Str("t")>>)>>>>
SelHead == "SELECT \"a\""
UpdHead == "UPDATE \"t\" SET "
DelHead == "DELETE FROM \"t\""
InsHead == "INSERT INTO \"t\" (\"c1\", \"c2\") VALUES "
ConHead == "INSERT INTO \"t\" ON CONFLICT (\"k\") DO UPDATE SET "
Where_ == " WHERE "
None == ""

(* argument, text with parentheses, text without, values *)
S3 == "SELECT \"s\" FROM \"t\" WHERE (\"x\" = #)"
S6 == "SELECT \"o\" WHERE (\"y\" IN (SELECT \"s\" FROM \"t\" WHERE (\"x\" = #))) LIMIT 2"
Par(s) == IF s = No THEN No ELSE Cat(<<"(", s, ")">>)
Subs == <<
  <<Bld(3), S3, <<"7">>>>, <<BldStmt(3), S3, <<"7">>>>, <<Bld(6), S6, <<"7">>>>, <<BldStmt(6), S6, <<"7">>>>, <<Bld(1), "SELECT \"s\"", <<>>>>,
  <<Bld(7), No, <<>>>>, <<Bld(8), No, <<>>>>, <<Bld(9), No, <<>>>>>>
(* Statements are expressions for Go, builders are not. *)
Typed == SelectSeq(Subs, LAMBDA s : s[1].k = "bs")
Ok == SelectSeq(Subs, LAMBDA s : s[2] # No)
Glue(ss) == IF \E i \in 1..Len(ss) : ss[i] = No THEN No ELSE Cat(ss)

(* part: with, set, where; what: text; vals: values it binds *)
E(c, part, what, vals) == [c |-> c, part |-> part, what |-> what, vals |-> vals]
Cond(x, what, vals) == E(C("Where", <<x>>), "where", what, vals)
One(s) == <<
  Cond(Cmp(Id("p"), "Equal", s[1]), Glue(<<"(\"p\" = ", Par(s[2]), ")">>), s[3]),
  Cond(Cmp(Id("p"), "IsDistinctFrom", s[1]), Glue(<<"(\"p\" IS DISTINCT FROM ", Par(s[2]), ")">>), s[3]),
  Cond(Cmp(Id("p"), "Overlap", s[1]), Glue(<<"(\"p\" && ", Par(s[2]), ")">>), s[3]),
  Cond(Cmp(Value(Str("v")), "Equal", s[1]), Glue(<<"(# = ", Par(s[2]), ")">>), <<"v">> \o s[3]),
  Cond(InT(Id("p"), "In", <<s[1]>>), Glue(<<"(\"p\" IN ", Par(s[2]), ")">>), s[3]),
  Cond(InT(Id("p"), "NotIn", <<s[1]>>), Glue(<<"(\"p\" NOT IN ", Par(s[2]), ")">>), s[3]),
  Cond(InT(CallT("lower", <<Id("p")>>), "In", <<s[1]>>), Glue(<<"(lower(\"p\") IN ", Par(s[2]), ")">>), s[3]),
  Cond(InT(Id("p"), "In", <<IntV("1"), s[1], IntV("2")>>), Glue(<<"(\"p\" IN (#, ", Par(s[2]), ", #))">>), <<"1">> \o s[3] \o <<"2">>),
  Cond(Btw(Id("p"), "Between", IntV("1"), s[1]), Glue(<<"(\"p\" BETWEEN # AND ", Par(s[2]), ")">>), <<"1">> \o s[3]),
  Cond(Btw(Id("p"), "NotBetween", s[1], IntV("1")), Glue(<<"(\"p\" NOT BETWEEN ", Par(s[2]), " AND #)">>), s[3] \o <<"1">>),
  Cond(ExT("Exists", s[1]), Glue(<<"(EXISTS ", Par(s[2]), ")">>), s[3]),
  Cond(ExT("NotExists", s[1]), Glue(<<"(NOT EXISTS ", Par(s[2]), ")">>), s[3])>>
Two(s, t) == <<
  Cond(AndF(ExT("Exists", s[1]), Cmp(Id("p"), "Equal", t[1])), Glue(<<"(EXISTS ", Par(s[2]), " AND (\"p\" = ", Par(t[2]), "))">>), s[3] \o t[3]),
  Cond(Btw(Id("p"), "Between", s[1], t[1]), Glue(<<"(\"p\" BETWEEN ", Par(s[2]), " AND ", Par(t[2]), ")">>), s[3] \o t[3])>>
WithOf(s) == E(C("With", <<WithT("w", s[1])>>), "with", Glue(<<"w AS ", Par(s[2])>>), s[3])
With2(s, t) == E(C("With", <<WithT("w", s[1]), WithT("v (a, b)", t[1])>>), "with", Glue(<<"w AS ", Par(s[2]), ", v (a, b) AS ", Par(t[2])>>), s[3] \o t[3])
Flatten(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Map_(ss, F(_)) == FoldLeft(LAMBDA acc, x : Append(acc, F(x)), <<>>, ss)
Calls_ == <<
  Cond(Cmp(Id("p"), "Equal", CallT("f", <<BldStmt(3), Value(IntV("9"))>>)), Cat(<<"(\"p\" = f(", Par(S3), ", #))">>), <<"7", "9">>),
  Cond(Cmp(CallT("g", <<BldStmt(6)>>), "GreaterThan", IntV("3")), Cat(<<"(g(", Par(S6), ") > #)">>), <<"7", "3">>)>>
(* Conditions come first in a repeated Where: one WHERE, joined by AND.      *)
CondMenu(u_) == Flatten(Map_(Subs, One)) \o Calls_ \o Flatten(Product(Subs, Ok, Two))
WithMenu(u_) == Map_(Subs, WithOf) \o Product(Ok, Ok, With2)
SetOf(s) == E(C("Set", <<Pair(Str("m"), s[1])>>), "set", Glue(<<"\"m\" = ", Par(s[2])>>), s[3])
FewConds(u_) == Flatten(Map_(SubSeq(Subs, 2, 3), One))
MixMenu(u_) == FewConds(0) \o Map_(SubSeq(Subs, 3, 6), WithOf) \o <<With2(Subs[1], Subs[4])>>
UpdMenu(u_) == MixMenu(0) \o Map_(Subs, SetOf)
RowOf(s, t) == E(C("Values", <<s[1], t[1]>>), "set", Glue(<<"(", Par(s[2]), ", ", Par(t[2]), ")">>), s[3] \o t[3])
Rows_(s, t) == E(C("Values", <<Rows("[][]interface {}", <<<<s[1], IntV("1")>>, <<Str("x"), t[1]>>>>)>>), "set",
                 Glue(<<"(", Par(s[2]), ", #), (#, ", Par(t[2]), ")">>), s[3] \o <<"1", "x">> \o t[3])
RowMenu(u_) == Product(Subs, Subs, RowOf) \o Product(Subs, Subs, Rows_)
ConOf(s, t) == E(C("OnConflict", <<Str("k"), DoUpdate(<<Pair(Str("b"), s[1]), Pair(Col("a"), t[1])>>)>>), "set",
                 Glue(<<"\"a\" = ", Par(t[2]), ", \"b\" = ", Par(s[2])>>), t[3] \o s[3])
ConMenu(u_) == Product(Subs, Subs, ConOf)

(* Subqueries as conditions and operands of conditions, in ON, HAVING, and   *)
(* in the list of Using: always between parentheses, once.                   *)
eqv == Cmp(Id("p"), "Equal", IntV("1"))
inv == InT(Id("q"), "In", <<IntV("2"), IntV("3")>>)
ConditionsOf(s) == <<
  <<s[1], Par(s[2]), s[3]>>,
  <<AndF(s[1], eqv), Cat(<<"(", Par(s[2]), " AND (\"p\" = #))">>), s[3] \o <<"1">>>>, <<OrF(eqv, s[1]), Cat(<<"((\"p\" = #) OR ", Par(s[2]), ")">>), <<"1">> \o s[3]>>,
  <<AndM(inv, s[1]), Cat(<<"((\"q\" IN (#, #)) AND ", Par(s[2]), ")">>), <<"2", "3">> \o s[3]>>, <<OrM(inv, s[1]), Cat(<<"((\"q\" IN (#, #)) OR ", Par(s[2]), ")">>), <<"2", "3">> \o s[3]>>,
  <<AndM(eqv, s[1]), Cat(<<"((\"p\" = #) AND ", Par(s[2]), ")">>), <<"1">> \o s[3]>>, <<OrF(s[1], s[1]), Cat(<<"(", Par(s[2]), " OR ", Par(s[2]), ")">>), s[3] \o s[3]>>,
  <<Way(Cmp(s[1], "LessThan", s[1]), 1), Cat(<<"(", Par(s[2]), " < ", Par(s[2]), ")">>), s[3] \o s[3]>>,
  <<Way(InT(s[1], "NotIn", <<IntV("4"), s[1]>>), 1), Cat(<<"(", Par(s[2]), " NOT IN (#, ", Par(s[2]), "))">>), s[3] \o <<"4">> \o s[3]>>,
  <<OrF(AndF(inv, s[1]), ExT("NotExists", s[1])), Cat(<<"(((\"q\" IN (#, #)) AND ", Par(s[2]), ") OR NOT EXISTS ", Par(s[2]), ")">>), <<"2", "3">> \o s[3] \o s[3]>>>>
AsCondition(m, part) == Flatten(Map_(SelectSeq(Typed, LAMBDA s : s[2] # No), LAMBDA s : Map_(ConditionsOf(s), LAMBDA c : E(C(m, <<c[1]>>), part, c[2], c[3]))))
AsJoin(s) == Map_(ConditionsOf(s), LAMBDA c : E(C("Join", <<JoinT("LEFT JOIN", TabAs("j", "k"), c[1])>>), "join", Cat(<<" LEFT JOIN \"j\" AS \"k\" ON ", c[2]>>), c[3]))
JoinsMenu == Flatten(Map_(SelectSeq(Typed, LAMBDA s : s[2] # No), AsJoin))
ConditionMenu(u_) == AsCondition("Where", "where") \o AsCondition("Having", "having") \o JoinsMenu
WhereMenu(u_) == AsCondition("Where", "where")

LstPrefix == UpdPrefix \o <<<<10, C("Set", <<Str("m, n")>>)>>>>
LstHead == "UPDATE \"t\" SET (\"m\", \"n\") = "
UseOf(s) == E(C("Using", <<s[1]>>), "usesub", Par(s[2]), s[3])
Use2(s, t) == E(C("Using", <<s[1], t[1]>>), "use", Glue(<<Par(s[2]), ", ", Par(t[2])>>), s[3] \o t[3])
UseMenu(u_) == Map_(Subs, UseOf) \o Product(SubSeq(Subs, 1, 4), SubSeq(Subs, 1, 7), Use2)
  \o <<E(C("Using", <<IntV("5")>>), "use", "#", <<"5">>), E(C("Using", <<Raw("DEFAULT"), Str("it's")>>), "use", "DEFAULT, #", <<"it's">>),
       E(C("Using", <<CallT("f", <<BldStmt(3)>>)>>), "use", Cat(<<"f(", Par(S3), ")">>), <<"7">>)>>

(* Subqueries that have each of the clauses, in every position.              *)
ShapeBase == <<
  <<0, New("select", <<Str("s")>>)>>, <<1, C("From", <<Str("t")>>)>>, <<2, C("OrderBy", <<OrderT("o", "DESC")>>)>>, <<3, C("Offset", <<IntV("3")>>)>>,
  <<3, C("Limit", <<IntV("2")>>)>>, <<2, C("Offset", <<IntV("4")>>)>>, <<2, C("Distinct", <<>>)>>, <<2, C("DistinctOn", <<Str("d")>>)>>,
  <<2, C("GroupBy", <<Str("g"), Str("h")>>)>>, <<9, C("Having", <<Cmp(Id("k"), "LessThan", IntV("5"))>>)>>, <<2, C("Suffix", <<Str("FOR UPDATE")>>)>>,
  <<2, C("Join", <<Str("RIGHT JOIN j ON a = b")>>)>>, <<2, C("With", <<WithT("v", Bld(4))>>)>>, <<2, C("Where", <<Cmp(Id("x"), "Equal", IntV("7"))>>)>>,
  <<14, C("Or", <<ExT("NotExists", Bld(6))>>)>>, <<2, C("Having", <<Raw("r")>>)>>, <<2, C("Prefix", <<Str("EXPLAIN")>>)>>, <<5, C("Offset", <<IntV("9")>>)>>,
  <<0, New("newselect", <<>>)>>, <<19, C("Columns", <<Agg("COUNT", "*", FALSE, "n"), ColAs("c", "e"), ExT("Exists", Bld(14))>>)>>, <<13, C("OrderBy", <<AscT(Col("z"))>>)>>>>
ShSelPrefix == ShapeBase \o <<<<0, New("select", <<Str("a")>>)>>>>
ShUpdPrefix == ShapeBase \o <<<<0, New("update", <<Str("t")>>)>>>>
ShInsPrefix == ShapeBase \o <<<<0, New("insert", <<Str("t")>>)>>, <<22, C("Columns", <<Str("c1, c2")>>)>>>>
ShConPrefix == ShapeBase \o <<<<0, New("insert", <<Str("t")>>)>>>>
From_ == "SELECT \"s\" FROM \"t\""
Sh(h, text, vals) == <<Bld(h), text, vals>>
Shapes == <<
  Sh(2, From_, <<>>), Sh(3, From_ \o " ORDER BY o DESC", <<>>), Sh(4, From_ \o " ORDER BY o DESC OFFSET 3", <<>>), Sh(5, From_ \o " ORDER BY o DESC LIMIT 2", <<>>),
  Sh(6, From_ \o " OFFSET 4", <<>>), Sh(7, "SELECT DISTINCT \"s\" FROM \"t\"", <<>>), Sh(8, "SELECT DISTINCT ON (\"d\") \"s\" FROM \"t\"", <<>>),
  Sh(9, From_ \o " GROUP BY \"g\", \"h\"", <<>>), Sh(10, From_ \o " GROUP BY \"g\", \"h\" HAVING (\"k\" < #)", <<"5">>), Sh(11, From_ \o " FOR UPDATE", <<>>),
  Sh(12, From_ \o " RIGHT JOIN \"j\" ON \"a\" = \"b\"", <<>>), Sh(13, Cat(<<"WITH v AS (", From_, " ORDER BY o DESC OFFSET 3) ", From_>>), <<>>),
  Sh(14, From_ \o " WHERE (\"x\" = #)", <<"7">>), Sh(15, Cat(<<From_, " WHERE ((\"x\" = #) OR (NOT EXISTS (", From_, " OFFSET 4)))">>), <<"7">>),
  Sh(16, From_ \o " HAVING r", <<>>), Sh(17, "EXPLAIN " \o From_, <<>>), Sh(18, From_ \o " ORDER BY o DESC LIMIT 2 OFFSET 9", <<>>),
  Sh(20, Cat(<<"SELECT COUNT(*) AS n, \"c\" AS \"e\", EXISTS (", From_, " WHERE (\"x\" = #))">>), <<"7">>),
  Sh(21, Cat(<<"WITH v AS (", From_, " ORDER BY o DESC OFFSET 3) ", From_, " ORDER BY z ASC">>), <<>>)>>
ShapeCondMenu(u_) == Flatten(Map_(Shapes, One)) \o Map_(Shapes, WithOf)
ShapeSetMenu(u_) == Map_(Shapes, SetOf)
ShapeRowMenu(u_) == Product(Shapes, <<Shapes[4], Shapes[14]>>, RowOf) \o Product(<<Shapes[13]>>, Shapes, Rows_)
ShapeConMenu(u_) == Product(Shapes, <<Shapes[4], Shapes[14]>>, ConOf)
ShSelHead == SelHead
ShUpdHead == UpdHead
ShInsHead == InsHead
ShConHead == ConHead

-----------------------------------------------------------------------------
Of(j) == MenuAt(hist[j][2])
PartOf(part, key) == LET es == SelectSeq([j \in 1..Len(hist) |-> Of(j)], LAMBDA e : e.part = part)
                     IN [i \in 1..Len(es) |-> IF key = "what" THEN es[i].what ELSE es[i].vals]
Ctes == PartOf("with", "what")
Sets == PartOf("set", "what")
Conds == PartOf("where", "what")
(* A repeated Where means AND, and groups to the left. *)
RECURSIVE Anded(_)
Anded(cs) == IF Len(cs) = 1 THEN cs[1]
             ELSE Cat(<<"(", Anded(SubSeq(cs, 1, Len(cs) - 1)), " AND ", cs[Len(cs)], ")">>)
LastSet == IF Sets = <<>> THEN "" ELSE Sets[Len(Sets)]
Joins_ == Cat(PartOf("join", "what"))
Havings == PartOf("having", "what")
(* The list of Using: its parentheses are those of a subquery that is alone. *)
Uses == SelectSeq([j \in 1..Len(hist) |-> Of(j)], LAMBDA e : e.part \in {"use", "usesub"})
UseText == IF Uses = <<>> THEN "" ELSE IF Len(Uses) = 1 /\ Uses[1].part = "usesub" THEN Uses[1].what
           ELSE Cat(<<"(", Join([i \in 1..Len(Uses) |-> Uses[i].what], ", "), ")">>)
Expected == Cat(<<IF Ctes = <<>> THEN "" ELSE Cat(<<"WITH ", Join(Ctes, ", "), " ">>), Head_, LastSet, UseText, Joins_,
                  IF Conds = <<>> THEN "" ELSE Cat(<<" WHERE ", Anded(Conds)>>), IF Havings = <<>> THEN "" ELSE " HAVING " \o Havings[1]>>)
Embedded == Renders_ => Anonymous(Segs) = Expected
InPlace == Renders_ =>
  LET sets == PartOf("set", "vals")
      a == ArgsOf(Segs)
  IN [i \in 1..Len(a) |-> a[i].v] =
       CatSegs(PartOf("with", "vals")) \o (IF sets = <<>> THEN <<>> ELSE sets[Len(sets)]) \o CatSegs([i \in 1..Len(Uses) |-> Uses[i].vals])
       \o CatSegs(PartOf("join", "vals")) \o CatSegs(PartOf("where", "vals")) \o CatSegs(PartOf("having", "vals"))
Refusals == hist # <<>> => (dead <=> \/ Of(Len(hist)).what = No
                                     \/ Of(Len(hist)).c.m \in {"Values", "OnConflict", "Having"}
                                        /\ \E j \in 1..(Len(hist) - 1) : Of(j).c.m = Of(Len(hist)).c.m)
(* A subquery is rendered as it renders alone. *)
Alone == Renders_ => \A s \in {3, 6} :
  LET text == Anonymous(Stmt(pool[s])) IN text \in {S3, S6} /\ ~RenderPanics(Stmt(pool[s]))
=============================================================================
