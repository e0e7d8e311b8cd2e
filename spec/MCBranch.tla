------------------------------ MODULE MCBranch ------------------------------
(* Programs that derive several builders from the same one (C04, C05).  The  *)
(* prefix gives every clause that accumulates a few elements, so that the    *)
(* next ones of two derivations may compete for the same memory.  Programs   *)
(* are exported with a rendering of every builder when it is made and at the *)
(* end; the code must render each as it renders it when built alone.         *)
EXTENDS Theorems


jn(n) == C("Join", <<Str(Cat(<<"j", n, " ON a = b">>))>>)
wt(n) == C("With", <<WithT("w" \o n, Raw("SELECT " \o n))>>)
ob(n) == C("OrderBy", <<OrderT("o" \o n, "DESC")>>)
ob2(n) == C("OrderBy", <<AscT(Col("p" \o n)), OrderT("q" \o n, "")>>)
wh(n) == C("Where", <<Cmp(Id("c" \o n), "Equal", IntV(n))>>)
an(n) == C("And", <<OrM(Cmp(Id("d" \o n), "Equal", IntV(n)), Raw("e" \o n))>>)
or(n) == C("Or", <<InT(Id("f" \o n), "In", <<IntV(n), Str(n)>>)>>)
st(n) == C("Set", <<Pair(Str("s" \o n), IntV(n))>>)
same(n) == C("Set", <<Pair(Str("s1"), IntV(n))>>)
mp(n) == C("Set", <<MapT(<<Pair(Str("m"), IntV(n)), Pair(Str("s2"), Str(n))>>)>>)
us(n) == C("Using", <<IntV(n), Raw("r" \o n)>>)
cl(n) == C("Set", <<Str("l" \o n)>>)
cm(n) == C("Comment", <<Str("c" \o n)>>)
rt(n) == C("Returning", <<Str("r" \o n), Col("k")>>)
fr(n) == C("From", <<Str("f" \o n)>>)
co(n) == C("Columns", <<Str("a" \o n), Str("b"), Str("c")>>)
gb(n) == C("GroupBy", <<Str("g" \o n)>>)
ha(n) == C("Having", <<Raw("h" \o n)>>)
vals(n) == C("Values", <<Rows("[][]int", <<<<IntV(n), IntV("2")>>, <<IntV("3"), IntV(n)>>>>)>>)
oc(n) == C("OnConflict", <<Str("k" \o n), DoUpdate(<<Pair(Str("u"), IntV(n)), MapS(<<Pair(Str("v"), Nil)>>)>>)>>)
Two(F(_)) == <<F("8"), F("9")>>

SelectPrefix == <<<<0, New("select", <<Str("a"), Col("b")>>)>>, <<1, jn("1")>>, <<2, wt("1")>>, <<3, ob("1")>>, <<4, jn("2")>>, <<5, wt("2")>>, <<6, ob("2")>>,
                  <<7, jn("3")>>, <<8, wt("3")>>, <<9, ob("3")>>, <<10, wh("1")>>>>
SelectCalls(u_) == Two(jn) \o Two(wt) \o Two(ob) \o Two(ob2) \o Two(an) \o <<or("9"), cm("9"), co("9"), gb("9"), ha("9"), fr("9"), wh("9")>>
UpdatePrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, st("1")>>, <<2, wt("1")>>, <<3, st("2")>>, <<4, wt("2")>>, <<5, st("3")>>, <<6, wt("3")>>, <<7, wh("1")>>>>
UpdateCalls(u_) == Two(st) \o Two(same) \o Two(mp) \o Two(wt) \o Two(an) \o <<or("9"), fr("9"), rt("9"), cm("9"), C("Only", <<>>)>>
ListPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, cl("1")>>, <<2, us("1")>>, <<3, cl("2")>>, <<4, us("2")>>, <<5, cl("3")>>>>
ListCalls(u_) == Two(cl) \o Two(us) \o <<wh("1"), rt("9")>>
InsertPrefix == <<<<0, New("insert", <<Str("t")>>)>>, <<1, co("1")>>>>
InsertCalls(u_) == Two(vals) \o Two(oc) \o Two(rt) \o Two(cm) \o <<st("1"), mp("2")>>
DeletePrefix == <<<<0, New("delete", <<Str("t")>>)>>, <<1, wh("1")>>>>
DeleteCalls(u_) == Two(an) \o Two(or) \o Two(rt) \o <<wh("9"), cm("9"), C("Using", <<Str("u"), TabAs("v", "w")>>)>>
(* Arguments that are slices and maps: their owner changes them afterwards.  *)
ins(m, n) == C(m, <<InT(Id("i" \o n), "In", <<Slice("[]stmt.Expression", <<Value(IntV(n)), Raw("x" \o n)>>)>>)>>)
nots(m, n) == C(m, <<InT(Id("i" \o n), "NotIn", <<Slice("[]int", <<IntV(n), IntV("2")>>)>>)>>)
cols(n) == ColsT(<<Col("p" \o n), Col("q"), Col("r")>>)
SlicePrefix == <<<<0, New("select", <<Sexps(<<Col("a"), Agg("COUNT", "*", FALSE, "n")>>)>>)>>, <<1, C("Where", <<InT(CallT("f", <<Id("x")>>), "In", <<Slice("[]interface {}", <<IntV("1"), Nil, Str("z")>>)>>)>>)>>>>
SliceCalls(u_) == Two(LAMBDA n : ins("Where", n)) \o Two(LAMBDA n : nots("And", n)) \o Two(LAMBDA n : C("GroupBy", <<cols(n)>>)) \o Two(LAMBDA n : C("DistinctOn", <<cols(n)>>))
               \o <<C("Columns", <<cols("9")>>), C("Columns", <<Sexps(<<ColAs("a", "b"), Raw("1"), Agg("MAX", "x", FALSE, "")>>)>>), C("GroupBy", <<Slice("[]string", <<Str("a"), Str("b")>>)>>),
                     ins("Having", "8"), C("From", <<FromT(<<Tab("p"), TabAs("q", "r")>>)>>), C("Columns", <<Slice("[]string", <<Str("a"), Str("b")>>)>>), ins("Or", "9")>>
SliceInsPrefix == <<<<0, New("insert", <<Str("t")>>)>>>>
SliceInsCalls(u_) == Two(LAMBDA n : C("Columns", <<cols(n)>>)) \o Two(LAMBDA n : C("Returning", <<Sexps(<<Col("a"), Raw("r" \o n)>>)>>))
  \o <<C("Columns", <<Slice("[]string", <<Str("a"), Str("b")>>)>>), C("Values", <<Slice("[]interface {}", <<IntV("1"), Raw("x"), Str("y")>>)>>),
        C("Values", <<Slice("[]stmt.Expression", <<Raw("x"), Value(IntV("2"))>>)>>), C("Values", <<Rows("[][]interface {}", <<<<IntV("1"), Str("a")>>, <<Nil, IntV("2")>>>>)>>),
        C("Values", <<Rows("[][]stmt.Expression", <<<<Raw("x"), Value(IntV("3"))>>>>)>>), C("Values", <<Rows("[][]string", <<<<Str("1"), Str("a")>>, <<Str("b"), Str("c")>>>>)>>),
        C("Set", <<MapS(<<Pair(Str("m"), IntV("1"))>>), MapT(<<Pair(Str("n"), Str("x"))>>)>>), C("OnConflict", <<Str("k"), DoUpdate(<<MapT(<<Pair(Str("u"), IntV("5"))>>)>>)>>),
        C("Returning", <<Slice("[]string", <<Str("a"), Str("b")>>)>>), C("Returning", <<cols("7")>>)>>
SliceUpdPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<MapS(<<Pair(Str("m"), IntV("1"))>>), MapT(<<Pair(Str("n"), Str("x"))>>)>>)>>>>
SliceUpdCalls(u_) == Two(LAMBDA n : ins("Where", n)) \o Two(LAMBDA n : C("Returning", <<Sexps(<<Col("a"), Raw("r" \o n)>>)>>)) \o Two(mp)
  \o <<C("Set", <<MapS(<<Pair(Str("m"), IntV("4")), Pair(Str("o"), Nil)>>)>>), C("From", <<FromT(<<Tab("p"), TabAs("q", "r")>>)>>), C("Returning", <<cols("7")>>)>>
(* Many conditions, and many arguments.                                      *)
WherePrefix == <<<<0, New("select", <<Str("a")>>)>>, <<1, wh("1")>>, <<2, an("2")>>, <<3, or("3")>>, <<4, wh("4")>>, <<5, or("5")>>, <<6, an("6")>>, <<7, or("7")>>, <<8, wh("8")>>, <<9, or("0")>>>>
WhereCalls(u_) == Two(an) \o <<or("9"), wh("9")>>
WhereUpdPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<MapT(<<Pair(Str("m"), IntV("1")), Pair(Str("n"), Str("x"))>>)>>)>>, <<2, wh("1")>>, <<3, an("2")>>, <<4, or("3")>>, <<5, wh("4")>>, <<6, or("5")>>, <<7, an("6")>>>>
WhereDelPrefix == <<<<0, New("delete", <<Str("t")>>)>>, <<1, wh("1")>>, <<2, an("2")>>, <<3, or("3")>>, <<4, wh("4")>>, <<5, or("5")>>, <<6, an("6")>>>>
NoStarts == <<>>
Uses(h) == C("With", <<WithT("sub", Bld(h))>>)

-----------------------------------------------------------------------------
Shot(h, o) == [op |-> "render", h |-> h, ord |-> o]
Handles == LET ops == HistOps IN [j \in 1..Len(ops) |-> Cardinality({x \in 1..j : ops[x].ok})]
Leaves == LET ops == HistOps
              n   == Len(Prefix_)
          IN CatSegs([j \in 1..Len(ops) |-> IF ops[j].ok /\ j >= n THEN <<ops[j], Shot(Handles[j], j % 6)>> ELSE <<ops[j]>>])
             \o [h \in 1..Len(pool) |-> Shot(Len(pool) + 1 - h, (h + Len(hist)) % 6)]
(* Only whole programs. *)
ExportShots == Len(hist) < MaxOps \/ dead \/ CSVWrite("%1$s", <<ToJson([ev |-> Leaves])>>, OutFile)
=============================================================================
