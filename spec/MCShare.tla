------------------------------ MODULE MCShare -------------------------------
(* Programs for several goroutines (C06).  The prefix of MCBranch builds     *)
(* what is shared; each of the steps that follow is made by a goroutine of   *)
(* its own (by the one that made the builder it derives from, otherwise),    *)
(* which then renders what it obtained, while others render what is shared.  *)
(* The harness executes each program at once on the real code, under the     *)
(* race detector; builders being values, every goroutine must obtain what    *)
(* the specification says, whatever the schedule: pairs of operations cover  *)
(* every pair of accesses that may meet.                                     *)
EXTENDS MCBranch, FiniteSetsExt

SubqueryPrefix == SelectPrefix \o <<<<0, New("select", <<Str("x")>>)>>, <<12, C("Where", <<InT(Id("y"), "In", <<Bld(11)>>)>>)>>,
                                    <<13, C("With", <<WithT("w1", Bld(11)), WithT("w2", BldStmt(11))>>)>>, <<14, wt("2")>>>>
SubqueryCalls(u_) == <<Uses(11), C("With", <<WithT("w3", Bld(11))>>), an("9"), C("And", <<ExT("Exists", Bld(11))>>), C("Or", <<Cmp(Id("z"), "Equal", Bld(13))>>),
                       C("Having", <<InT(Id("y"), "NotIn", <<Bld(13)>>)>>), jn("9"), ob("9"), C("OrderBy", <<OrderT("k", ""), DescT(Col("l"))>>), cm("9")>>
(* More shared arguments: conditions, sets and rows made of several parts. *)
RichPrefix == <<<<0, New("insert", <<Str("t")>>)>>, <<1, C("Columns", <<Str("k"), Str("u"), Str("v")>>)>>,
                <<2, C("Values", <<IntV("1"), Str("x"), Raw("now()")>>)>>,
                <<3, C("OnConflict", <<Str("k"), DoUpdate(<<Pair(Str("z"), IntV("4")), Pair(Str("u"), IntV("5")), Pair(Str("v"), Nil), Pair(Str("a"), Raw("b"))>>)>>)>>,
                <<4, C("Returning", <<Str("k"), Str("u")>>)>>>>
RichCalls(u_) == Two(cm)
SortedPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<Pair(Str("z"), IntV("4")), Pair(Str("u"), IntV("5")), Pair(Str("a"), Raw("b"))>>)>>,
                  <<2, mp("1")>>, <<3, C("From", <<Str("f")>>)>>, <<4, C("Where", <<AndM(InT(Id("i"), "In", <<IntV("1"), IntV("2")>>), Btw(Id("j"), "Between", IntV("3"), IntV("4")))>>)>>>>
SortedCalls(u_) == Two(st) \o <<same("9"), mp("9")>> \o Two(an) \o <<or("9"), rt("9"), cm("9"), wt("9"), C("Only", <<>>)>>

Shared == Len(Prefix_)
Seen == {h \in 1..Len(pool) : h >= Len(Prefix_) \/ \E j \in 1..Len(hist) : hist[j][1] = h}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
ExportShared == Len(hist) < MaxOps \/ dead
                \/ CSVWrite("%1$s", <<ToJson([shared |-> Shared, ev |-> HistOps \o [i \in 1..Cardinality(Seen) |-> RenderJson(Sorted(Seen)[i])]])>>, OutFile)
=============================================================================
