------------------------------- MODULE MCBad --------------------------------
(* Every method with every sort of argument: what it cannot represent is     *)
(* refused, what it accepts has an effect (C20).  The table below says which *)
(* sorts each method takes.                                                  *)
EXTENDS Theorems
CONSTANT Menu(_)

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> m_[i].c]
NoStarts == <<>>

Prefix == <<
  <<0, New("select", <<Str("s")>>)>>, <<0, New("insert", <<Str("i")>>)>>, <<0, New("update", <<Str("u")>>)>>, <<3, C("Set", <<Pair(Str("x"), IntV("1"))>>)>>,
  <<0, New("delete", <<Str("d")>>)>>>>
SelectPrefix == Prefix \o <<<<0, New("select", <<Str("s")>>)>>>>
InsertPrefix == Prefix \o <<<<0, New("insert", <<Str("t")>>)>>>>
BareInsert   == Prefix \o <<<<0, New("newinsert", <<>>)>>>>
UpdatePrefix == Prefix \o <<<<0, New("update", <<Str("t")>>)>>, <<6, C("Set", <<Pair(Str("x"), IntV("1"))>>)>>>>
ListPrefix   == Prefix \o <<<<0, New("update", <<Str("t")>>)>>, <<6, C("Set", <<Str("x")>>)>>, <<7, C("Using", <<IntV("1")>>)>>>>
DeletePrefix == Prefix \o <<<<0, New("delete", <<Str("t")>>)>>>>
BareDelete   == Prefix \o <<<<0, New("newdelete", <<>>)>>>>

(* The sorts of arguments. *)
on == OnT("a", "b")
Sorts == [
  nil |-> Nil, empty |-> Str(""), blank |-> Str(" \t"), name |-> Str("n"), names |-> Str("n, m"), hole |-> Str("n,,m"), trail |-> Str("n,"),
  int |-> IntV("1"), float |-> Val("float64", "1.5"), bool |-> Val("bool", "true"), bytes |-> Val("[]uint8", "61"), 
  col |-> Col("c"), colas |-> ColAs("c", "d"), nocol |-> Col(""), tab |-> Tab("t2"), tabas |-> TabAs("t2", "t3"), only |-> TabOnly("t2"), notab |-> Tab(""),
  raw |-> Raw("r"), noraw |-> Raw(""), ident |-> Id("i"), noident |-> Id(""), call |-> CallT("f", <<Raw("1")>>), value |-> Value(IntV("2")), null |-> Value(Nil),
  cmp |-> Cmp(Id("i"), "Equal", IntV("3")), both |-> AndF(Raw("p"), Raw("q")), half |-> AndF(Raw("p"), Id("")), ex |-> ExT("Exists", Raw("SELECT 1")),
  nocmp |-> Cmp(Id(""), "Equal", IntV("3")), noin |-> InT(Id("i"), "In", <<>>), 
  count |-> Agg("COUNT", "*", FALSE, ""), nocount |-> Agg("COUNT", "", FALSE, ""), nomax |-> Agg("MAX", "", FALSE, "m"), sum |-> Agg("SUM", "z", FALSE, "y"),
  pair |-> Pair(Str("k"), IntV("4")), nokey |-> Pair(Str(""), IntV("4")), nilkey |-> Pair(Nil, IntV("4")), badval |-> Pair(Str("k"), BadT("main.plain")),
  map |-> MapT(<<Pair(Str("k"), IntV("5"))>>), nomap |-> MapT(<<>>), smap |-> MapS(<<Pair(Str("k"), Nil)>>),
  lim |-> Lim("6"), off |-> Off("7"), suf |-> Suf("FOR SHARE"), pre |-> Pre("EXPLAIN"), nosuf |-> Suf(""), nopre |-> Pre(""),
  jt |-> Jt("LEFT JOIN"), join |-> JoinT("LEFT JOIN", Tab("j"), on), nojoin |-> JoinT("LEFT JOIN", Tab(""), on), on |-> on,
  text |-> Str("j ON a = b"), with |-> WithT("w", Raw("SELECT 1")), order |-> OrderT("o", "ASC"),
  nothing |-> DoNothing, doup |-> DoUpdate(<<Pair(Str("k"), IntV("8"))>>), nodoup |-> DoUpdate(<<>>),
  strings |-> Slice("[]string", <<Str("n"), Str("m")>>), nostrings |-> Slice("[]string", <<>>), holes |-> Slice("[]string", <<Str("n"), Str(" ")>>),
  cols |-> ColsT(<<Col("c"), Col("d")>>), nocols |-> ColsT(<<>>), holecols |-> ColsT(<<Col("c"), Col("")>>),
  sexps |-> Sexps(<<Col("c"), Raw("r")>>), nosexps |-> Sexps(<<>>), holesexps |-> Sexps(<<Raw("")>>),
  rows |-> Rows("[][]int", <<<<IntV("1"), IntV("2")>>>>), norows |-> Rows("[][]int", <<>>),
  from |-> FromT(<<Tab("f")>>), into |-> IntoT(Tab("f")), sub |-> Bld(1), subs |-> BldStmt(1), ins |-> Bld(2), upd |-> Bld(4), del |-> Bld(5),
  noorder |-> OrderT("", "DESC"), noasc |-> AscT(Col("")), aliasasc |-> AscT(ColAs("", "o")), nowith |-> WithT("", Raw("SELECT 1")), voidwith |-> WithT("w", Raw("")),
  voidval |-> Pair(Str("k"), Raw("")), voidmap |-> MapT(<<Pair(Str("k"), Id(""))>>), noex |-> ExT("Exists", Raw("")), nocall |-> CallT("f", <<Raw("")>>),
  nilcall |-> CallT("f", <<Raw("1"), Nil>>), novalin |-> InT(Id("i"), "In", <<IntV("1"), Raw("")>>), nohi |-> Btw(Id("i"), "Between", IntV("1"), Id("")),
  voidslice |-> Slice("[]stmt.Expression", <<Raw("1"), Raw("")>>), voidrows |-> Rows("[][]interface {}", <<<<IntV("1")>>, <<Raw("")>>>>),
  voidup |-> DoUpdate(<<Pair(Str("k"), Raw(""))>>),
  plain |-> BadT("main.plain"), pint |-> BadT("*int")]
Conditions == {"raw", "call", "value", "null", "cmp", "both", "ex", "noin", "ident", "subs"}
ColumnSorts == {"name", "names", "col", "strings", "cols", "text", "nostrings", "nocols"}
TableSorts == {"name", "names", "blank", "tab", "tabas", "only", "hole", "trail", "text"} \* names of tables are not cut at commas
SelectSorts == ColumnSorts \cup {"colas", "raw", "ex", "count", "sum", "sexps", "nosexps"}
TypedExpr == {"nil", "raw", "noraw", "ident", "noident", "call", "value", "null", "cmp", "both", "half", "ex", "nocmp", "noin", "subs",
              "noex", "nocall", "nilcall", "novalin", "nohi"} \* what Go accepts as an Expression
Values_ == {"nil", "empty", "blank", "name", "names", "hole", "trail", "text", "int", "float", "bool", "bytes", "raw", "ident", "call", "value", "null", "cmp", "both", "ex",
            "noin", "sub", "subs", "strings", "nostrings", "holes", "on"}
All == DOMAIN Sorts
(* method -> <<sorts that Go lets pass, sorts that are accepted>>            *)
SelectTable == [
  Columns |-> <<All, SelectSorts>>, DistinctOn |-> <<All, (ColumnSorts \ {"nostrings", "nocols"}) \cup {"colas"}>>, From |-> <<All, TableSorts \cup {"raw", "from"}>>,
  Join |-> <<All, {"text", "join"}>>, With |-> <<{"with", "nowith", "voidwith"}, {"with"}>>, Where |-> <<TypedExpr, Conditions>>, Having |-> <<TypedExpr, Conditions>>,
  And |-> <<TypedExpr, {}>>, Or |-> <<TypedExpr, {}>>, GroupBy |-> <<All, (ColumnSorts \ {"nostrings", "nocols"}) \cup {"colas"}>>, OrderBy |-> <<{"order", "noorder", "noasc", "aliasasc"}, {"order", "aliasasc"}>>,
  Limit |-> <<All \ {"value"}, {"int", "lim"}>>, Offset |-> <<All \ {"value"}, {"int", "off"}>>,
  Suffix |-> <<All, {"name", "names", "hole", "trail", "text", "suf", "blank"}>>, Prefix |-> <<All, {"name", "names", "hole", "trail", "text", "pre", "blank"}>>]
InsertTable == [
  Columns |-> <<All, ColumnSorts \cup {"colas"}>>, Values |-> <<All \ {"smap", "jt"}, Values_ \cup {"rows"}>>, Set |-> <<All, {"pair", "map", "smap"}>>,
  OnConflict |-> <<All, {"nothing"}>>, Returning |-> <<All, SelectSorts>>]
IntoTable == [Into |-> <<All, {"name", "names", "blank", "hole", "trail", "text", "tab", "tabas", "only", "into"}>>]
UpdateTable == [
  Set |-> <<All, {"pair", "map", "smap", "nomap"}>>, Using |-> <<All, {}>>, From |-> <<All, TableSorts \cup {"raw", "from"}>>, Where |-> <<TypedExpr, Conditions>>,
  And |-> <<TypedExpr, {}>>, Or |-> <<TypedExpr, {}>>, Returning |-> <<All, SelectSorts>>, With |-> <<{"with", "nowith", "voidwith"}, {"with"}>>]
ListTable == [Set |-> <<All, {"name", "names", "text", "col", "colas", "nomap"}>>, Using |-> <<All \ {"smap", "jt", "strings", "nostrings", "holes", "voidslice"}, Values_>>]
DeleteTable == [
  Using |-> <<All, {"name", "names", "blank", "hole", "trail", "text", "tab", "tabas", "only"}>>, Where |-> <<TypedExpr, Conditions>>, Returning |-> <<All, SelectSorts>>]
FromTable == [From |-> <<All, TableSorts \cup {"raw", "from"}>>]
E(c, ok, sort) == [c |-> c, ok |-> ok, sort |-> sort]
Listed_(s) == SetToSeq(s)
Table(t) == FoldLeft(LAMBDA acc, m : acc \o FoldLeft(LAMBDA acc2, x : Append(acc2, E(C(m, <<Sorts[x]>>), x \in t[m][2], x)), <<>>, Listed_(t[m][1])),
                     <<>>, Listed_(DOMAIN t))
(* Two arguments: each of them is judged alone, at either place.  g: a sort  *)
(* that the method takes; lone: sorts that it takes only alone.              *)
Lists_ == {"strings", "nostrings", "cols", "nocols", "sexps", "nosexps"}
Two(t, m, g, lone) ==
  LET xs == Listed_(IF m = "Values" THEN t[m][1] \ {"strings", "nostrings", "holes"} ELSE t[m][1]) \* (bound, see MCVals)
      both(x, y, ok) == E(C(m, <<Sorts[x], Sorts[y]>>), ok, "two")
      each(x) == LET ok == x \in t[m][2] \ lone \/ (m = "Set" /\ g = "pair" /\ x = "nomap") IN <<both(g, x, ok), both(x, g, ok)>>
  IN FoldLeft(LAMBDA acc, x : acc \o each(x), <<>>, xs)
(* Targets of ON CONFLICT, beside another one. *)
Targets_ == {"name", "names", "text", "hole", "trail", "col", "colas"}
TwoTargets(u_) ==
  LET entry(args, x) == E(C("OnConflict", args), x \in Targets_, "two")
      each(x) == <<entry(<<Sorts[x], DoNothing>>, x), entry(<<Str("a"), Sorts[x], DoNothing>>, x), entry(<<Sorts[x], Str("a"), Sorts["doup"]>>, x),
                   entry(<<Str("a"), Col("b"), Sorts[x], Sorts["doup"]>>, x)>>
  IN FoldLeft(LAMBDA acc, x : acc \o each(x), <<>>, Listed_(All))
SelectTwo(u_) == Two(SelectTable, "Columns", "name", Lists_) \o Two(SelectTable, "DistinctOn", "name", Lists_) \o Two(SelectTable, "GroupBy", "col", Lists_)
                 \o Two(SelectTable, "From", "name", {})
InsertTwo(u_) == TwoTargets(0) \o Two(InsertTable, "Columns", "name", Lists_) \o Two(InsertTable, "Values", "int", {"rows"}) \o Two(InsertTable, "Set", "pair", {})
                 \o Two(InsertTable, "Returning", "name", Lists_)
UpdateTwo(u_) == Two(UpdateTable, "Set", "pair", {}) \o Two(UpdateTable, "Returning", "name", Lists_)
ListTwo(u_) == Two(ListTable, "Set", "name", {}) \o Two(ListTable, "Using", "int", {})
DeleteTwo(u_) == Two(DeleteTable, "Using", "name", {}) \o Two(DeleteTable, "Returning", "name", Lists_)
SelectMenu(u_) == Table(SelectTable) \o << E(C("Join", <<>>), FALSE, ""), E(C("DistinctOn", <<>>), FALSE, ""), E(C("GroupBy", <<>>), FALSE, ""), E(C("From", <<>>), FALSE, ""),
  E(C("OrderBy", <<Sorts["order"], Sorts["noorder"]>>), FALSE, ""), E(C("OrderBy", <<Sorts["noasc"], Sorts["order"]>>), FALSE, ""),
  E(C("With", <<Sorts["with"], Sorts["nowith"]>>), FALSE, ""), E(C("With", <<Sorts["nowith"], Sorts["with"]>>), FALSE, ""),
  E(C("OrderBy", <<Sorts["order"], Sorts["aliasasc"]>>), TRUE, ""), E(C("With", <<Sorts["with"], Sorts["with"]>>), TRUE, "") >>
InsertMenu(u_) == Table(InsertTable) \o << E(C("OnConflict", <<>>), FALSE, ""), E(C("Values", <<>>), FALSE, ""), E(C("Set", <<>>), FALSE, "") >>
IntoMenu(u_) == Table(IntoTable)
UpdateMenu(u_) == Table(UpdateTable)
ListMenu(u_) == Table(ListTable)
DeleteMenu(u_) == Table(DeleteTable)
FromMenu(u_) == Table(FromTable)

-----------------------------------------------------------------------------
Entry == MenuAt(hist[1][2])
Accepts == Len(hist) = 1 => (dead <=> ~Entry.ok)
(* What is accepted changes the statement, except for an empty map. *)
Effect == Len(hist) = 1 /\ ~dead /\ Entry.sort \notin {"nomap", "nostrings", "nocols", "nosexps"} =>
  LET before == Stmt(pool[Len(Prefix_)])
  IN RenderPanics(before) \/ RawText(before) # RawText(Segs)
=============================================================================
