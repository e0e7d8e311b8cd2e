------------------------------ MODULE MCKinds -------------------------------
(* Kinds and statements of builders (C25): every builder that short programs *)
(* reach, the incomplete ones included, is asked for its kind and for its    *)
(* statement.                                                                *)
EXTENDS Theorems

NoPrefix == <<>>
AllStarts == <<
  New("select", <<Str("a")>>), New("select", <<>>), New("select", <<Col("a"), ColAs("b", "c")>>), New("newselect", <<>>),
  New("insert", <<Str("t")>>), New("insert", <<TabAs("t", "u")>>), New("newinsert", <<>>),
  New("update", <<Str("t")>>), New("update", <<Tab("t")>>),
  New("delete", <<Str("t")>>), New("delete", <<TabOnly("t")>>), New("newdelete", <<>>)>>
eq == Cmp(Id("c"), "Equal", Str("v"))
AllCalls(u_) == <<
  C("Columns", <<Str("x"), Str("y")>>), C("Columns", <<>>), C("Distinct", <<>>), C("DistinctOn", <<Str("d")>>), C("From", <<Str("f")>>),
  C("Join", <<Str("j ON a = b")>>), C("With", <<WithT("w", Raw("SELECT 1"))>>), C("Where", <<eq>>), C("And", <<eq>>), C("Or", <<Raw("r")>>),
  C("GroupBy", <<Str("g")>>), C("Having", <<eq>>), C("OrderBy", <<OrderT("o", "")>>), C("Limit", <<IntV("5")>>), C("Offset", <<IntV("6")>>),
  C("Suffix", <<Str("FOR UPDATE")>>), C("Prefix", <<Str("EXPLAIN")>>), C("Comment", <<Str("note")>>),
  C("Into", <<Str("i")>>), C("Values", <<IntV("1"), Str("z")>>), C("Set", <<Pair(Str("k"), IntV("7"))>>), C("Set", <<Str("l"), Str("m")>>), C("Set", <<>>),
  C("OnConflict", <<DoNothing>>), C("OnConflict", <<Str("p"), DoUpdate(<<Pair(Str("q"), Nil)>>)>>), C("Returning", <<Str("r")>>),
  C("Only", <<>>), C("Using", <<Str("s")>>), C("Using", <<IntV("8"), IntV("9")>>)>>

-----------------------------------------------------------------------------
(* Methods keep the kind of the builder they derive from. *)
KindKept == ~dead /\ Len(pool) > 1 =>
  LET last == hist[Len(hist)]
  IN last[1] > 0 => pool[Len(pool)].kind = pool[last[1]].kind
(* The mandatory part, read in the program: what makes it render.            *)
Used(ms) == \E j \in 1..Len(hist) : IF hist[j][1] = 0 THEN Starts[hist[j][2]].kind \in ms
                                    ELSE CallAt(hist[j][2]).m \in ms /\ ~(CallAt(hist[j][2]).m = "Set" /\ CallAt(hist[j][2]).args = <<>>)
Has(b) == CASE b.kind = "select" -> Used({"select", "Columns"})
            [] b.kind = "insert" -> Used({"insert", "Into"})
            [] b.kind = "delete" -> Used({"delete", "From"})
            [] b.kind = "update" -> Used({"Set"})
IsEmpty(b) == CASE b.kind = "select" -> b.exprs = <<>> [] b.kind = "insert" -> b.into.n = "" [] b.kind = "delete" -> b.from = <<>>
                [] b.kind = "update" -> SetEmpty(b.set)
(* A builder lacks its mandatory part, says so, and is not rendered, all at  *)
(* the same time; columns of an UPDATE without their values are not enough.  *)
EmptyExactly == Live =>
  LET b == Newest
  IN /\ ~Has(b) => IsEmpty(b)
     /\ IsEmpty(b) <=> ~Renders_
     /\ (Has(b) /\ b.kind # "update") => ~IsEmpty(b)

-----------------------------------------------------------------------------
KindList == <<"select", "insert", "update", "delete">>
Ask(h) ==
  LET b    == pool[h]
      segs == Stmt(b)
      is   == [op |-> "is", h |-> h, xv |-> [i \in 1..4 |-> b.kind = KindList[i]]]
  IN IF RenderPanics(segs) THEN <<is, [op |-> "stmt", h |-> h, xok |-> FALSE, xempty |-> IsEmpty(b)]>>
     ELSE <<is, [op |-> "stmt", h |-> h, xok |-> TRUE, xempty |-> IsEmpty(b), xq |-> QueryText(segs), xn |-> NamedText_(segs),
                 xs |-> RawText(segs), xargs |-> ArgsJson(segs)]>>
Questions == IF dead \/ pool = <<>> THEN <<>> ELSE Ask(Len(pool)) \o Renders
ExportKinds == hist = <<>> \/ CSVWrite("%1$s", <<ToJson([ev |-> HistOps \o Questions])>>, OutFile)
=============================================================================
