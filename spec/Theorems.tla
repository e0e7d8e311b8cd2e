------------------------------ MODULE Theorems ------------------------------
(* What every reachable builder satisfies, stated on the texts and not on    *)
(* the way Sql.tla and Builders.tla produce them.  TLC checks these on the   *)
(* behaviours of every model.                                                *)
EXTENDS Loukoum

Newest == pool[Len(pool)]
Live == ~dead /\ hist # <<>>
Segs == Stmt(Newest)
Renders_ == Live /\ ~RenderPanics(Segs)
Text == QueryText(Segs)

(* What TLC shows of a state that breaks an invariant. *)
Shown == [hist |-> hist, call |-> IF hist = <<>> THEN "" ELSE ToJson(OpJson(hist[Len(hist)][1], IF hist[Len(hist)][1] = 0 THEN Starts[hist[Len(hist)][2]]
                                                                              ELSE CallAt(hist[Len(hist)][2]), ~dead)),
          text |-> IF Renders_ THEN Text ELSE "none"]

-----------------------------------------------------------------------------
(* Reading a text *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, sub, i) == IF i + Len(sub) - 1 > Len(s) THEN 0
                       ELSE IF SubSeq(s, i, i + Len(sub) - 1) = sub THEN i ELSE FindFrom(s, sub, i + 1)
Find(s, sub) == FindFrom(s, sub, 1)
RECURSIVE OccFrom(_, _, _)
OccFrom(s, sub, i) == LET p == FindFrom(s, sub, i) IN IF p = 0 THEN 0 ELSE 1 + OccFrom(s, sub, p + Len(sub))
Occ(s, sub) == OccFrom(s, sub, 1)
RECURSIVE LastFrom(_, _, _)
LastFrom(s, sub, i) == LET p == FindFrom(s, sub, i) IN IF p = 0 THEN i - 1 ELSE LastFrom(s, sub, p + 1)
LastOf(s, sub) == LastFrom(s, sub, 1)

(* End of the quoted text that starts at i (the closing quote). *)
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, q, i) == IF i > Len(s) \/ Ch(s, i) = q THEN i ELSE QuoteEnd(s, q, i + 1)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in DigitSet THEN DigitsEnd(s, i + 1) ELSE i - 1

(* The text cut at the placeholders $i that are outside quotes and comments: *)
(* <<placeholders, pieces>>, one piece more than placeholders.               *)
RECURSIVE CutR(_, _, _, _, _)
CutR(s, i, from, ph, parts) ==
  IF i > Len(s) THEN <<ph, Append(parts, SubSeq(s, from, Len(s)))>>
  ELSE LET c == Ch(s, i)
       IN IF c = "\"" \/ c = "'" THEN CutR(s, QuoteEnd(s, c, i + 1) + 1, from, ph, parts)
          ELSE IF c = "-" /\ Ch(s, i + 1) = "-" THEN <<ph, Append(parts, SubSeq(s, from, Len(s)))>>
          ELSE IF c = "$" THEN LET e == DigitsEnd(s, i + 1)
                               IN CutR(s, e + 1, e + 1, Append(ph, SubSeq(s, i, e)), Append(parts, SubSeq(s, from, i - 1)))
          ELSE CutR(s, i + 1, from, ph, parts)
Cut(s) == CutR(s, 1, 1, <<>>, <<>>)

Inlined(parts, lits) ==
  Cat([i \in 1..(2 * Len(parts) - 1) |-> IF i % 2 = 1 THEN parts[(i + 1) \div 2] ELSE lits[i \div 2]])

(* Depth of the parentheses outside quotes; -1 if one closes too early. *)
RECURSIVE DepthR(_, _, _)
DepthR(s, i, d) ==
  IF i > Len(s) \/ d < 0 THEN d
  ELSE LET c == Ch(s, i)
       IN IF c = "\"" \/ c = "'" THEN IF QuoteEnd(s, c, i + 1) > Len(s) THEN -2 ELSE DepthR(s, QuoteEnd(s, c, i + 1) + 1, d)
          ELSE IF c = "-" /\ Ch(s, i + 1) = "-" THEN d
          ELSE IF c = "(" THEN DepthR(s, i + 1, d + 1)
          ELSE IF c = ")" THEN DepthR(s, i + 1, d - 1)
          ELSE DepthR(s, i + 1, d)

-----------------------------------------------------------------------------
(* C01: the placeholders of the text are $1 to $n, in order, and there are   *)
(* as many as arguments.                                                     *)
Numbering == Renders_ =>
  LET ph == Cut(Text)[1] IN ph = [i \in 1..Len(ArgsOf(Segs)) |-> "$" \o ToString(i)]

(* C03: the three renderings differ by their placeholders only. *)
Agreement == Renders_ =>
  LET parts == Cut(Text)[2]
      args  == ArgsOf(Segs)
  IN /\ NamedText_(Segs) = Inlined(parts, [i \in 1..Len(args) |-> ":arg_" \o ToString(i)])
     /\ RawText(Segs) = Inlined(parts, [i \in 1..Len(args) |-> Lit(args[i])])

(* C02: the text does not depend on the contents of the values. *)
RECURSIVE Twin(_)
Twin(t) ==
  IF t.k = "val" THEN [t EXCEPT !.v = IF t.t = "string" THEN "'$9;--" ELSE IF t.t = "bool" THEN "false" ELSE "0", !.p = "0"]
  ELSE IF t.k \in {"cmp"} THEN [t EXCEPT !.a = <<Twin(t.a[1])>>]
  ELSE IF t.k \in {"in", "slice", "doupdate", "call"} THEN [t EXCEPT !.a = [i \in 1..Len(@) |-> Twin(@[i])]]
  ELSE IF t.k = "btw" THEN [t EXCEPT !.a = <<Twin(@[1]), Twin(@[2])>>]
  ELSE IF t.k = "pair" THEN [t EXCEPT !.val = Twin(@)]
  ELSE IF t.k = "map" THEN [t EXCEPT !.a = [i \in 1..Len(@) |-> [@[i] EXCEPT !.val = Twin(@)]]]
  ELSE IF t.k = "rows" THEN [t EXCEPT !.a = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> Twin(@[i][j])]]]
  ELSE IF t.k = "log" THEN [t EXCEPT !.l = Twin(@), !.r = Twin(@)]
  ELSE IF t.k = "join" THEN [t EXCEPT !.cond = Twin(@)]
  ELSE IF t.k \in {"ex", "value", "with", "ptime"} THEN [t EXCEPT !.e = Twin(@)]
  ELSE t
(* Top-level strings are values in Values and Using only (names elsewhere).  *)
Binding == {"Where", "And", "Or", "Having", "Values", "Set", "Using", "OnConflict", "With", "Join"}
TwinOp(op, h) ==
  IF h = 0 \/ op.m \notin Binding THEN op
  ELSE [op EXCEPT !.args = [i \in 1..Len(@) |->
         IF @[i].k = "val" /\ ~(op.m = "Values" \/ (op.m = "Using" /\ pool[h].kind = "update")) THEN @[i] ELSE Twin(@[i])]]
History == [j \in 1..Len(Prefix_) |-> <<Prefix_[j][1], TwinOp(Prefix_[j][2], Prefix_[j][1])>>]
           \o [j \in 1..(Len(hist) - (IF dead THEN 1 ELSE 0)) |->
                 <<hist[j][1], IF hist[j][1] = 0 THEN Starts[hist[j][2]] ELSE TwinOp(CallAt(hist[j][2]), hist[j][1])>>]
Blind == Renders_ =>
  LET twin == Fold(History, <<>>)
      segs == Stmt(twin[Len(twin)])
  IN ~RenderPanics(segs) /\ QueryText(segs) = Text /\ NamedText_(segs) = NamedText_(Segs)

(* Every text is well delimited. *)
Delimited == Renders_ => DepthR(Text, 1, 0) = 0

(* C05: a step only adds to the pool. *)
Persistent == [][Len(pool') >= Len(pool) /\ SubSeq(pool', 1, Len(pool)) = pool]_pool
=============================================================================
