------------------------------ MODULE Loukoum -------------------------------
(* The state machine of a program that uses loukoum.                         *)
(*                                                                           *)
(* The state is the pool of builders the program holds.  Builders are        *)
(* values: a step starts a statement or calls a method on a builder of the   *)
(* pool, and either adds the builder obtained to the pool, or panics and     *)
(* leaves everything as it was.  Rendering is a function of a builder, so it *)
(* is not a step.  hist remembers how the pool was built.                    *)
(*                                                                           *)
(* A model (MC*.tla) chooses the statements, the calls and the bounds; TLC   *)
(* then visits every program.  Each program is exported with the results the *)
(* specification gives, to be replayed on the real code (harness expect).    *)
EXTENDS Terms, Json, CSV, IOUtils

CONSTANTS
  Starts,   \* sequence of statements a program may start: New(kind, args)
  Calls(_), \* sequence of calls a program may make: C(m, args)
  Prefix_,  \* calls that are always made first, as <<handle, C(m, args)>> or <<0, New(kind, args)>>
  MaxOps,   \* number of steps after the prefix
  MaxNew,   \* number of statements a program may start after the prefix
  Branching \* derive from any builder from this one on; 0: only from the last one

VARIABLES pool, hist, dead
vars == <<pool, hist, dead>>

OutFile == IOEnv.OUT

(* TLC evaluates constants before it has evaluated the definitions they are  *)
(* made of, and a menu again each time one of its calls is needed.  So menus *)
(* have a parameter (that means nothing) and are kept here.                  *)
ASSUME TLCSet(41, TLCEval(Calls(0)))
CallAt(i) == TLCGet(41)[i]

StepOn(ps, h, op) == \* the builder that a step gives
  IF h = 0 THEN Start(op.kind, BuildAll(op.args, ps)) ELSE Apply(ps[h], op.m, BuildAll(op.args, ps))

RECURSIVE Fold(_, _)
Fold(ops, ps) == IF ops = <<>> THEN ps
                 ELSE Fold(Tail(ops), Append(ps, StepOn(ps, Head(ops)[1], Head(ops)[2])))

Init ==
  /\ pool = Fold(Prefix_, <<>>)
  /\ hist = <<>>
  /\ dead = FALSE

(* Only the arguments a method can type-check are given to it. *)
Takes == [
  select |-> {"Columns", "Distinct", "DistinctOn", "From", "Join", "With", "Where", "And", "Or", "GroupBy", "Having", "OrderBy", "Limit",
              "Offset", "Suffix", "Prefix", "Comment"},
  insert |-> {"Into", "Columns", "Values", "Set", "OnConflict", "Returning", "Comment"},
  update |-> {"Only", "Set", "Using", "With", "Where", "And", "Or", "From", "Returning", "Comment"},
  delete |-> {"From", "Using", "Where", "And", "Or", "Returning", "Comment"}]

Step(h, i) ==
  LET op == IF h = 0 THEN Starts[i] ELSE CallAt(i)
      b  == StepOn(pool, h, op)
  IN /\ hist' = Append(hist, <<h, i>>)
     /\ IF b.kind = "panic" THEN dead' = TRUE /\ UNCHANGED pool
        ELSE dead' = FALSE /\ pool' = Append(pool, b)

News == Cardinality({j \in 1..Len(hist) : hist[j][1] = 0})
Begin == \E i \in 1..Len(Starts) : News < MaxNew /\ Step(0, i)
Derive ==
  \E h \in (IF Branching > 0 THEN Branching..Len(pool)
            ELSE IF MaxNew = 0 \/ Len(pool) > Len(Prefix_) THEN {Len(pool)} ELSE {}) : \E i \in 1..Len(TLCGet(41)) :
    /\ h > 0 /\ CallAt(i).m \in Takes[pool[h].kind]
    /\ Step(h, i)

Next == ~dead /\ Len(hist) < MaxOps /\ (Begin \/ Derive)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Export *)
OpJson(h, op, ok) ==
  IF h = 0 THEN [op |-> "new", kind |-> op.kind, args |-> op.args, ok |-> ok]
  ELSE [op |-> "call", h |-> h, m |-> op.m, args |-> op.args, ok |-> ok]
HistOps ==
  [j \in 1..Len(Prefix_) |-> OpJson(Prefix_[j][1], Prefix_[j][2], TRUE)]
  \o [j \in 1..Len(hist) |-> OpJson(hist[j][1], IF hist[j][1] = 0 THEN Starts[hist[j][2]] ELSE CallAt(hist[j][2]),
                                    ~(dead /\ j = Len(hist)))]
ArgsJson(segs) == LET a == ArgsOf(segs) IN [i \in 1..Len(a) |-> [t |-> a[i].t, v |-> a[i].v]]
RenderJson(h) ==
  LET segs == Stmt(pool[h])
  IN IF RenderPanics(segs) THEN [op |-> "render", h |-> h, ord |-> Len(hist) % 6, xok |-> FALSE]
     ELSE [op |-> "render", h |-> h, ord |-> (h + Len(hist)) % 6, xok |-> TRUE, xq |-> QueryText(segs), xn |-> NamedText_(segs),
           xs |-> RawText(segs), xsok |-> ~RawPanics(segs), xargs |-> ArgsJson(segs)]
(* The last builder is rendered; all of them when the program branches (a    *)
(* derivation must not have changed the others).                             *)
Renders ==
  IF dead THEN <<>>
  ELSE IF Branching > 0 THEN [h \in 1..Len(pool) |-> RenderJson(h)]
  ELSE <<RenderJson(Len(pool))>>
Export == hist = <<>> \/ CSVWrite("%1$s", <<ToJson([ev |-> HistOps \o Renders])>>, OutFile)
=============================================================================
