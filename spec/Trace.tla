------------------------------- MODULE Trace --------------------------------
(* Validation of executions recorded from the real code.                     *)
(*                                                                           *)
(* The file named by TRACE holds one scenario per line; a scenario is a      *)
(* sequence of events, one per public call, logged when the call returned    *)
(* (or panicked).  Every scenario is replayed on the specification: the      *)
(* event's arguments select one transition of Builders.tla, and the logged   *)
(* result must be what that transition allows.  FOCUS says which aspects of  *)
(* the results are compared, so that one check decides one property.         *)
EXTENDS Parts, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)
Focus == LET parts == Split(IOEnv.FOCUS, ",") IN {parts[i] : i \in 1..Len(parts)}
On(aspect) == aspect \in Focus

VARIABLES sc,     \* scenario
          l,      \* next event
          pool,   \* builders the program holds (handles are positions)
          first,  \* what was observed when a builder was first rendered
          lost,   \* the code took another way, on an aspect that is not compared
          bad     \* "" or what the specification does not allow
vars == <<sc, l, pool, first, lost, bad>>

Events == Scenarios[sc].ev
Ev == Events[l]

None == [none |-> TRUE]
Init ==
  /\ sc \in 1..Len(Scenarios)
  /\ l = 1
  /\ pool = <<>>
  /\ first = <<>>
  /\ lost = FALSE
  /\ bad = ""

IsEvent(op) == l <= Len(Events) /\ bad = "" /\ ~lost /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED sc
(* When the code accepts a call that must panic (or the converse) and FOCUS  *)
(* does not compare this, the rest of the scenario says nothing.             *)
Lost ==
  /\ l <= Len(Events) /\ lost
  /\ l' = l + 1
  /\ UNCHANGED <<sc, pool, first, lost, bad>>

(* Report the first difference; "" if there is none. *)
RECURSIVE FirstOf(_)
FirstOf(cs) == IF cs = <<>> THEN "" ELSE IF ~Head(cs)[1] THEN Head(cs)[2] ELSE FirstOf(Tail(cs))

-----------------------------------------------------------------------------
(* Construction *)
Derived(b) ==
  LET same == FirstOf(<<
        <<On("twin") => Ev.ok = Ev.tok, "a call panics or not depending on the contents of a bound value">>,
        <<On("kept") => Ev.kept, "a call modified a slice or a map that it was given">>,
        <<On("same") => Ev.same, "the same program panicked or not when run again">>>>)
  IN IF same # "" THEN bad' = same /\ UNCHANGED <<pool, first, lost>>
     ELSE IF (b.kind = "panic") = Ev.ok
     THEN /\ bad' = IF ~On("ok") THEN "" ELSE IF Ev.ok THEN "accepted a call that must panic" ELSE "panicked on a valid call"
          /\ lost' = TRUE
          /\ PrintT(<<"LOST", sc, l>>)
          /\ UNCHANGED <<pool, first>>
     ELSE IF ~Ev.ok THEN bad' = "" /\ UNCHANGED <<pool, first, lost>>
     ELSE /\ pool' = Append(pool, b)
          /\ first' = Append(first, None)
          /\ bad' = ""
          /\ UNCHANGED lost

New  == IsEvent("new")  /\ Derived(Start(Ev.kind, BuildAll(Ev.args, pool)))
Call == IsEvent("call") /\ Derived(Apply(pool[Ev.h], Ev.m, BuildAll(Ev.args, pool)))

-----------------------------------------------------------------------------
(* Rendering *)
ArgEq(a, n) == a.t = n.t /\ a.v = n.v
ArgsEq(as, ns) == Len(as) = Len(ns) /\ \A i \in 1..Len(as) : ArgEq(as[i], ns[i])
NamedEq(as, ns) == ArgsEq(as, ns) /\ \A i \in 1..Len(as) : as[i].n = "arg_" \o ToString(i)
Marks(mark, n) == [i \in 1..n |-> mark \o ToString(i)]
Inline(parts, lits) ==
  Cat([i \in 1..(2 * Len(parts) - 1) |-> IF i % 2 = 1 THEN parts[(i + 1) \div 2] ELSE lits[i \div 2]])

Observed(ev) == [ok |-> ev.ok, q |-> ev.q, n |-> ev.n, s |-> ev.s, args |-> ev.args, nargs |-> ev.nargs]

Judge(segs) ==
  LET panics == RenderPanics(segs)
      args   == ArgsOf(segs)
  IN FirstOf(<<
       <<On("ok") => Ev.ok = ~panics, IF panics THEN "rendered a statement that must panic" ELSE "rendering panicked">>,
       <<On("stable") /\ first[Ev.h] # None => Observed(Ev) = first[Ev.h], "rendering differs from the first rendering of the same builder">>,
       <<On("linear") => Ev.lin = Observed(Ev), "rendering differs from the same builder built alone">>,
       <<On("twin") => Ev.q = Ev.tq /\ Ev.n = Ev.tn /\ Ev.ok = Ev.tok, "query text depends on the contents of a bound value">>,
       <<On("same") => Ev.same, "the same program rendered differently when run again">>,
       <<On("count") /\ Ev.ok /\ ~panics => Len(Ev.args) = Len(args) /\ Ev.ph = Marks("$", Len(args)), "placeholders of Query are not $1..$n in order">>,
       <<On("count") /\ Ev.ok /\ ~panics => Len(Ev.nargs) = Len(args) /\ Ev.nph = Marks(":arg_", Len(args)), "placeholders of NamedQuery are not :arg_1..:arg_n in order">>,
       <<On("args") /\ Ev.ok /\ ~panics => ArgsEq(Ev.args, args), "arguments of Query">>,
       <<On("args") /\ Ev.ok /\ ~panics => NamedEq(Ev.nargs, args), "arguments of NamedQuery">>,
       <<On("agree") /\ Ev.ok => Ev.qp = Ev.np /\ Len(Ev.args) = Len(Ev.nargs) /\ \A i \in 1..Len(Ev.args) : ArgEq(Ev.args[i], Ev.nargs[i]),
         "Query and NamedQuery differ beyond their placeholders">>,
       <<On("agree") /\ Ev.ok /\ Ev.sok => Len(Ev.qp) = Len(Ev.args) + 1 /\ Ev.s = Inline(Ev.qp, [i \in 1..Len(Ev.args) |-> Lit(Ev.args[i])]),
         "String is not Query with its arguments inlined">>,
       <<On("agree") => Ev.ok = Ev.nok /\ Ev.sok = (Ev.ok /\ \A i \in 1..Len(Ev.args) : HasLit(Ev.args[i])), "only some of the renderings panic">>,
       <<On("q") /\ Ev.ok /\ ~panics => Ev.q = QueryText(segs), "text of Query">>,
       <<On("n") /\ Ev.ok /\ ~panics => Ev.n = NamedText_(segs), "text of NamedQuery">>,
       <<On("s") /\ Ev.ok /\ ~panics => Ev.sok = ~RawPanics(segs), "String panics or not, unlike the values it writes">>,
       <<On("s") /\ Ev.ok /\ ~panics /\ Ev.sok => Ev.s = RawText(segs), "text of String">>>>)

RenderEv ==
  /\ IsEvent("render")
  /\ bad' = Judge(Stmt(pool[Ev.h]))
  /\ first' = IF first[Ev.h] = None THEN [first EXCEPT ![Ev.h] = Observed(Ev)] ELSE first
  /\ UNCHANGED <<pool, lost>>

(* Kind predicates and Statement(). *)
Kinds == <<"select", "insert", "update", "delete">>
IsEv ==
  /\ IsEvent("is")
  /\ LET want == [i \in 1..4 |-> pool[Ev.h].kind = Kinds[i]]
     IN bad' = IF Ev.ok /\ Ev.v = want /\ Ev.p = want THEN "" ELSE "builder kind is not recognised"
  /\ UNCHANGED <<pool, first, lost>>
StmtEv ==
  /\ IsEvent("stmt")
  /\ LET segs == Stmt(pool[Ev.h])
     IN bad' = FirstOf(<<
          <<Ev.got, "Statement() panicked">>,
          <<Ev.ok = ~RawPanics(segs), "Statement() does not render like its builder">>,
          <<Ev.ok => Ev.q = QueryText(segs) /\ ArgsEq(Ev.args, ArgsOf(segs)), "Statement() does not render like Query()">>,
          <<Ev.ok => Ev.n = NamedText_(segs) /\ NamedEq(Ev.nargs, ArgsOf(segs)), "Statement() does not render like NamedQuery()">>,
          <<Ev.ok => Ev.s = RawText(segs), "Statement() does not render like String()">>,
          <<Ev.empty = (IF pool[Ev.h].kind = "select" THEN pool[Ev.h].exprs = <<>> ELSE IF pool[Ev.h].kind = "update"
                        THEN SetEmpty(pool[Ev.h].set) ELSE RenderPanics(segs)), "Statement().IsEmpty()">>>>)
  /\ UNCHANGED <<pool, first, lost>>

(* Parts of statements, one after the other on one context. *)
PartsEv ==
  /\ IsEvent("parts")
  /\ LET segs == PartsSegs(Ev.parts, pool)
     IN bad' = FirstOf(<<
          <<Ev.got, "a constructor panicked">>,
          <<Ev.empty = Empties(Ev.parts, pool), "IsEmpty of a part">>,
          <<Ev.ok = ~RenderPanics(segs), "parts panic or not">>,
          <<Ev.ok => Ev.q = QueryText(segs) /\ ArgsEq(Ev.args, ArgsOf(segs)), "parts on a StdContext">>,
          <<Ev.ok => Ev.n = NamedText_(segs) /\ NamedEq(Ev.nargs, ArgsOf(segs)), "parts on a NamedContext">>,
          <<Ev.held, "a context read between the parts holds something else">>,
          <<Ev.sok = ~RawPanics(segs), "parts panic or not on a RawContext">>,
          <<Ev.sok => Ev.s = RawText(segs), "parts on a RawContext">>>>)
  /\ UNCHANGED <<pool, first, lost>>

(* The parser and the lexer. *)
JoinEv ==
  /\ IsEvent("join")
  /\ LET j == ParseJoin(Ev.str)
     IN bad' = IF ~j.ok
               THEN FirstOf(<<<<~Ev.panic, "ParseJoin panicked">>,
                              <<~Ev.ok, "ParseJoin accepted a text it cannot represent entirely">>,
                              <<Ev.zero, "ParseJoin returned a partial join with its error">>,
                              <<Ev.cause, "ParseJoin's error is not ErrJoinInvalidCondition">>,
                              <<Ev.must, "MustParseJoin did not panic">>>>)
               ELSE FirstOf(<<<<~Ev.panic, "ParseJoin panicked">>,
                              <<Ev.ok, "ParseJoin refused a well-formed join">>,
                              <<Ev.t = j.t, "join type">>,
                              <<Ev.tab = j.tab, "join table">>,
                              <<Ev.q = QueryText(Render(j.cond)), "join condition">>,
                              <<~Ev.must, "MustParseJoin panicked on a well-formed join">>>>)
  /\ UNCHANGED <<pool, first, lost>>
LexEv ==
  /\ IsEvent("lex")
  /\ LET toks == Lex(Ev.str)
     IN bad' = FirstOf(<<<<~Ev.panic, "the lexer panicked">>,
                         <<Ev.toks = toks, "tokens">>,
                         <<Ev.its = toks, "tokens of the iterator">>,
                         <<Ev.more = <<>>, "the lexer went on after the end of the text">>,
                         <<Lossless(Ev.str, Ev.toks), "the tokens lose a part of the text">>>>)
  /\ UNCHANGED <<pool, first, lost>>

Next == Lost \/ New \/ Call \/ RenderEv \/ IsEv \/ StmtEv \/ PartsEv \/ JoinEv \/ LexEv
Spec == Init /\ [][Next]_vars

(* Acceptance: no event is refused (invariant), and every event of every     *)
(* scenario was consumed (the driver compares the number of distinct states  *)
(* with the number of events, and Stuck fails on an event nothing explains). *)
Explained == bad = ""
Stuck == l <= Len(Events) /\ bad = "" => ENABLED Next
=============================================================================
