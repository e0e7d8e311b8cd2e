------------------------------- MODULE MCJoin -------------------------------
(* Textual joins (C15): an automaton writes every join of the grammar within *)
(* the bounds, knowing what it means, and every text that differs from one   *)
(* of them by at most Edits tokens added or left out; prefixes are texts     *)
(* too.  ParseJoin must find the meaning of the former, and the code must    *)
(* agree with ParseJoin on all of them.                                      *)
EXTENDS JoinLang, Builders, Json, CSV, IOUtils

CONSTANTS
  MaxOps,  \* comparisons
  Depth,   \* parentheses
  Edits,   \* tokens added or left out
  Noise    \* the tokens that may be added

VARIABLES toks, at, depth, edits, mean
vars == <<toks, at, depth, edits, mean>>
OutFile == IOEnv.OUT

Names == <<"t", "a.x", "b", "C_1.y", "d", "e", "f9", "g", "h", "i", "j.k", "l2", "m", "n", "o_p", "q1">>
Nth == Names[1 + Len(SelectSeq(toks, LAMBDA x : x \in {Names[i] : i \in 1..Len(Names)}))]

FewNoise == {"x", "=", "AND", "(", ")", ";", "ON", "JOIN", "LEFT", "#", "SELECT"}
AllNoise == FewNoise \union {"OR", "INNER", "RIGHT", "CROSS", "*", ",", ":", "7", "-", "'", "'s'", "\"q\"", "NOT", "USING", "ONN", ".", "_", "é", ">"}
NoNoise == {}

Init ==
  /\ toks = <<>> /\ at = "start" /\ depth = 0 /\ edits = 0
  /\ mean = [t |-> "INNER JOIN", tab |-> "", cs |-> <<>>]

(* To write a token, or to forget it. *)
Emit(t) == \/ toks' = Append(toks, t) /\ UNCHANGED edits
           \/ edits < Edits /\ edits' = edits + 1 /\ UNCHANGED toks
Go(from, t, to) == at \in from /\ Emit(t) /\ at' = to
Same == UNCHANGED <<depth, mean>>

Type == \E t \in {"INNER", "LEFT", "RIGHT"} :
          /\ Go({"start"}, t, "type") /\ mean' = [mean EXCEPT !.t = t \o " JOIN"] /\ UNCHANGED depth
JoinWord == Go({"start", "type"}, "JOIN", "head") /\ Same
Table == Go({"start", "head"}, Nth, "table") /\ mean' = [mean EXCEPT !.tab = Nth] /\ UNCHANGED depth
On_ == Go({"start", "head", "table"}, "ON", "cond") /\ Same
Open == depth < Depth /\ Go({"start", "head", "cond"}, "(", "cond") /\ depth' = depth + 1 /\ UNCHANGED mean
Left == /\ Go({"start", "head", "cond", "next"}, Nth, "name") /\ UNCHANGED depth
        /\ mean' = [mean EXCEPT !.cs = IF at = "next" THEN [@ EXCEPT ![Len(@)].l = Nth] ELSE <<[op |-> "", l |-> Nth, r |-> ""]>>]
Equals == Go({"name"}, "=", "equals") /\ Same
Right == Go({"equals"}, Nth, "full") /\ UNCHANGED depth /\ mean' = [mean EXCEPT !.cs[Len(mean.cs)].r = Nth]
Logic == \E op \in {"AND", "OR"} :
           /\ Len(mean.cs) < MaxOps /\ Go({"full"}, op, "next") /\ UNCHANGED depth
           /\ mean' = [mean EXCEPT !.cs = Append(@, [op |-> op, l |-> "", r |-> ""])]
Close == depth > 0 /\ Go({"full", "closed"}, ")", "closed") /\ depth' = depth - 1 /\ UNCHANGED mean
End == depth = 0 /\ Go({"full", "closed"}, ";", "end") /\ Same
Add == edits < Edits /\ \E t \in Noise : toks' = Append(toks, t) /\ edits' = edits + 1 /\ UNCHANGED <<at, depth, mean>>

Next == Type \/ JoinWord \/ Table \/ On_ \/ Open \/ Left \/ Equals \/ Right \/ Logic \/ Close \/ End \/ Add
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Letters of any case, blanks anywhere, none where none is needed. *)
LowerOf == [c \in UpperSet |-> Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c)]
Cased(s, i) == IF s \notin Keywords \/ i % 3 = 0 THEN s
               ELSE Cat([j \in 1..Len(s) |-> IF i % 3 = 1 /\ j % 2 = 1 THEN Ch(s, j) ELSE LowerOf[Ch(s, j)]])
Tight == {"=", "(", ")", ";", "*", ",", ":", "#"}
Blank(i) == CASE i % 4 = 0 -> "\n" [] i % 4 = 1 -> " " [] i % 4 = 2 -> "  " [] OTHER -> "\t"
n == Len(toks)
text == Cat([i \in 1..n |->
  Cased(toks[i], i + n) \o (IF i = n THEN "" ELSE IF (i + n) % 2 = 0 /\ (toks[i] \in Tight \/ toks[i + 1] \in Tight) THEN "" ELSE Blank(i + n))])

Parsed == ParseJoin(text)
Final == at = "end" \/ (at \in {"full", "closed"} /\ depth = 0)
RECURSIVE Meaning(_)
Meaning(cs) ==
  LET c  == cs[Len(cs)]
      eq == "\"" \o Join(Split(c.l, "."), "\".\"") \o "\" = \"" \o Join(Split(c.r, "."), "\".\"") \o "\""
  IN IF Len(cs) = 1 THEN eq ELSE Cat(<<"(", Meaning(SubSeq(cs, 1, Len(cs) - 1)), " ", c.op, " ", eq, ")">>)
Whole == edits = 0 => (Parsed.ok <=> Final)
Meant == edits = 0 /\ Final =>
  Parsed.t = mean.t /\ Parsed.tab = mean.tab /\ QueryText(Render(Parsed.cond)) = Meaning(mean.cs)

Shown == [text |-> text, at |-> at, mean |-> mean]
Export ==
  LET p == Parsed
  IN CSVWrite("%1$s", <<ToJson([ev |-> <<IF p.ok THEN [op |-> "join", str |-> text, xok |-> TRUE, xt |-> p.t, xtab |-> p.tab, xq |-> QueryText(Render(p.cond))]
                                         ELSE [op |-> "join", str |-> text, xok |-> FALSE]>>])>>, OutFile)
=============================================================================
