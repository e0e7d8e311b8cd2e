------------------------------- MODULE Memory -------------------------------
(* Builders at the level of memory (C04, C05, C06).                          *)
(*                                                                           *)
(* Builders.tla says that builders are values.  In Go, the lists of a        *)
(* builder are slices: a reference to an array that other builders may       *)
(* refer to, and the length seen.  Here, threads that share a builder        *)
(* derive others from it and render any of theirs, one memory access at a    *)
(* time.  With the discipline of the code (a derivation copies the list,     *)
(* rendering only reads) no schedule has a data race and every rendering is  *)
(* the one of the value.  The same invariants fail with the disciplines that *)
(* look alike (append on a list that has room, sorting when rendering): the  *)
(* driver checks both.  Programs of MCShare then look for the accesses that  *)
(* this model excludes in the real code, under the race detector.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Threads,
  MaxOps,   \* operations of each thread
  Derive,   \* "copy" or "append"
  Show      \* "read" or "sort"

VARIABLES
  heap,     \* array -> cells; a cell is 0 when nothing was written
  touched,  \* <<array, cell>> -> set of <<thread, "r" or "w">> since the threads started
  bs,       \* thread -> sequence of the slices it holds, the shared one first: [a |-> array, n |-> length]
  val,      \* thread -> the same, as values
  job,      \* thread -> what it is doing
  left      \* thread -> operations it may still start
vars == <<heap, touched, bs, val, job, left>>

Idle == [op |-> "idle"]
(* The shared list was made by two derivations: it holds two elements and    *)
(* has room for two more.  (2, 1: not sorted.)                               *)
Init ==
  /\ heap = <<<<2, 1, 0, 0>>>>
  /\ touched = <<>>
  /\ bs = [t \in Threads |-> <<[a |-> 1, n |-> 2]>>]
  /\ val = [t \in Threads |-> <<<<2, 1>>>>]
  /\ job = [t \in Threads |-> Idle]
  /\ left = [t \in Threads |-> MaxOps]

Access(t, a, i, rw) ==
  LET c == <<a, i>>
      s == IF c \in DOMAIN touched THEN touched[c] ELSE {}
  IN touched' = [x \in DOMAIN touched \union {c} |-> IF x = c THEN s \union {<<t, rw>>} ELSE touched[x]]

Start(t) ==
  /\ job[t] = Idle /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E h \in 1..Len(bs[t]) :
       job' = [job EXCEPT ![t] = [op |-> "derive", h |-> h, i |-> 1, got |-> <<>>]]
       \/ job' = [job EXCEPT ![t] = [op |-> "render", h |-> h, i |-> 1, got |-> <<>>]]
  /\ UNCHANGED <<heap, touched, bs, val>>

New(t) == 10 * t + left[t] \* the element a derivation adds: 10, 11... (every thread its own)
Slice(t) == bs[t][job[t].h]

(* Reading one element. *)
Read(t) ==
  LET s == Slice(t)
  IN /\ job[t].op \in {"render", "derive"} /\ job[t].i <= s.n
     /\ (job[t].op = "derive" => Derive = "copy" \/ Len(heap[s.a]) = s.n)
     /\ Access(t, s.a, job[t].i, "r")
     /\ job' = [job EXCEPT ![t].i = @ + 1, ![t].got = Append(@, heap[s.a][job[t].i])]
     /\ UNCHANGED <<heap, bs, val, left>>

Keep(t, s) == /\ bs' = [bs EXCEPT ![t] = Append(@, s)]
              /\ val' = [val EXCEPT ![t] = Append(@, Append(val[t][job[t].h], New(t)))]
              /\ job' = [job EXCEPT ![t] = Idle]
              /\ UNCHANGED left
(* The elements read and the new one go to a new array, with some room left. *)
Copy(t) ==
  LET s == Slice(t)
  IN /\ job[t].op = "derive" /\ job[t].i = s.n + 1 /\ (Derive = "copy" \/ Len(heap[s.a]) = s.n)
     /\ heap' = Append(heap, job[t].got \o <<New(t), 0>>)
     /\ Keep(t, [a |-> Len(heap) + 1, n |-> s.n + 1])
     /\ UNCHANGED touched
(* The new element goes after the others, when there is room. *)
InPlace(t) ==
  LET s == Slice(t)
  IN /\ job[t].op = "derive" /\ job[t].i = 1 /\ Derive = "append" /\ Len(heap[s.a]) > s.n
     /\ heap' = [heap EXCEPT ![s.a][s.n + 1] = New(t)]
     /\ Access(t, s.a, s.n + 1, "w")
     /\ Keep(t, [a |-> s.a, n |-> s.n + 1])

(* Rendering ends with the elements read; it may have sorted them in place. *)
Sorted(q) == CHOOSE p \in [1..Len(q) -> {q[i] : i \in 1..Len(q)}] :
               /\ \A i, j \in 1..Len(q) : i < j => p[i] <= p[j]
               /\ \A x \in {q[i] : i \in 1..Len(q)} : Cardinality({i \in 1..Len(q) : q[i] = x}) = Cardinality({i \in 1..Len(q) : p[i] = x})
Done(t) ==
  LET s == Slice(t)
  IN /\ job[t].op = "render" /\ job[t].i = s.n + 1
     /\ job' = [job EXCEPT ![t] = [op |-> "shown", h |-> job[t].h, got |-> job[t].got]]
     /\ IF Show = "sort"
        THEN /\ heap' = [heap EXCEPT ![s.a] = [i \in 1..Len(@) |-> IF i <= s.n THEN Sorted(SubSeq(@, 1, s.n))[i] ELSE @[i]]]
             /\ Access(t, s.a, 1, "w")
        ELSE UNCHANGED <<heap, touched>>
     /\ UNCHANGED <<bs, val, left>>
Rest(t) == job[t].op = "shown" /\ job' = [job EXCEPT ![t] = Idle] /\ UNCHANGED <<heap, touched, bs, val, left>>

Next == \E t \in Threads : Start(t) \/ Read(t) \/ Copy(t) \/ InPlace(t) \/ Done(t) \/ Rest(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* No two threads use the same cell without synchronisation, one to write. *)
NoRace == \A c \in DOMAIN touched : \A x, y \in touched[c] : x[1] # y[1] => ~(x[2] = "w" \/ y[2] = "w")
(* What is rendered is the value of the builder (C05, C06), and a builder    *)
(* never changes (C04).                                                      *)
Alone == \A t \in Threads : job[t].op = "shown" => job[t].got = val[t][job[t].h]
Unchanged == \A t \in Threads : \A h \in 1..Len(bs[t]) : SubSeq(heap[bs[t][h].a], 1, bs[t][h].n) = val[t][h]
TwoThreads == {1, 2}
ThreeThreads == {1, 2, 3}
OneThread == {1}
=============================================================================
