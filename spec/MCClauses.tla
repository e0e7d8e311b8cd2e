----------------------------- MODULE MCClauses -----------------------------
(* Clauses of the four statements, in any order and number (C09, C10).       *)
(* Every entry of a menu says which text its clause leaves (mark), its rank  *)
(* in the statement, and whether it can be set once (single), accumulates    *)
(* (many), or replaces (last).                                               *)
EXTENDS Theorems
CONSTANT Menu(_)

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
E(c, mark, rank, pol) == [c |-> c, mark |-> mark, rank |-> rank, pol |-> pol]
SelectMenu(u_) == <<
  E(C("Columns", <<Str("colB")>>), "\"colB\"", 5, "last"),
  E(C("Distinct", <<>>), " DISTINCT \"", 4, "last"),
  E(C("DistinctOn", <<Str("don")>>), " DISTINCT ON (\"don\")", 3, "single"),
  E(C("From", <<Str("t")>>), " FROM \"t\"", 6, "single"),
  E(C("Join", <<Str("LEFT JOIN j ON t.x = j.y")>>), " LEFT JOIN \"j\" ON \"t\".\"x\" = \"j\".\"y\"", 7, "many"),
  E(C("With", <<WithT("w", Raw("SELECT 1"))>>), "w AS (SELECT 1)", 2, "many"),
  E(C("Where", <<Raw("p")>>), "p", 8, "many"),
  E(C("And", <<Raw("q")>>), "q", 8, "many"),
  E(C("Or", <<Raw("r")>>), "r", 8, "many"),
  E(C("GroupBy", <<Str("g")>>), " GROUP BY \"g\"", 9, "single"),
  E(C("Having", <<Raw("h")>>), " HAVING h", 10, "single"),
  E(C("OrderBy", <<OrderT("o", "DESC")>>), "o DESC", 11, "many"),
  E(C("Limit", <<IntV("5")>>), " LIMIT 5", 12, "single"),
  E(C("Offset", <<IntV("7")>>), " OFFSET 7", 13, "single"),
  E(C("Suffix", <<Str("FOR UPDATE")>>), " FOR UPDATE", 14, "single"),
  E(C("Prefix", <<Str("EXPLAIN")>>), "EXPLAIN ", 1, "single"),
  E(C("Comment", <<Str("note")>>), "; -- note", 15, "last")>>
SelectStarts == <<New("select", <<Str("colA")>>), New("newselect", <<>>)>>
InsertMenu(u_) == <<
  E(C("Into", <<Str("t2")>>), "INSERT INTO \"t2\"", 1, "single"),
  E(C("Columns", <<Str("ca")>>), " (\"ca\")", 2, "single"),
  E(C("Values", <<IntV("1"), Str("x")>>), " VALUES ($1, $2)", 3, "single"),
  E(C("Set", <<Pair(Str("cs"), IntV("2"))>>), " (\"cs\") VALUES ($1)", 2, "single"),
  E(C("OnConflict", <<DoNothing>>), " ON CONFLICT DO NOTHING", 4, "single"),
  E(C("OnConflict", <<Str("k"), DoUpdate(<<Pair(Str("u"), IntV("3"))>>)>>), " ON CONFLICT (\"k\") DO UPDATE SET \"u\" = ", 4, "single"),
  E(C("Returning", <<Str("ret"), Col("ret2")>>), " RETURNING \"ret\", \"ret2\"", 5, "single"),
  E(C("Comment", <<Str("note")>>), "; -- note", 6, "last")>>
InsertStarts == <<New("insert", <<Str("t1")>>), New("newinsert", <<>>)>>
UpdateMenu(u_) == <<
  E(C("Only", <<>>), "UPDATE ONLY ", 2, "last"),
  E(C("Set", <<Pair(Str("s1"), IntV("1"))>>), "\"s1\" = ", 3, "last"),
  E(C("Set", <<Pair(Str("s2"), IntV("2"))>>), "\"s2\" = ", 3, "last"),
  E(C("With", <<WithT("w", Raw("SELECT 1"))>>), "w AS (SELECT 1)", 1, "many"),
  E(C("Where", <<Raw("p")>>), "p", 5, "many"),
  E(C("And", <<Raw("q")>>), "q", 5, "many"),
  E(C("Or", <<Raw("r")>>), "r", 5, "many"),
  E(C("From", <<Str("f")>>), " FROM \"f\"", 4, "single"),
  E(C("Returning", <<Str("ret")>>), " RETURNING \"ret\"", 6, "single"),
  E(C("Comment", <<Str("note")>>), "; -- note", 7, "last")>>
UpdateStarts == <<New("update", <<Str("t")>>)>>
DeleteMenu(u_) == <<
  E(C("From", <<Str("t2")>>), "FROM \"t2\"", 1, "single"),
  E(C("Using", <<Str("us")>>), " USING \"us\"", 2, "single"),
  E(C("Where", <<Raw("p")>>), "p", 3, "many"),
  E(C("And", <<Raw("q")>>), "q", 3, "many"),
  E(C("Or", <<Raw("r")>>), "r", 3, "many"),
  E(C("Returning", <<Str("k")>>), " RETURNING \"k\"", 4, "single"),
  E(C("Comment", <<Str("x")>>), "; -- x", 5, "last")>>
DeleteStarts == <<New("delete", <<Str("t1")>>), New("newdelete", <<>>)>>
MCCalls(u_) == [i \in 1..Len(Menu(0)) |-> Menu(0)[i].c]
MCPrefix == <<>>

-----------------------------------------------------------------------------
Called == [i \in 1..Len(TLCGet(42)) |-> Cardinality({j \in 2..(Len(hist) - (IF dead THEN 1 ELSE 0)) : hist[j][2] = i})]
Times(e, k) == IF e.pol = "last" /\ k > 1 THEN 1 ELSE k

(* The letters of the atoms p, q, r, h also occur in names: count them as    *)
(* they are written between conditions.                                      *)
(* Each clause is there once (or as often as it was given)... *)
ClauseOnce == Renders_ =>
  LET c == Called
      t == Text
  IN \A i \in 1..Len(TLCGet(42)) :
       (Len(MenuAt(i).mark) > 1) => Occ(t, MenuAt(i).mark) = Times(MenuAt(i), c[i])
(* ... and in the order of the ranks. *)
ClauseOrder == Renders_ =>
  LET c == Called
      t == Text
  IN \A i, j \in 1..Len(TLCGet(42)) :
       (c[i] > 0 /\ c[j] > 0 /\ MenuAt(i).rank < MenuAt(j).rank /\ Len(MenuAt(i).mark) > 1 /\ Len(MenuAt(j).mark) > 1)
       => LastOf(t, MenuAt(i).mark) < Find(t, MenuAt(j).mark)
(* A call panics exactly when its clause holds one value that is already     *)
(* set, or when a condition has nothing to be added to.                      *)
Before(m) == \E j \in 1..(Len(hist) - 1) : IF hist[j][1] = 0 THEN m = (CASE Starts[hist[j][2]].kind = "insert" -> "Into"
                                                                           [] Starts[hist[j][2]].kind = "delete" -> "From"
                                                                           [] OTHER -> "")
                                          ELSE CallAt(hist[j][2]).m = m
Refused == hist # <<>> =>
  LET l == hist[Len(hist)]
      e == MenuAt(l[2])
      m == e.c.m
      kind == pool[1].kind
  IN dead <=> /\ l[1] # 0
              /\ \/ e.pol = "single" /\ Before(m)
                 \/ m \in {"And", "Or"} /\ ~Before("Where")
                 \/ kind = "insert" /\ m = "Set" /\ (Before("Columns") \/ Before("Values"))
                 \/ kind = "insert" /\ m \in {"Columns", "Values"} /\ Before("Set")
(* A statement without its mandatory part does not render. *)
Mandatory == Live =>
  (RenderPanics(Segs) <=>
     CASE Newest.kind = "select" -> hist[1][2] = 2 /\ ~\E j \in 2..Len(hist) : CallAt(hist[j][2]).m = "Columns"
       [] Newest.kind = "insert" -> hist[1][2] = 2 /\ ~\E j \in 2..Len(hist) : CallAt(hist[j][2]).m = "Into"
       [] Newest.kind = "update" -> ~\E j \in 2..Len(hist) : CallAt(hist[j][2]).m = "Set"
       [] Newest.kind = "delete" -> hist[1][2] = 2 /\ ~\E j \in 2..Len(hist) : CallAt(hist[j][2]).m = "From")
=============================================================================
