-------------------------------- MODULE Sql ---------------------------------
(* What loukoum's expressions and builders mean.                             *)
(*                                                                           *)
(* A node is a record with a field k.  Two kinds of nodes exist:             *)
(*   - argument terms, which say how a caller wrote an argument (they are    *)
(*     also the JSON language shared with the Go harness), and               *)
(*   - expression nodes, the abstract syntax loukoum keeps.                  *)
(* Build turns the former into the latter, or into PANIC.                    *)
(*                                                                           *)
(* A statement renders to a sequence of segments: a piece of text, a bound   *)
(* value, or the marker saying that rendering panics.  The three public      *)
(* renderings (Query, NamedQuery, String) are three readings of one and the  *)
(* same sequence: this is the design decision everything else rests on.      *)
EXTENDS Strs

PANIC == [k |-> "panic"]
NIL   == [k |-> "nil"]
NULL  == [k |-> "null"]
IsPanic(x) == x.k = "panic"
AnyPanic(ss) == \E i \in 1..Len(ss) : ss[i].k = "panic"

-----------------------------------------------------------------------------
(* Segments *)
T(s) == [b |-> 0, s |-> s]
B(v) == [b |-> 1, v |-> v]
P    == [b |-> 2]

RECURSIVE CatSegR(_, _, _)
CatSegR(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET mid == (lo + hi) \div 2 IN CatSegR(ss, lo, mid) \o CatSegR(ss, mid + 1, hi)
CatSegs(ss) == CatSegR(ss, 1, Len(ss))

SepBy(ss, sep) ==
  CatSegs([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE <<T(sep)>> \o ss[i]])

Paren(segs) == <<T("(")>> \o segs \o <<T(")")>>

-----------------------------------------------------------------------------
(* Identifiers: PostgreSQL quoting, one quoted part per dot-separated part.  *)
QuotePart(p) == "\"" \o (IF HasChar(p, "\"") THEN MapChars(p, LAMBDA c : IF c = "\"" THEN "\"\"" ELSE c) ELSE p) \o "\""
Quote(name) ==
  IF HasChar(name, ".")
  THEN LET parts == Split(name, ".") IN Join([i \in 1..Len(parts) |-> QuotePart(parts[i])], ".")
  ELSE QuotePart(name)

(* The inverse, used to state that quoting loses nothing: the quoted parts   *)
(* of a text, or <<>> when the text is not exactly a dotted list of them.    *)
RECURSIVE UnquoteR(_, _, _, _)
UnquoteR(s, i, part, parts) == \* i is inside a quoted part
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) # "\"" THEN UnquoteR(s, i + 1, part \o Ch(s, i), parts)
  ELSE IF i = Len(s) THEN Append(parts, part)
  ELSE IF Ch(s, i + 1) = "\"" THEN UnquoteR(s, i + 2, part \o "\"", parts)
  ELSE IF Ch(s, i + 1) = "." /\ i + 2 <= Len(s) /\ Ch(s, i + 2) = "\""
       THEN UnquoteR(s, i + 3, "", Append(parts, part))
  ELSE <<>>
Unquote(s) == IF s = "" \/ Ch(s, 1) # "\"" THEN <<>> ELSE UnquoteR(s, 2, "", <<>>)

(* Columns and tables: [n |-> name, as |-> alias, only |-> BOOLEAN] *)
ColNode(n) == [k |-> "col", n |-> n, as |-> ""]
TabNode(n) == [k |-> "tab", n |-> n, as |-> "", only |-> FALSE]
NamedText(n, as) == IF as = "" THEN Quote(n) ELSE Cat(<<Quote(n), " AS ", Quote(as)>>)
ColText(c) == NamedText(c.n, c.as)
TabText(t) == IF t.only THEN "ONLY " \o NamedText(t.n, t.as) ELSE NamedText(t.n, t.as)

-----------------------------------------------------------------------------
(* Literals, the way String() writes a bound value. *)
StringLit(s) ==
  Cat(<<"'", MapChars(s, LAMBDA c : CASE c = "'"  -> "\\'"
                                      [] c = "\\" -> "\\\\"
                                      [] c = "\n" -> "\\n"
                                      [] c = "\r" -> "\\r"
                                      [] c = "\t" -> "\\t"
                                      [] OTHER    -> c), "'">>)

(* Decoding it again (the inverse of the escapes above). *)
RECURSIVE UnlitR(_, _)
UnlitR(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) # "\\" THEN <<Ch(s, i)>> \o UnlitR(s, i + 1)
  ELSE <<CASE Ch(s, i + 1) = "n" -> "\n"
           [] Ch(s, i + 1) = "r" -> "\r"
           [] Ch(s, i + 1) = "t" -> "\t"
           [] OTHER -> Ch(s, i + 1)>> \o UnlitR(s, i + 2)
StringUnlit(s) == Cat(UnlitR(SubSeq(s, 2, Len(s) - 1), 1))

(* Days since 1970-01-01 of a proleptic Gregorian date, and back. *)
DaysFromCivil(y0, m, d) ==
  LET y   == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilFromDays(z0) ==
  LET z   == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE TrimRightZeros(_)
TrimRightZeros(s) == IF s = "" THEN "" ELSE IF Ch(s, Len(s)) = "0" THEN TrimRightZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* v is "YYYY-MM-DDThh:mm:ss.nnnnnnnnn+hh:mm"; the literal is in UTC with    *)
(* microseconds, truncated.                                                  *)
TimeLit5(era, v) ==
  LET num(i, j) == ToInt(SubSeq(v, i, j))
      off  == (num(31, 32) * 60 + num(34, 35)) * (IF Ch(v, 30) = "-" THEN -1 ELSE 1)
      mins == num(12, 13) * 60 + num(15, 16) - off
      day  == DaysFromCivil(num(1, 4), num(6, 7), num(9, 10)) + mins \div 1440
      mm   == mins % 1440
      ymd  == CivilFromDays(day)
      frac == TrimRightZeros(SubSeq(v, 21, 26))
  IN Cat(<<"'", era, Pad4(ymd[1]), "-", Pad2(ymd[2]), "-", Pad2(ymd[3]), " ", Pad2(mm \div 60), ":", Pad2(mm % 60),
           ":", SubSeq(v, 18, 19), IF frac = "" THEN "" ELSE "." \o frac, "+00'">>)
(* The years from 10000 to 19999 have one more digit, and the calendar of the *)
(* years from 0 to 9999.                                                      *)
TimeLit(v) == IF Ch(v, 5) = "-" THEN TimeLit5("", v) ELSE TimeLit5(Ch(v, 1), SubSeq(v, 2, Len(v)))

(* Types whose literal is their plain text. *)
NumTypes == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
             "float32", "float64", "bool"}
(* A driver.Valuer whose Value() fails has no literal: String() panics.      *)
NoLiteral == "<no literal>"
RECURSIVE HasLit(_)
HasLit(n) == n.k # "error" /\ (n.k = "val" /\ "in" \in DOMAIN n => HasLit(n.in))
RECURSIVE Lit(_)
Lit(n) ==
  IF n.k = "error" THEN NoLiteral
  ELSE IF n.k # "val" THEN "NULL"
  ELSE IF "in" \in DOMAIN n THEN Lit(n.in)          \* a driver.Valuer is unwrapped
  ELSE IF n.t = "string" THEN StringLit(n.v)
  ELSE IF n.t = "[]uint8" THEN Cat(<<"decode('", IF n.v = "nil" THEN "" ELSE n.v, "', 'hex')">>)
  ELSE IF n.t = "time.Time" THEN TimeLit(n.v)
  ELSE IF n.t \in NumTypes THEN n.v
  ELSE n.p                                           \* fmt.Sprint: debugging output, no promise

-----------------------------------------------------------------------------
(* Emptiness of expression nodes *)
RECURSIVE Empty(_)
Empty(n) ==
  CASE n.k = "nil"   -> TRUE
    [] n.k = "ident" -> n.v = ""
    [] n.k = "raw"   -> n.v = ""
    [] n.k = "arr"   -> n.a = <<>>
    [] n.k = "infix" -> Empty(n.l) \/ Empty(n.r)
    [] n.k = "in"    -> Empty(n.x)
    [] n.k = "btw"   -> Empty(n.x) \/ Empty(n.lo) \/ Empty(n.hi)
    [] n.k = "wrap"  -> Empty(n.x)
    [] n.k = "on"    -> n.l = "" \/ n.r = ""
    [] n.k = "sel"   -> n.q.exprs = <<>>
    [] OTHER         -> FALSE

Wrap(n) == IF n.k \in {"sel", "ex"} THEN [k |-> "wrap", x |-> n] ELSE n
(* A subquery is always between parentheses, EXISTS only where it has to be. *)
WrapSel(n) == IF n.k = "sel" THEN [k |-> "wrap", x |-> n] ELSE n

(* NewExpression: what an interface{} argument becomes. *)
EncOrder == <<"stmt", "int64", "bool", "time", "string">>
RECURSIVE NewExpr(_)
NewExpr(n) ==
  CASE n.k = "nil"   -> NULL
    [] n.k \in {"null", "val", "ident", "identraw", "raw", "infix", "in", "btw", "ex", "call", "wrap", "on", "sel",
                "arr"} -> IF Empty(n) THEN PANIC ELSE n
    [] n.k = "slice" -> IF n.t \in {"[]int64", "[]string"} THEN [k |-> "val", t |-> n.t, v |-> n.v, p |-> n.p] ELSE PANIC
    [] n.k = "ptime" -> NewExpr(n.e)
    [] n.k = "enc"   -> LET i == CHOOSE i \in 1..5 : EncOrder[i] \in DOMAIN n.i /\ \A j \in 1..(i - 1) : EncOrder[j] \notin DOMAIN n.i
                        IN NewExpr(n.i[EncOrder[i]])
    [] OTHER         -> PANIC

(* NewArrayExpression: several arguments are the elements; a single slice is *)
(* expanded; a single nil is no element at all.                              *)
SliceTypes == {"[]string", "[]int", "[]uint", "[]int8", "[]int16", "[]uint16", "[]int32", "[]uint32", "[]int64", "[]uint64",
               "[]bool", "[]float32", "[]float64", "[][]uint8", "[]stmt.Expression", "[]interface {}"}
ArrNode(ns) == LET a == [i \in 1..Len(ns) |-> NewExpr(ns[i])]
               IN IF AnyPanic(a) THEN PANIC ELSE [k |-> "arr", a |-> a]
Arr(ns) ==
  IF Len(ns) = 1
  THEN CASE ns[1].k = "nil" -> [k |-> "arr", a |-> <<>>]
         [] ns[1].k = "slice" /\ ns[1].t \in SliceTypes -> ArrNode(ns[1].a)
         [] OTHER -> ArrNode(ns)
  ELSE ArrNode(ns)
(* A row of VALUES: a single nil is a NULL column, a lone subquery is wrapped. *)
Row(ns) ==
  IF Len(ns) = 1 /\ ns[1].k = "nil" THEN [k |-> "arr", a |-> <<NULL>>]
  ELSE LET r == Arr(ns)
       IN IF ~IsPanic(r) /\ Len(r.a) = 1 THEN [k |-> "arr", a |-> <<Wrap(r.a[1])>>] ELSE r

-----------------------------------------------------------------------------
(* Comparison operators: method name -> SQL operator *)
CmpOps == [Contains |-> "@>", IsContainedBy |-> "<@", Overlap |-> "&&", Equal |-> "=", NotEqual |-> "!=", Is |-> "IS",
           IsNot |-> "IS NOT", GreaterThan |-> ">", GreaterThanOrEqual |-> ">=", LessThan |-> "<", LessThanOrEqual |-> "<=",
           Like |-> "LIKE", NotLike |-> "NOT LIKE", ILike |-> "ILIKE", NotILike |-> "NOT ILIKE",
           IsDistinctFrom |-> "IS DISTINCT FROM", IsNotDistinctFrom |-> "IS NOT DISTINCT FROM"]
InOps  == [In |-> "IN", NotIn |-> "NOT IN"]
BtwOps == [Between |-> "BETWEEN", NotBetween |-> "NOT BETWEEN"]
ExOps  == [Exists |-> "EXISTS", NotExists |-> "NOT EXISTS"]

Infix(l, op, r) == [k |-> "infix", op |-> op, l |-> WrapSel(l), r |-> WrapSel(r)]

(* Build: argument term -> node.  pool gives the builders the term may        *)
(* mention by handle.                                                         *)
RECURSIVE Build(_, _)
BuildAll(es, pool) == [i \in 1..Len(es) |-> Build(es[i], pool)]
Build(e, pool) ==
  CASE e.k = "value" -> LET n == Build(e.e, pool) IN IF n.k = "nil" THEN NULL ELSE n
    [] e.k = "cmp" ->
         LET x == Build(e.x, pool)
             a == NewExpr(Build(e.a[1], pool))
         IN IF IsPanic(x) \/ IsPanic(a) THEN PANIC ELSE Infix(x, CmpOps[e.m], Wrap(a))
    [] e.k = "isnull" -> LET x == Build(e.x, pool) IN IF IsPanic(x) THEN PANIC
                         ELSE Infix(x, IF e.v THEN "IS" ELSE "IS NOT", NULL)
    [] e.k = "in" ->
         LET x == Build(e.x, pool)
             a == BuildAll(e.a, pool)
             r == IF AnyPanic(a) THEN PANIC ELSE Arr(a)
         IN IF IsPanic(x) \/ IsPanic(r) THEN PANIC ELSE [k |-> "in", op |-> InOps[e.m], x |-> WrapSel(x), a |-> r]
    [] e.k = "btw" ->
         LET x  == Build(e.x, pool)
             lo == NewExpr(Build(e.a[1], pool))
             hi == NewExpr(Build(e.a[2], pool))
         IN IF IsPanic(x) \/ IsPanic(lo) \/ IsPanic(hi) THEN PANIC
            ELSE [k |-> "btw", op |-> BtwOps[e.m], x |-> x, lo |-> Wrap(lo), hi |-> Wrap(hi)]
    [] e.k = "log" ->
         LET l == Build(e.l, pool)
             r == Build(e.r, pool)
         IN IF IsPanic(l) \/ IsPanic(r) THEN PANIC
            ELSE Infix(l, e.op, IF e.f = "m" /\ l.k = "infix" THEN Wrap(r) ELSE r)
    [] e.k = "ex" -> LET n == NewExpr(Build(e.e, pool)) IN IF IsPanic(n) THEN PANIC ELSE [k |-> "ex", op |-> ExOps[e.m], e |-> n]
    [] e.k = "call" -> LET a == BuildAll(e.a, pool) IN IF \E i \in 1..Len(a) : IsPanic(a[i]) \/ Empty(a[i]) THEN PANIC ELSE [k |-> "call", f |-> e.f, a |-> a]
    [] e.k = "wrapx" -> LET n == Build(e.e, pool) IN IF IsPanic(n) THEN PANIC ELSE Wrap(n)
    [] e.k = "on" -> [k |-> "on", l |-> e.l, r |-> e.r]
    [] e.k = "onlog" -> LET l == Build(e.l, pool)
                            r == Build(e.r, pool)
                        IN IF IsPanic(l) \/ IsPanic(r) THEN PANIC ELSE Infix(l, e.op, r)
    [] e.k \in {"b", "bs"} -> IF pool[e.h].kind = "select" THEN [k |-> "sel", q |-> pool[e.h]] ELSE [k |-> "bad"]
    [] e.k = "slice" -> LET a == BuildAll(e.a, pool) IN IF AnyPanic(a) THEN PANIC ELSE [e EXCEPT !.a = a]
    [] e.k = "rows" -> LET a == [i \in 1..Len(e.a) |-> BuildAll(e.a[i], pool)]
                       IN IF \E i \in 1..Len(a) : AnyPanic(a[i]) THEN PANIC ELSE [e EXCEPT !.a = a]
    [] e.k = "ptime" -> [k |-> "ptime", e |-> Build(e.e, pool)]
    [] e.k = "enc" -> [k |-> "enc", i |-> [f \in DOMAIN e.i |-> Build(e.i[f], pool)]]
    [] e.k = "join" -> LET c == Build(e.cond, pool) IN IF IsPanic(c) THEN PANIC ELSE [e EXCEPT !.cond = WrapSel(c)]
    [] e.k \in {"sexps", "from", "doupdate"} -> LET a == BuildAll(e.a, pool) IN IF AnyPanic(a) THEN PANIC ELSE [e EXCEPT !.a = a]
    [] e.k = "pair" -> LET v == Build(e.val, pool) IN IF IsPanic(v) THEN PANIC ELSE [e EXCEPT !.val = v]
    [] e.k = "map" -> LET a == [i \in 1..Len(e.a) |-> Build(e.a[i].val, pool)]
                      IN IF AnyPanic(a) THEN PANIC ELSE [e EXCEPT !.a = [i \in 1..Len(e.a) |-> [e.a[i] EXCEPT !.val = a[i]]]]
    [] e.k = "with" -> LET n == NewExpr(Build(e.e, pool)) IN IF IsPanic(n) THEN PANIC ELSE [k |-> "with", n |-> e.n, e |-> n]
    [] OTHER -> e

-----------------------------------------------------------------------------
(* Sets of pairs (SET, DO UPDATE, Insert.Set) *)
NewSet(mode) == [mode |-> mode, pairs |-> <<>>, cols |-> <<>>, exprs |-> <<>>, bad |-> FALSE]
SetAdd(set, col, expr) ==
  IF set.bad \/ set.mode = "list" \/ IsPanic(expr) \/ col.k # "col" THEN [set EXCEPT !.bad = TRUE]
  ELSE LET i == {j \in 1..Len(set.pairs) : set.pairs[j].c = col}
       IN [set EXCEPT !.mode = "assoc",
                      !.pairs = IF i = {} THEN Append(@, [c |-> col, e |-> expr])
                                ELSE [j \in 1..Len(@) |-> IF j \in i THEN [c |-> col, e |-> expr] ELSE @[j]]]
SetCol(set, col) ==
  IF set.bad \/ set.mode = "assoc" THEN [set EXCEPT !.bad = TRUE]
  ELSE [set EXCEPT !.mode = "list", !.cols = Append(@, col)]

IsStr(a) == a.k = "val" /\ a.t = "string"
(* ToColumn *)
OneColumn(a) ==
  CASE IsStr(a) -> LET n == TrimSpace(a.v) IN IF n = "" THEN PANIC ELSE ColNode(n)
    [] a.k = "col" -> IF a.n = "" THEN PANIC ELSE [k |-> "col", n |-> a.n, as |-> a.as]
    [] OTHER -> PANIC
(* "a, b" -> columns *)
SplitColumns(s) ==
  LET parts == Split(s, ",")
  IN [i \in 1..Len(parts) |-> LET n == TrimSpace(parts[i]) IN IF n = "" THEN PANIC ELSE ColNode(n)]
(* ToColumns: a sequence of columns; it contains PANIC if the call panics *)
ColumnsOf(a) == CASE IsStr(a) -> SplitColumns(a.v)
                  [] a.k = "col" -> <<OneColumn(a)>>
                  [] OTHER -> <<PANIC>>
ToColumns(args) ==
  LET list == IF Len(args) = 1 /\ args[1].k \in {"cols"} THEN args[1].a
              ELSE IF Len(args) = 1 /\ args[1].k = "slice" /\ args[1].t = "[]string" THEN args[1].a
              ELSE args
  IN CatSegs([i \in 1..Len(list) |-> ColumnsOf(list[i])])
(* ToSelectExpressions *)
SelectExprsOf(a) == CASE IsStr(a) -> SplitColumns(a.v)
                      [] a.k = "col" -> <<OneColumn(a)>>
                      [] a.k = "agg" -> IF a.v = "" THEN <<PANIC>> ELSE <<a>>
                      [] a.k = "raw" -> IF a.v = "" THEN <<PANIC>> ELSE <<a>>
                      [] a.k = "ex" -> <<a>>
                      [] OTHER -> <<PANIC>>
ToSelectExprs(args) ==
  IF Len(args) = 1 /\ args[1].k = "slice" /\ args[1].t = "[]string"
  THEN [i \in 1..Len(args[1].a) |-> LET n == args[1].a[i].v IN IF TrimSpace(n) = "" THEN PANIC ELSE ColNode(n)]
  ELSE LET list == IF Len(args) = 1 /\ args[1].k \in {"cols", "sexps"} THEN args[1].a ELSE args
       IN CatSegs([i \in 1..Len(list) |-> SelectExprsOf(list[i])])

RECURSIVE MergeSet(_, _)
SetPair(set, p) == SetAdd(set, OneColumn(p.key), Wrap(NewExpr(p.val)))
RECURSIVE SetPairs(_, _)
SetPairs(set, ps) == IF ps = <<>> THEN set ELSE SetPairs(SetPair(set, Head(ps)), Tail(ps))
RECURSIVE SetCols(_, _)
SetCols(set, cs) == IF cs = <<>> THEN set
                    ELSE SetCols(IF IsPanic(Head(cs)) THEN [set EXCEPT !.bad = TRUE] ELSE SetCol(set, Head(cs)), Tail(cs))
MergeSet(set, args) ==
  IF args = <<>> THEN set
  ELSE LET a == Head(args)
           s == CASE IsStr(a) \/ a.k = "col" -> SetCols(set, ColumnsOf(a))
                  [] a.k = "pair" -> SetPair(set, a)
                  [] a.k = "map" -> SetPairs(set, a.a)
                  [] OTHER -> [set EXCEPT !.bad = TRUE]
       IN MergeSet(s, Tail(args))
SetEmpty(set) == set.mode = "none" \/ (set.pairs = <<>> /\ set.exprs = <<>>)

(* The order of the pairs of a SET clause: by column name, then by alias. *)
ColLess(a, b) == IF a.n = b.n THEN StrLess(a.as, b.as) ELSE StrLess(a.n, b.n)
RECURSIVE InsertPair(_, _)
InsertPair(ps, p) == IF ps = <<>> THEN <<p>>
                     ELSE IF ColLess(p.c, Head(ps).c) THEN <<p>> \o ps
                     ELSE <<Head(ps)>> \o InsertPair(Tail(ps), p)
RECURSIVE SortPairsR(_, _)
SortPairsR(ps, acc) == IF ps = <<>> THEN acc ELSE SortPairsR(Tail(ps), InsertPair(acc, Head(ps)))
SortPairs(ps) == SortPairsR(ps, <<>>)

-----------------------------------------------------------------------------
(* Builders.  An undefined clause is "", <<>>, NIL or FALSE. *)
NewSelect == [kind |-> "select", prefix |-> "", with |-> <<>>, distinct |-> FALSE, distinctOn |-> <<>>, exprs |-> <<>>,
              from |-> <<>>, joins |-> <<>>, where |-> NIL, groupBy |-> <<>>, having |-> NIL, orderBy |-> <<>>,
              limit |-> "", offset |-> "", suffix |-> "", comment |-> ""]
NewInsert == [kind |-> "insert", into |-> TabNode(""), columns |-> <<>>, values |-> <<>>, target |-> <<>>, action |-> NIL,
              returning |-> <<>>, comment |-> ""]
NewUpdate(t) == [kind |-> "update", with |-> <<>>, table |-> t, only |-> FALSE, set |-> NewSet("none"), from |-> <<>>,
                 where |-> NIL, returning |-> <<>>, comment |-> ""]
NewDelete == [kind |-> "delete", from |-> <<>>, using |-> <<>>, where |-> NIL, returning |-> <<>>, comment |-> ""]
BAD == [kind |-> "panic"]

(* ToTable, ToFrom, ToInto *)
OneTable(a) == CASE IsStr(a) -> IF a.v = "" THEN PANIC ELSE TabNode(a.v)
                 [] a.k = "tab" -> IF a.n = "" THEN PANIC ELSE a
                 [] OTHER -> PANIC
FromItem(a) == CASE IsStr(a) \/ a.k = "tab" -> <<OneTable(a)>>
                 [] a.k = "raw" -> IF a.v = "" THEN <<PANIC>> ELSE <<a>>
                 [] OTHER -> <<PANIC>>
FromItems(a) == IF a.k = "from" THEN CatSegs([i \in 1..Len(a.a) |-> FromItem(a.a[i])]) ELSE FromItem(a)
ToFrom(args) == LET f == CatSegs([i \in 1..Len(args) |-> FromItems(args[i])]) IN IF f = <<>> THEN <<PANIC>> ELSE f
OneInto(a) == IF a.k = "into" THEN OneTable(a.e) ELSE OneTable(a)

(* ToInt64 of a limit or an offset: canonical decimal, "" if not an integer *)
ToInt64(a) ==
  CASE a.k = "val" /\ a.t \in {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32"} -> a.v
    [] a.k = "val" /\ a.t \in {"uint", "uint64"} -> IF DecLeq(a.v, MaxInt64) THEN a.v ELSE ""
    [] a.k = "val" /\ a.t = "string" -> ParseInt64(a.v)
    [] a.k \in {"lim", "off"} -> a.v
    [] OTHER -> ""
Negative(s) == s # "" /\ Ch(s, 1) = "-"
ToLimit(a)  == LET n == IF a.k = "off" THEN "" ELSE ToInt64(a) IN IF n = "" \/ n = "0" \/ Negative(n) THEN "panic" ELSE n
ToOffset(a) == LET n == IF a.k = "lim" THEN "" ELSE ToInt64(a) IN IF n = "" \/ Negative(n) THEN "panic" ELSE n

AddWhere(b, op, c) ==
  IF IsPanic(c) \/ Empty(c) THEN BAD
  ELSE IF b.where.k = "nil" THEN IF op = "" THEN [b EXCEPT !.where = Wrap(c)] ELSE BAD
  ELSE [b EXCEPT !.where = Infix(b.where, IF op = "" THEN "AND" ELSE op, Wrap(c))]

JoinTypes == {"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN"}
JoinEmpty(j) == j.t = "" \/ j.tab.n = "" \/ j.cond.k = "nil" \/ Empty(j.cond)
=============================================================================
