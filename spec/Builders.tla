------------------------------ MODULE Builders ------------------------------
(* The methods of the builders: Apply(b, m, args) is the builder a method    *)
(* call returns, or BAD when the call panics.  args are built nodes.         *)
EXTENDS JoinLang

Err(cond, b) == IF cond THEN BAD ELSE b

-----------------------------------------------------------------------------
(* SELECT *)
StringJoin(s) == LET j == ParseJoin(s)
                 IN IF j.ok THEN [k |-> "join", t |-> j.t, tab |-> TabNode(j.tab), cond |-> j.cond] ELSE PANIC
JoinTable(a) == CASE IsStr(a) -> TabNode(a.v) [] a.k = "tab" -> a [] OTHER -> PANIC
(* The condition of Join(table, condition) *)
JoinCond(tab, a) ==
  IF IsPanic(tab) THEN PANIC
  ELSE CASE IsStr(a) -> LET j == StringJoin(a.v) IN IF IsPanic(j) THEN PANIC ELSE [j EXCEPT !.tab = tab]
         [] a.k = "on" \/ a.k = "infix" -> [k |-> "join", t |-> "INNER JOIN", tab |-> tab, cond |-> a]
         [] OTHER -> PANIC
ToJoin(args) ==
  CASE Len(args) = 1 -> IF IsStr(args[1]) THEN StringJoin(args[1].v)
                        ELSE IF args[1].k = "join" THEN args[1] ELSE PANIC
    [] Len(args) = 2 -> JoinCond(JoinTable(args[1]), args[2])
    [] Len(args) = 3 -> LET j == JoinCond(JoinTable(args[1]), args[2])
                        IN IF IsPanic(j) \/ args[3].k # "jt" THEN PANIC ELSE [j EXCEPT !.t = args[3].v]
    [] OTHER -> PANIC

OrderText(o) ==
  CASE o.f = "Order" -> [n |-> o.n, t |-> IF o.t = "" THEN "ASC" ELSE o.t]
    [] o.f = "Asc"   -> [n |-> IF o.c.as # "" THEN o.c.as ELSE o.c.n, t |-> "ASC"]
    [] o.f = "Desc"  -> [n |-> IF o.c.as # "" THEN o.c.as ELSE o.c.n, t |-> "DESC"]

Withs(b, args) == IF \E i \in 1..Len(args) : args[i].n = "" THEN BAD ELSE [b EXCEPT !.with = @ \o args]

ApplySelect(b, m, args) ==
  CASE m = "Columns" ->
         LET e == ToSelectExprs(IF args = <<>> THEN <<[k |-> "raw", v |-> "*"]>> ELSE args)
         IN Err(AnyPanic(e), [b EXCEPT !.exprs = e])
    [] m = "Distinct" -> [b EXCEPT !.distinct = TRUE]
    [] m = "DistinctOn" -> LET c == ToColumns(args)
                           IN Err(b.distinctOn # <<>> \/ c = <<>> \/ AnyPanic(c), [b EXCEPT !.distinctOn = c])
    [] m = "From" -> LET f == ToFrom(args) IN Err(b.from # <<>> \/ AnyPanic(f), [b EXCEPT !.from = f])
    [] m = "Join" -> LET j == ToJoin(args)
                     IN Err(IsPanic(j) \/ (~IsPanic(j) /\ JoinEmpty(j)), [b EXCEPT !.joins = Append(@, j)])
    [] m = "With" -> Withs(b, args)
    [] m = "Where" -> AddWhere(b, "", args[1])
    [] m = "And" -> AddWhere(b, "AND", args[1])
    [] m = "Or" -> AddWhere(b, "OR", args[1])
    [] m = "GroupBy" -> LET c == ToColumns(args)
                        IN Err(b.groupBy # <<>> \/ c = <<>> \/ AnyPanic(c), [b EXCEPT !.groupBy = c])
    [] m = "Having" -> Err(b.having.k # "nil" \/ IsPanic(args[1]) \/ Empty(args[1]), [b EXCEPT !.having = WrapSel(args[1])])
    [] m = "OrderBy" -> LET o == [i \in 1..Len(args) |-> OrderText(args[i])]
                        IN Err(\E i \in 1..Len(o) : o[i].n = "", [b EXCEPT !.orderBy = @ \o o])
    [] m = "Limit" -> LET n == ToLimit(args[1]) IN Err(b.limit # "" \/ n = "panic", [b EXCEPT !.limit = n])
    [] m = "Offset" -> LET n == ToOffset(args[1])
                       IN Err(b.offset # "" \/ n = "panic", [b EXCEPT !.offset = IF n = "0" THEN "" ELSE n])
    [] m = "Suffix" -> Err(b.suffix # "" \/ ~(IsStr(args[1]) \/ args[1].k = "suf") \/ args[1].v = "", [b EXCEPT !.suffix = args[1].v])
    [] m = "Prefix" -> Err(b.prefix # "" \/ ~(IsStr(args[1]) \/ args[1].k = "pre") \/ args[1].v = "", [b EXCEPT !.prefix = args[1].v])
    [] m = "Comment" -> [b EXCEPT !.comment = args[1].v]

-----------------------------------------------------------------------------
(* INSERT *)
RECURSIVE ConflictR(_, _)
ConflictR(b, args) ==
  IF args = <<>> THEN IF b.action.k = "nil" THEN BAD ELSE b
  ELSE LET a == Head(args)
       IN CASE b.action.k # "nil" -> BAD \* nothing follows the action
            [] IsStr(a) \/ a.k = "col" ->
                 LET c == OneColumn(a) IN IF IsPanic(c) THEN BAD ELSE ConflictR([b EXCEPT !.target = Append(@, c)], Tail(args))
            [] a.k = "donothing" -> ConflictR([b EXCEPT !.action = a], Tail(args))
            [] a.k = "doupdate" -> IF b.target = <<>> \/ SetEmpty(a.set) THEN BAD ELSE ConflictR([b EXCEPT !.action = a], Tail(args))
            [] OTHER -> BAD

RowTypes == {"[][]interface {}", "[][]string", "[][]int", "[][]int64", "[][]bool", "[][]stmt.Expression"}
RowList(ns) == [i \in 1..Len(ns) |-> Row(ns[i])]
InsertValues(args) == \* a sequence of rows, PANIC included
  IF args = <<>> THEN <<PANIC>>
  ELSE IF Len(args) = 1 /\ args[1].k = "rows" THEN IF args[1].a = <<>> \/ args[1].t \notin RowTypes THEN <<PANIC>> ELSE RowList(args[1].a)
  ELSE <<Row(args)>>

ApplyInsert(b, m, args) ==
  CASE m = "Into" -> LET t == IF Len(args) = 1 THEN OneInto(args[1]) ELSE PANIC
                     IN Err(b.into.n # "" \/ IsPanic(t), [b EXCEPT !.into = t])
    [] m = "Columns" -> IF args = <<>> THEN b
                        ELSE LET c == ToColumns(args) IN Err(b.columns # <<>> \/ AnyPanic(c), [b EXCEPT !.columns = c])
    [] m = "Values" -> LET r == InsertValues(args) IN Err(b.values # <<>> \/ AnyPanic(r), [b EXCEPT !.values = r])
    [] m = "Set" -> LET s == MergeSet(NewSet("assoc"), args)
                        p == SortPairs(s.pairs)
                    IN Err(b.columns # <<>> \/ b.values # <<>> \/ s.bad \/ s.pairs = <<>>,
                           [b EXCEPT !.columns = [i \in 1..Len(p) |-> p[i].c],
                                     !.values = <<[k |-> "arr", a |-> [i \in 1..Len(p) |-> p[i].e]]>>])
    [] m = "OnConflict" -> IF b.action.k # "nil" THEN BAD ELSE ConflictR(b, args)
    [] m = "Returning" -> LET e == ToSelectExprs(args) IN Err(b.returning # <<>> \/ AnyPanic(e), [b EXCEPT !.returning = e])
    [] m = "Comment" -> [b EXCEPT !.comment = args[1].v]

-----------------------------------------------------------------------------
(* UPDATE and DELETE *)
ApplyUpdate(b, m, args) ==
  CASE m = "Only" -> [b EXCEPT !.only = TRUE]
    [] m = "Set" -> LET s == MergeSet(b.set, args) IN Err(args = <<>> \/ s.bad, [b EXCEPT !.set = s])
    [] m = "Using" -> LET e == [i \in 1..Len(args) |-> NewExpr(args[i])]
                      IN Err(b.set.mode # "list" \/ args = <<>> \/ AnyPanic(e), [b EXCEPT !.set.exprs = @ \o e])
    [] m = "With" -> Withs(b, args)
    [] m = "Where" -> AddWhere(b, "", args[1])
    [] m = "And" -> AddWhere(b, "AND", args[1])
    [] m = "Or" -> AddWhere(b, "OR", args[1])
    [] m = "From" -> LET f == ToFrom(args) IN Err(b.from # <<>> \/ AnyPanic(f), [b EXCEPT !.from = f])
    [] m = "Returning" -> LET e == ToSelectExprs(args) IN Err(b.returning # <<>> \/ AnyPanic(e), [b EXCEPT !.returning = e])
    [] m = "Comment" -> [b EXCEPT !.comment = args[1].v]

ApplyDelete(b, m, args) ==
  CASE m = "From" -> LET f == ToFrom(args) IN Err(b.from # <<>> \/ AnyPanic(f), [b EXCEPT !.from = f])
    [] m = "Using" -> LET t == [i \in 1..Len(args) |-> OneTable(args[i])]
                      IN Err(b.using # <<>> \/ AnyPanic(t), [b EXCEPT !.using = t])
    [] m = "Where" -> AddWhere(b, "", args[1])
    [] m = "And" -> AddWhere(b, "AND", args[1])
    [] m = "Or" -> AddWhere(b, "OR", args[1])
    [] m = "Returning" -> LET e == ToSelectExprs(args) IN Err(b.returning # <<>> \/ AnyPanic(e), [b EXCEPT !.returning = e])
    [] m = "Comment" -> [b EXCEPT !.comment = args[1].v]

(* DO UPDATE sets are built with the argument: do it here, where pairs are   *)
(* known.                                                                    *)
Prepare(n) == IF n.k = "doupdate" THEN [k |-> "doupdate", set |-> MergeSet(NewSet("assoc"), n.a)] ELSE n
BadArg(n) == n.k = "panic" \/ (n.k = "doupdate" /\ n.set.bad)

Apply(b, m, nodes) ==
  LET args == [i \in 1..Len(nodes) |-> Prepare(nodes[i])]
  IN IF \E i \in 1..Len(args) : BadArg(args[i]) THEN BAD
     ELSE CASE b.kind = "select" -> ApplySelect(b, m, args)
            [] b.kind = "insert" -> ApplyInsert(b, m, args)
            [] b.kind = "update" -> ApplyUpdate(b, m, args)
            [] b.kind = "delete" -> ApplyDelete(b, m, args)

(* loukoum.Select(...), Insert(...), Update(...), Delete(...) and the bare    *)
(* builder.NewSelect(), NewInsert(), NewDelete().                             *)
Start(kind, args) ==
  CASE kind = "select" -> Apply(NewSelect, "Columns", args)
    [] kind = "insert" -> Apply(NewInsert, "Into", args)
    [] kind = "delete" -> Apply(NewDelete, "From", args)
    [] kind = "update" -> LET t == OneTable(args[1]) IN IF IsPanic(t) THEN BAD ELSE NewUpdate(t)
    [] kind = "newselect" -> NewSelect
    [] kind = "newinsert" -> NewInsert
    [] kind = "newdelete" -> NewDelete

-----------------------------------------------------------------------------
(* Rendering *)
RECURSIVE Render(_), Stmt(_)

Exprs(ns) == [i \in 1..Len(ns) |-> Render(ns[i])]
ColSegs(cs) == SepBy([i \in 1..Len(cs) |-> <<T(ColText(cs[i]))>>], ", ")

Render(n) ==
  CASE n.k = "val"      -> <<B(n)>>
    [] n.k = "null"     -> <<T("NULL")>>
    [] n.k = "ident"    -> <<T(Quote(n.v))>>
    [] n.k = "identraw" -> <<T(n.v)>>
    [] n.k = "raw"      -> <<T(n.v)>>
    [] n.k = "arr"      -> SepBy([i \in 1..Len(n.a) |-> Render(IF Len(n.a) > 1 THEN Wrap(n.a[i]) ELSE n.a[i])], ", ")
    [] n.k = "infix"    -> IF Empty(n) THEN <<P>>
                           ELSE Paren(Render(n.l) \o <<T(Cat(<<" ", n.op, " ">>))>> \o Render(n.r))
    [] n.k = "in"       -> IF Empty(n) THEN <<P>>
                           ELSE Paren(Render(n.x) \o <<T(Cat(<<" ", n.op, " ">>))>> \o Paren(IF Empty(n.a) THEN <<>> ELSE Render(n.a)))
    [] n.k = "btw"      -> IF Empty(n) THEN <<P>>
                           ELSE Paren(Render(n.x) \o <<T(Cat(<<" ", n.op, " ">>))>> \o Render(n.lo) \o <<T(" AND ")>> \o Render(n.hi))
    [] n.k = "ex"       -> <<T(n.op \o " ")>> \o Paren(Render(n.e))
    [] n.k = "call"     -> <<T(n.f)>> \o Paren(SepBy([i \in 1..Len(n.a) |-> Render(Wrap(n.a[i]))], ", "))
    [] n.k = "wrap"     -> Paren(Render(n.x))
    [] n.k = "on"       -> <<T(Cat(<<Quote(n.l), " = ", Quote(n.r)>>))>>
    [] n.k = "sel"      -> Stmt(n.q)
    [] n.k = "col"      -> <<T(ColText(n))>>
    [] n.k = "tab"      -> <<T(TabText(n))>>
    [] n.k = "agg"      -> <<T(Cat(<<n.f, "(", IF n.distinct THEN "DISTINCT " ELSE "", n.v, ")",
                                     IF n.as = "" THEN "" ELSE " AS " \o n.as>>))>>

Clause(present, text, segs) == IF present THEN <<T(text)>> \o segs ELSE <<>>
Items(ns) == SepBy(Exprs(ns), ", ")

(* A comment stays on its line. *)
CommentText(c) == MapChars(c, LAMBDA ch : IF ch = "\n" \/ ch = "\r" THEN " " ELSE ch)
CommentSegs(c) == IF c = "" THEN <<>> ELSE <<T("; -- " \o CommentText(c))>>

WithSegs(ws) ==
  IF ws = <<>> THEN <<>>
  ELSE <<T("WITH ")>>
       \o SepBy([i \in 1..Len(ws) |-> <<T(ws[i].n \o " AS ")>> \o Paren(Render(ws[i].e))], ", ")
       \o <<T(" ")>>
JoinSegs(j) == <<T(Cat(<<" ", j.t, " ", TabText(j.tab), " ON ">>))>> \o Render(j.cond)
SetSegs(set) ==
  IF set.mode = "assoc"
  THEN LET p == SortPairs(set.pairs)
       IN <<T("SET ")>> \o SepBy([i \in 1..Len(p) |-> <<T(ColText(p[i].c) \o " = ")>> \o Render(p[i].e)], ", ")
  ELSE <<T("SET ")>> \o Paren(ColSegs(set.cols)) \o <<T(" = ")>> \o Paren(Render([k |-> "arr", a |-> set.exprs]))
ReturningSegs(es) == Clause(es # <<>>, " RETURNING ", Items(es))

Stmt(q) ==
  CASE q.kind = "select" ->
         IF q.exprs = <<>> THEN <<P>>
         ELSE CatSegs(<<
                Clause(q.prefix # "", q.prefix \o " ", <<>>),
                WithSegs(q.with),
                <<T("SELECT")>>,
                Clause(q.distinctOn # <<>>, " DISTINCT ON ", Paren(ColSegs(q.distinctOn))),
                Clause(q.distinct, " DISTINCT", <<>>),
                <<T(" ")>> \o Items(q.exprs),
                Clause(q.from # <<>>, " FROM ", Items(q.from)),
                CatSegs([i \in 1..Len(q.joins) |-> JoinSegs(q.joins[i])]),
                IF q.where.k = "nil" THEN <<>> ELSE <<T(" WHERE ")>> \o Render(q.where),
                Clause(q.groupBy # <<>>, " GROUP BY ", ColSegs(q.groupBy)),
                IF q.having.k = "nil" THEN <<>> ELSE <<T(" HAVING ")>> \o Render(q.having),
                Clause(q.orderBy # <<>>, " ORDER BY ",
                       SepBy([i \in 1..Len(q.orderBy) |-> <<T(Cat(<<q.orderBy[i].n, " ", q.orderBy[i].t>>))>>], ", ")),
                Clause(q.limit # "", " LIMIT " \o q.limit, <<>>),
                Clause(q.offset # "", " OFFSET " \o q.offset, <<>>),
                Clause(q.suffix # "", " " \o q.suffix, <<>>),
                CommentSegs(q.comment)>>)
    [] q.kind = "insert" ->
         IF q.into.n = "" THEN <<P>>
         ELSE CatSegs(<<
                <<T("INSERT INTO " \o TabText(q.into))>>,
                Clause(q.columns # <<>>, " ", Paren(ColSegs(q.columns))),
                Clause(q.values # <<>>, " VALUES ",
                       SepBy([i \in 1..Len(q.values) |-> Paren(Render(q.values[i]))], ", ")),
                IF q.action.k = "nil" THEN <<>>
                ELSE CatSegs(<<<<T(" ON CONFLICT ")>>,
                               IF q.target = <<>> THEN <<>> ELSE Paren(ColSegs(q.target)) \o <<T(" ")>>,
                               IF q.action.k = "donothing" THEN <<T("DO NOTHING")>>
                               ELSE <<T("DO UPDATE ")>> \o SetSegs(q.action.set)>>),
                ReturningSegs(q.returning),
                CommentSegs(q.comment)>>)
    [] q.kind = "update" ->
         IF SetEmpty(q.set) THEN <<P>>
         ELSE CatSegs(<<
                WithSegs(q.with),
                <<T(Cat(<<"UPDATE ", IF q.only THEN "ONLY " ELSE "", TabText(q.table), " ">>))>>,
                SetSegs(q.set),
                Clause(q.from # <<>>, " FROM ", Items(q.from)),
                IF q.where.k = "nil" THEN <<>> ELSE <<T(" WHERE ")>> \o Render(q.where),
                ReturningSegs(q.returning),
                CommentSegs(q.comment)>>)
    [] q.kind = "delete" ->
         IF q.from = <<>> THEN <<P>>
         ELSE CatSegs(<<
                <<T("DELETE FROM ")>> \o Items(q.from),
                Clause(q.using # <<>>, " USING ", Items(q.using)),
                IF q.where.k = "nil" THEN <<>> ELSE <<T(" WHERE ")>> \o Render(q.where),
                ReturningSegs(q.returning),
                CommentSegs(q.comment)>>)

-----------------------------------------------------------------------------
(* The three readings of a sequence of segments *)
RenderPanics(segs) == \E i \in 1..Len(segs) : segs[i].b = 2
Binds(segs) == SelectSeq(segs, LAMBDA s : s.b = 1)
ArgsOf(segs) == LET bs == Binds(segs) IN [i \in 1..Len(bs) |-> bs[i].v]
Counts(segs) == FoldLeft(LAMBDA acc, s : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + (IF s.b = 1 THEN 1 ELSE 0)),
                         <<>>, segs)
Numbered(segs, mark) ==
  LET c == Counts(segs)
  IN Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN mark \o ToString(c[i]) ELSE segs[i].s])
QueryText(segs)  == Numbered(segs, "$")
NamedText_(segs) == Numbered(segs, ":arg_")
RawPanics(segs)  == RenderPanics(segs) \/ \E i \in 1..Len(segs) : segs[i].b = 1 /\ ~HasLit(segs[i].v)
RawText(segs)    == Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN Lit(segs[i].v) ELSE segs[i].s])
=============================================================================
