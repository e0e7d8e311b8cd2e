------------------------------- MODULE Parts --------------------------------
(* Parts of statements used on their own (C27): clauses, conditions, columns *)
(* or whole statements, made with the constructors of package stmt and       *)
(* written one after the other to the same context.                          *)
(*                                                                           *)
(* A part is                                                                 *)
(*   [k |-> "txt", v]       a text that the caller writes itself             *)
(*   [k |-> "stm", e]       the statement that a term is                     *)
(*   [k |-> "cnd", c, e, a] a Where or a Having extended by And and Or       *)
(*   [k |-> "cl", c, a]     the clause c of the terms a                      *)
EXTENDS Builders

OrderSegs(o) == LET x == OrderText(o) IN IF x.n = "" THEN <<>> ELSE <<T(Cat(<<x.n, " ", x.t>>))>>
WithSeg(w) == IF w.n = "" THEN <<>> ELSE <<T(w.n \o " AS ")>> \o Paren(Render(w.e))

(* Conditions link from the left. Where puts EXISTS between parentheses.     *)
RECURSIVE Linked(_, _, _, _)
Linked(c, n, links, pool) ==
  IF links = <<>> THEN n
  ELSE LET r == Build(Head(links).e, pool)
       IN Linked(c, Infix(n, Head(links).op, IF c = "Where" THEN Wrap(r) ELSE r), Tail(links), pool)
Condition(p, pool) == LET n == Build(p.e, pool) IN Linked(p.c, IF p.c = "Where" THEN Wrap(n) ELSE WrapSel(n), p.a, pool)

StmSegs(n) ==
  CASE n.k = "ord"  -> OrderSegs(n)
    [] n.k = "lim"  -> IF n.v = "0" THEN <<>> ELSE <<T("LIMIT " \o n.v)>>
    [] n.k = "off"  -> IF n.v = "0" THEN <<>> ELSE <<T("OFFSET " \o n.v)>>
    [] n.k \in {"suf", "pre"} -> <<T(n.v)>>
    [] n.k = "from" -> <<T("FROM ")>> \o Items(n.a)
    [] n.k = "into" -> <<T("INTO " \o TabText(n.e))>>
    [] n.k = "join" -> <<T(Cat(<<n.t, " ", TabText(n.tab), " ON ">>))>> \o Render(n.cond)
    [] n.k = "with" -> WithSeg(n)
    [] OTHER -> Render(n)
StmEmpty(n) ==
  CASE n.k = "ord"  -> OrderText(n).n = ""
    [] n.k \in {"lim", "off"} -> n.v = "0"
    [] n.k \in {"suf", "pre", "agg"} -> n.v = ""
    [] n.k \in {"col", "tab", "with"} -> n.n = ""
    [] n.k = "from" -> n.a = <<>>
    [] n.k = "into" -> n.e.n = ""
    [] n.k = "join" -> JoinEmpty(n)
    [] OTHER -> Empty(n)

BuilderEmpty(b) == IF b.kind = "select" THEN b.exprs = <<>> ELSE IF b.kind = "update" THEN SetEmpty(b.set) ELSE RenderPanics(Stmt(b))

ClauseSegs(c, a) ==
  CASE c = "OrderBy"    -> IF a = <<>> THEN <<>> ELSE <<T("ORDER BY ")>> \o SepBy([i \in 1..Len(a) |-> OrderSegs(a[i])], ", ")
    [] c = "GroupBy"    -> <<T("GROUP BY ")>> \o ColSegs(a)
    [] c = "DistinctOn" -> IF a = <<>> THEN <<>> ELSE <<T("DISTINCT ON ")>> \o Paren(ColSegs(a))
    [] c = "Using"      -> IF a = <<>> THEN <<>> ELSE <<T("USING ")>> \o Items(a)
    [] c = "Returning"  -> <<T("RETURNING ")>> \o Items(a)
    [] c = "With"       -> IF a = <<>> THEN <<>> ELSE <<T("WITH ")>> \o SepBy([i \in 1..Len(a) |-> WithSeg(a[i])], ", ")
    [] c = "Comment"    -> IF a[1].v = "" THEN <<>> ELSE <<T("-- " \o CommentText(a[1].v))>>
    [] c = "Set"        -> SetSegs(MergeSet(NewSet("assoc"), a))
ClauseEmpty(c, a) == IF c = "Comment" THEN a[1].v = "" ELSE a = <<>>

PartSegs(p, pool) ==
  CASE p.k = "txt" -> <<T(p.v)>>
    [] p.k = "stm" -> IF p.e.k = "b" THEN Stmt(pool[p.e.h]) ELSE StmSegs(Build(p.e, pool))
    [] p.k = "cnd" -> <<T(IF p.c = "Where" THEN "WHERE " ELSE "HAVING ")>> \o Render(Condition(p, pool))
    [] p.k = "cl"  -> ClauseSegs(p.c, BuildAll(p.a, pool))
PartEmpty(p, pool) ==
  CASE p.k = "txt" -> p.v = ""
    [] p.k = "stm" -> IF p.e.k = "b" THEN BuilderEmpty(pool[p.e.h]) ELSE StmEmpty(Build(p.e, pool))
    [] p.k = "cnd" -> Empty(Condition(p, pool))
    [] p.k = "cl"  -> ClauseEmpty(p.c, p.a)

(* All of them, on one context.                                              *)
PartsSegs(ps, pool) == CatSegs([i \in 1..Len(ps) |-> PartSegs(ps[i], pool)])
Empties(ps, pool) == [i \in 1..Len(ps) |-> PartEmpty(ps[i], pool)]
=============================================================================
