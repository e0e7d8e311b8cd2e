------------------------------- MODULE Terms --------------------------------
(* How a caller writes arguments: constructors of the argument terms that    *)
(* the models put in their menus.                                            *)
EXTENDS Builders

Val(t, v)      == [k |-> "val", t |-> t, v |-> v, p |-> v]
Str(s)         == Val("string", s)
IntV(v)        == Val("int", v)
Nil            == NIL
Raw(s)         == [k |-> "raw", v |-> s]
Id(n)          == [k |-> "ident", v |-> n]
Value(e)       == [k |-> "value", e |-> e]
Cmp(x, m, a)   == [k |-> "cmp", m |-> m, x |-> x, a |-> <<a>>]
IsNullT(x, b)  == [k |-> "isnull", x |-> x, v |-> b]
InT(x, m, as)  == [k |-> "in", m |-> m, x |-> x, a |-> as]
Btw(x, m, a, b) == [k |-> "btw", m |-> m, x |-> x, a |-> <<a, b>>]
AndF(l, r)     == [k |-> "log", f |-> "fn", op |-> "AND", l |-> l, r |-> r]
OrF(l, r)      == [k |-> "log", f |-> "fn", op |-> "OR", l |-> l, r |-> r]
AndM(l, r)     == [k |-> "log", f |-> "m", op |-> "AND", l |-> l, r |-> r]
OrM(l, r)      == [k |-> "log", f |-> "m", op |-> "OR", l |-> l, r |-> r]
ExT(m, e)      == [k |-> "ex", m |-> m, e |-> e]
CallT(f, as)   == [k |-> "call", f |-> f, a |-> as]
OnT(l, r)      == [k |-> "on", l |-> l, r |-> r]
OnLog(f, op, l, r) == [k |-> "onlog", f |-> f, op |-> op, l |-> l, r |-> r]
Bld(h)         == [k |-> "b", h |-> h]
BldStmt(h)     == [k |-> "bs", h |-> h]
Col(n)         == [k |-> "col", n |-> n, as |-> ""]
ColAs(n, as)   == [k |-> "col", n |-> n, as |-> as]
ColsT(as)      == [k |-> "cols", a |-> as]
Sexps(as)      == [k |-> "sexps", a |-> as]
Tab(n)         == [k |-> "tab", n |-> n, as |-> "", only |-> FALSE]
TabAs(n, as)   == [k |-> "tab", n |-> n, as |-> as, only |-> FALSE]
TabOnly(n)     == [k |-> "tab", n |-> n, as |-> "", only |-> TRUE]
FromT(as)      == [k |-> "from", a |-> as]
IntoT(e)       == [k |-> "into", e |-> e]
JoinT(t, tab, c) == [k |-> "join", t |-> t, tab |-> tab, cond |-> c]
Jt(v)          == [k |-> "jt", v |-> v]
OrderT(n, t)   == [k |-> "ord", f |-> "Order", n |-> n, t |-> t]
AscT(c)        == [k |-> "ord", f |-> "Asc", c |-> c]
DescT(c)       == [k |-> "ord", f |-> "Desc", c |-> c]
Agg(f, v, d, as) == [k |-> "agg", f |-> f, v |-> v, distinct |-> d, as |-> as]
Pair(key, val) == [k |-> "pair", key |-> key, val |-> val]
MapT(ps)       == [k |-> "map", t |-> "types.Map", a |-> ps]
MapS(ps)       == [k |-> "map", t |-> "map[string]interface {}", a |-> ps]
WithT(n, e)    == [k |-> "with", n |-> n, e |-> e]
Slice(t, as)   == [k |-> "slice", t |-> t, v |-> "", p |-> "", a |-> as]
Rows(t, as)    == [k |-> "rows", t |-> t, a |-> as]
Lim(v)         == [k |-> "lim", v |-> v]
Off(v)         == [k |-> "off", v |-> v]
Suf(v)         == [k |-> "suf", v |-> v]
Pre(v)         == [k |-> "pre", v |-> v]
DoNothing      == [k |-> "donothing"]
DoUpdate(as)   == [k |-> "doupdate", a |-> as]
BadT(t)        == [k |-> "bad", t |-> t]
Ptime(e)       == [k |-> "ptime", e |-> e]
Enc(i)         == [k |-> "enc", i |-> i]
WrapX(e)       == [k |-> "wrapx", e |-> e]

(* The same value made in another way (stmt.New..., methods called again).   *)
Way(t, n)      == t @@ [way |-> n]

(* One call, and the start of a statement. *)
C(m, args)     == [m |-> m, args |-> args]
New(kind, args) == [kind |-> kind, args |-> args]
=============================================================================
