------------------------------- MODULE MCSet --------------------------------
(* SET, DO UPDATE and Insert.Set given in any number of calls and in both    *)
(* forms (C12, C13, C26).  The expected text is computed from the calls: the *)
(* last value of each column, in the order of the names.                     *)
EXTENDS Theorems
CONSTANTS Menu(_), Head_

ASSUME TLCSet(42, TLCEval(Menu(0)))
MenuAt(i) == TLCGet(42)[i]
NoPrefix == <<>>
NoStarts == <<>>
First_ == IF MaxNew = 0 THEN 1 ELSE 2
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> m_[i].c]
Anonymous(segs) == Cat([i \in 1..Len(segs) |-> IF segs[i].b = 1 THEN "#" ELSE segs[i].s])

(* An assignment: a column and the text and values of what it receives. *)
A(col, text, vals) == [col |-> col, text |-> text, vals |-> vals]
Pr(col, n)   == [t |-> Pair(Str(col), IntV(n)), as |-> <<A(col, "#", <<n>>)>>]
PC(col, n)  == [t |-> Pair(Col(col), IntV(n)), as |-> <<A(col, "#", <<n>>)>>]
Nul(col)    == [t |-> Pair(Str(col), Nil), as |-> <<A(col, "NULL", <<>>)>>]
RawP(col)   == [t |-> Pair(Col(col), Raw("1 + 1")), as |-> <<A(col, "1 + 1", <<>>)>>]
CallP(col, n) == [t |-> Pair(Str(col), CallT("f", <<Value(IntV(n)), Raw("x")>>)), as |-> <<A(col, "f(#, x)", <<n>>)>>]
Spaced(col, n) == [t |-> Pair(Str(" " \o col \o " "), IntV(n)), as |-> <<A(col, "#", <<n>>)>>]
Mp(ps)      == [t |-> MapT([i \in 1..Len(ps) |-> ps[i].t]), as |-> CatSegs([i \in 1..Len(ps) |-> ps[i].as])]
Ms(ps)      == [t |-> MapS([i \in 1..Len(ps) |-> ps[i].t]), as |-> CatSegs([i \in 1..Len(ps) |-> ps[i].as])]
Bad(t)      == [t |-> t, as |-> <<A("<bad>", "", <<>>)>>]
Items_ == <<
  Pr("b", "1"), Pr("a", "2"), PC("b", "3"), Nul("a"), RawP("c"), CallP("b", "4"), Spaced("a", "5"),
  Mp(<<Pr("c", "6"), PC("a", "7")>>), Ms(<<Pr("b", "8"), Nul("d")>>), Mp(<<>>), Pr("B", "9"), Pr("aa", "10"), Pr("t.a", "11"),
  Pr("as", "12"), Mp(<<Pr("a", "13"), Pr("aa", "14"), Pr("as", "15"), Pr("A", "16")>>)>>
Spoiled == <<Bad(Pair(Str(""), IntV("1"))), Bad(Pair(Nil, IntV("1"))), Bad(Pair(IntV("2"), IntV("1"))), Bad(IntV("3")), Bad(Nil), Bad(Raw("x")),
             Bad(Pair(Str("a"), BadT("main.plain")))>>
(* A call: the assignments it makes.  form says how the columns are given.   *)
E(m, args, as, form, cols) == [c |-> C(m, args), as |-> as, form |-> form, cols |-> cols]
Pairs(m, xs) == E(m, [i \in 1..Len(xs) |-> xs[i].t], CatSegs([i \in 1..Len(xs) |-> xs[i].as]), "assoc", <<>>)
OneOrTwo(m, xs, ys) == [i \in 1..Len(xs) |-> Pairs(m, <<xs[i]>>)]
                       \o FoldLeft(LAMBDA acc, x : acc \o [j \in 1..Len(ys) |-> Pairs(m, <<x, ys[j]>>)], <<>>, xs)
SetMenu(u_) == OneOrTwo("Set", Items_, Items_) \o OneOrTwo("Set", Spoiled, SubSeq(Items_, 1, 2)) \o OneOrTwo("Set", SubSeq(Items_, 1, 2), Spoiled)
SetFew(u_) == [i \in 1..Len(Items_) |-> Pairs("Set", <<Items_[i]>>)] \o <<Pairs("Set", <<Items_[1], Items_[4]>>), Pairs("Set", <<Items_[3], Items_[2], Items_[7]>>)>>

(* The form with a list of columns and Using. *)
Listed(args, cols) == E("Set", args, <<>>, "list", cols)
Given(args, texts, vals) == E("Using", args, <<A("", texts, vals)>>, "using", <<>>)
ListMenu(u_) == <<
  Listed(<<Str("x")>>, <<"x">>), Listed(<<Str("z, y"), Col("x")>>, <<"z", "y", "x">>), Listed(<<Col("b"), Col("b")>>, <<"b", "b">>),
  Given(<<IntV("1")>>, "#", <<"1">>), Given(<<IntV("2"), Nil, Raw("now()")>>, "#, NULL, now()", <<"2">>), Given(<<Str("v")>>, "#", <<"v">>),
  Pairs("Set", <<Items_[1]>>), Pairs("Set", <<Items_[9]>>), Pairs("Set", <<Items_[10]>>)>>
  \o <<Given(<<BadT("*int")>>, "<bad>", <<>>)>>
UpdPrefix == <<<<0, New("update", <<Str("t")>>)>>>>
UpdHead == "UPDATE \"t\" SET "
InsPrefix_ == <<<<0, New("insert", <<Str("t")>>)>>>>
InsHead_ == "INSERT INTO \"t\" ("
ConflictMenu_(u_) ==
  LET m == SetMenu(0)
  IN [i \in 1..Len(m) |-> E("OnConflict", <<Str("k"), DoUpdate(m[i].c.args)>>, m[i].as, "assoc", <<>>)]
OcHead == "INSERT INTO \"t\" ON CONFLICT (\"k\") DO UPDATE SET "

-----------------------------------------------------------------------------
Made == IF dead THEN Len(hist) - 1 ELSE Len(hist)
Of(j) == MenuAt(hist[j][2])
Assigned(n) == CatSegs([j \in 1..n |-> IF Of(j).form = "assoc" THEN Of(j).as ELSE <<>>])
Names(as) == {as[i].col : i \in 1..Len(as)}
LastOf_(as, col) == as[CHOOSE i \in 1..Len(as) : as[i].col = col /\ \A j \in (i + 1)..Len(as) : as[j].col # col]
(* The order of the names, written again: by code point, a prefix first. *)
\* only the letters of the menus matter
CharCode(c) == CASE c = "." -> 1 [] c = "A" -> 2 [] c = "B" -> 3 [] c = "a" -> 4 [] c = "b" -> 5 [] c = "c" -> 6 [] c = "d" -> 7 [] c = "s" -> 8 [] c = "t" -> 9
Less(a, b) == \E k \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : /\ SubSeq(a, 1, k) = SubSeq(b, 1, k)
                                   /\ \/ k = Len(a) /\ Len(b) > k
                                      \/ k < Len(a) /\ k < Len(b) /\ CharCode(SubSeq(a, k + 1, k + 1)) < CharCode(SubSeq(b, k + 1, k + 1))

Ordered(as) == SetToSortSeq(Names(as), Less)
ColumnText(n) == IF n = "t.a" THEN "\"t\".\"a\"" ELSE Cat(<<"\"", n, "\"">>)
Finals(as) == [i \in 1..Len(Ordered(as)) |-> LastOf_(as, Ordered(as)[i])]
Vals(fs) == CatSegs([i \in 1..Len(fs) |-> fs[i].vals])
Values_ == LET a == ArgsOf(Segs) IN [i \in 1..Len(a) |-> a[i].v]

(* assoc form *)
Assigns(fs) == Join([i \in 1..Len(fs) |-> Cat(<<ColumnText(fs[i].col), " = ", fs[i].text>>)], ", ")
LastWins == Live /\ Len(hist) >= First_ =>
  LET as == Assigned(Len(hist))
      fs == Finals(as)
  IN IF as = <<>> THEN Newest.kind = "update" => RenderPanics(Segs)
     ELSE /\ Anonymous(Segs) = Head_ \o Assigns(fs)
          /\ Values_ = Vals(fs)
(* Insert.Set: columns, then values. *)
InsertSet == Live =>
  LET fs == Finals(Assigned(Len(hist)))
  IN /\ Anonymous(Segs) = Cat(<<Head_, Join([i \in 1..Len(fs) |-> ColumnText(fs[i].col)], ", "), ") VALUES (",
                               Join([i \in 1..Len(fs) |-> fs[i].text], ", "), ")">>)
     /\ Values_ = Vals(fs)
(* list form *)
ListForm == Live =>
  LET cols == CatSegs([j \in 1..Len(hist) |-> Of(j).cols])
      exps == SelectSeq([j \in 1..Len(hist) |-> Of(j)], LAMBDA e : e.form = "using")
      as   == Assigned(Len(hist))
      fs   == Finals(as)
  IN IF cols = <<>> /\ as = <<>> THEN RenderPanics(Segs)
     ELSE IF cols # <<>> /\ exps = <<>> THEN RenderPanics(Segs)
     ELSE IF cols = <<>> THEN Anonymous(Segs) = Head_ \o Assigns(fs) /\ Values_ = Vals(fs)
     ELSE /\ Anonymous(Segs) = Cat(<<Head_, "(", Join([i \in 1..Len(cols) |-> ColumnText(cols[i])], ", "), ") = (",
                                   Join([i \in 1..Len(exps) |-> exps[i].as[1].text], ", "), ")">>)
          /\ Values_ = CatSegs([i \in 1..Len(exps) |-> exps[i].as[1].vals])
(* What is refused. *)
HasBad(e) == \E i \in 1..Len(e.as) : e.as[i].col = "<bad>" \/ e.as[i].text = "<bad>"
Forms(n) == {Of(j).form : j \in {x \in 1..n : Of(x).cols # <<>> \/ Of(x).as # <<>>}}
RefusedHere == hist # <<>> =>
  LET e == Of(Len(hist))
  IN dead <=> \/ HasBad(e)
              \/ e.c.m = "OnConflict" /\ (Len(hist) > 1 \/ e.as = <<>>)
              \/ pool[1].kind = "insert" /\ e.c.m = "Set" /\ (Len(hist) > 1 \/ e.as = <<>>)
              \/ e.form = "using" /\ "list" \notin Forms(Len(hist) - 1)
              \/ e.form = "list" /\ "assoc" \in Forms(Len(hist) - 1)
              \/ e.form = "assoc" /\ "list" \in Forms(Len(hist) - 1) /\ e.as # <<>>
=============================================================================
