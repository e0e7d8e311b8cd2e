------------------------------ MODULE MCNames -------------------------------
(* All the short names of some characters, everywhere a name goes (C11): the *)
(* quoted text reads back as the name.                                       *)
EXTENDS Theorems
CONSTANTS Place, Depth

Alphabet == <<"a", "B", "\"", ".", " ", "'", "$", "é", "\\", "-">>
Names1 == [i \in 1..Len(Alphabet) |-> Alphabet[i]]
Longer(ns) == FoldLeft(LAMBDA acc, n : acc \o [i \in 1..Len(Alphabet) |-> n \o Alphabet[i]], <<>>, ns)
Words == <<"select", "SELECT", "user", "Table.Column", "a.b.c", "_x9", "名字.列", "a\"; DROP TABLE x; --", "$1", ":arg_1", "*", "a,b", "(a)", "a\tb",
           "k", "K", "s", "t AS u", "t as u", "t u", "ONLY t", "x ASC", "x DESC", "COUNT(x)", "t.*", "NULL", "DEFAULT", "1", "'x'", "a b.c d", "DISTINCT x">>
NamesOf(d) == IF d = 2 THEN Names1 \o Longer(Names1) \o Words ELSE Names1 \o Longer(Names1) \o Longer(Longer(Names1)) \o Words
(* A string that names columns is cut at commas, and trimmed.                *)
Plain(n) == TrimSpace(n) = n /\ ~HasChar(n, ",")
NamesFor(d) == IF Place \in {"colstring", "setkey", "returning", "groupby", "distincton", "inscols", "setlist", "target"}
               THEN SelectSeq(NamesOf(d), Plain) ELSE NamesOf(d)
Menu(u_) == NamesFor(Depth)
ASSUME TLCSet(42, TLCEval(Menu(0)))

CallOf(n) ==
  CASE Place = "column"   -> C("Columns", <<Col(n)>>)
    [] Place = "colstring" -> C("Columns", <<Str(n)>>)
    [] Place = "alias"    -> C("Columns", <<ColAs("k", n)>>)
    [] Place = "from"     -> C("From", <<Str(n)>>)
    [] Place = "tabalias" -> C("From", <<TabAs("k", n)>>)
    [] Place = "only"     -> C("From", <<TabOnly(n)>>)
    [] Place = "cond"     -> C("Where", <<Cmp(Id(n), "Equal", IntV("1"))>>)
    [] Place = "operand"  -> C("Having", <<Cmp(Id("k"), "Is", Id(n))>>)
    [] Place = "onleft"   -> C("Join", <<Str("j"), OnT(n, "k")>>)
    [] Place = "onright"  -> C("Join", <<Str("j"), OnT("k", n)>>)
    [] Place = "jointab"  -> C("Join", <<Tab(n), OnT("k", "l")>>)
    [] Place = "groupby"  -> C("GroupBy", <<Str(n)>>)
    [] Place = "distincton" -> C("DistinctOn", <<Str(n)>>)
    [] Place = "using"    -> C("Using", <<Str(n)>>)
    [] Place = "returning" -> C("Returning", <<Str(n)>>)
    [] Place = "inscols"  -> C("Columns", <<Str("k"), Str(n)>>)
    [] Place = "target"   -> C("OnConflict", <<Str(n), DoNothing>>)
    [] Place = "setkey"   -> C("Set", <<Pair(Str(n), IntV("1"))>>)
    [] Place = "setlist"  -> C("Set", <<Str(n)>>)
    [] Place = "into"     -> C("Into", <<Str(n)>>)
Around ==
  CASE Place \in {"column", "colstring"} -> <<"SELECT ", "">>
    [] Place = "alias"    -> <<"SELECT \"k\" AS ", "">>
    [] Place = "from"     -> <<"SELECT \"s\" FROM ", "">>
    [] Place = "tabalias" -> <<"SELECT \"s\" FROM \"k\" AS ", "">>
    [] Place = "only"     -> <<"SELECT \"s\" FROM ONLY ", "">>
    [] Place = "cond"     -> <<"SELECT \"s\" WHERE (", " = $1)">>
    [] Place = "operand"  -> <<"SELECT \"s\" HAVING (\"k\" IS ", ")">>
    [] Place = "onleft"   -> <<"SELECT \"s\" INNER JOIN \"j\" ON ", " = \"k\"">>
    [] Place = "onright"  -> <<"SELECT \"s\" INNER JOIN \"j\" ON \"k\" = ", "">>
    [] Place = "jointab"  -> <<"SELECT \"s\" INNER JOIN ", " ON \"k\" = \"l\"">>
    [] Place = "groupby"  -> <<"SELECT \"s\" GROUP BY ", "">>
    [] Place = "distincton" -> <<"SELECT DISTINCT ON (", ") \"s\"">>
    [] Place = "using"    -> <<"DELETE FROM \"t\" USING ", "">>
    [] Place = "returning" -> <<"DELETE FROM \"t\" RETURNING ", "">>
    [] Place = "inscols"  -> <<"INSERT INTO \"t\" (\"k\", ", ")">>
    [] Place = "target"   -> <<"INSERT INTO \"t\" ON CONFLICT (", ") DO NOTHING">>
    [] Place = "setkey"   -> <<"UPDATE \"t\" SET ", " = $1">>
    [] Place = "setlist"  -> <<"UPDATE \"t\" SET (\"k\", ", ") = ($1)">>
    [] Place = "into"     -> <<"INSERT INTO ", "">>
SelPrefix == <<<<0, New("select", <<Str("s")>>)>>>>
InsPrefix == <<<<0, New("insert", <<Str("t")>>)>>>>
NewPrefix == <<<<0, New("newinsert", <<>>)>>>>
UpdPrefix == <<<<0, New("update", <<Str("t")>>)>>>>
LstPrefix == <<<<0, New("update", <<Str("t")>>)>>, <<1, C("Set", <<Str("k")>>)>>, <<2, C("Using", <<IntV("1")>>)>>>>
DelPrefix == <<<<0, New("delete", <<Str("t")>>)>>>>
NoStarts == <<>>
MCCalls(u_) == LET m_ == TLCEval(Menu(0)) IN [i \in 1..Len(m_) |-> CallOf(m_[i])]
Name == TLCGet(42)[hist[1][2]]

ReadsBack == hist # <<>> =>
  /\ ~dead
  /\ LET t == Text
         n == Len(t)
         h == Len(Around[1])
         e == Len(Around[2])
     IN /\ SubSeq(t, 1, h) = Around[1]
        /\ SubSeq(t, n - e + 1, n) = Around[2]
        /\ Unquote(SubSeq(t, h + 1, n - e)) = Split(Name, ".")
\* Place and Prefix_ as values of the constants
Column == "column"
ColString == "colstring"
Alias == "alias"
From == "from"
TabAlias == "tabalias"
OnlyTab == "only"
Cond == "cond"
Operand == "operand"
OnLeft == "onleft"
OnRight == "onright"
JoinTab == "jointab"
GroupBy == "groupby"
DistinctOn == "distincton"
Using == "using"
Returning == "returning"
InsCols == "inscols"
Target == "target"
SetKey == "setkey"
SetList == "setlist"
IntoTab == "into"
=============================================================================
