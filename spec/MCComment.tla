----------------------------- MODULE MCComment -----------------------------
(* Comments (C21): a statement with comments is the statement without them,  *)
(* followed by the last comment.                                             *)
EXTENDS Theorems

cm(s) == C("Comment", <<Str(s)>>)
Comments == <<cm("note"), cm("$1 :arg_1 ' \" ; DROP TABLE x; --"), cm("a\nb\r\nc\rd"), cm("\n; DELETE FROM t"), cm(""), cm("é -- /* */"), cm("; "), cm("a;"), cm("-- d"), cm("--"), cm("-x--")>>
cond == Cmp(Id("c"), "Equal", Str("v"))
Prefix == <<<<0, New("select", <<Str("s")>>)>>, <<1, C("Where", <<cond>>)>>>>
SelectPrefix == Prefix \o <<<<0, New("select", <<Str("a"), Str("b")>>)>>>>
InsertPrefix == Prefix \o <<<<0, New("insert", <<Str("t")>>)>>>>
UpdatePrefix == Prefix \o <<<<0, New("update", <<Str("t")>>)>>, <<3, C("Set", <<Pair(Str("k"), IntV("1"))>>)>>>>
DeletePrefix == Prefix \o <<<<0, New("delete", <<Str("t")>>)>>>>
SelectCalls(u_) == Comments \o <<C("From", <<Str("t")>>), C("Where", <<cond>>), C("Limit", <<IntV("5")>>), C("Suffix", <<Str("FOR UPDATE")>>),
                                 C("Prefix", <<Str("EXPLAIN")>>), C("OrderBy", <<OrderT("o", "")>>), C("With", <<WithT("w", Bld(2))>>), C("Columns", <<Str("z")>>)>>
InsertCalls(u_) == Comments \o <<C("Values", <<IntV("1"), Str("x")>>), C("Columns", <<Str("p"), Str("q")>>), C("OnConflict", <<DoNothing>>),
                                 C("OnConflict", <<Str("p"), DoUpdate(<<Pair(Str("q"), Bld(2))>>)>>), C("Returning", <<Str("r")>>), C("Set", <<Pair(Str("k"), Bld(2))>>)>>
UpdateCalls(u_) == Comments \o <<C("Set", <<Pair(Str("l"), Str("y"))>>), C("Where", <<cond>>), C("Or", <<Raw("r")>>), C("From", <<Str("f")>>),
                                 C("Returning", <<Str("r")>>), C("Only", <<>>), C("With", <<WithT("w", Bld(2))>>)>>
DeleteCalls(u_) == Comments \o <<C("Using", <<Str("u")>>), C("Where", <<cond>>), C("And", <<Raw("r")>>), C("Returning", <<Str("r")>>)>>
NoStarts == <<>>
Idle == C("Comment", <<Str("")>>)

-----------------------------------------------------------------------------
IsComment(j) == CallAt(hist[j][2]).m = "Comment"
(* The same program, with empty comments.                                    *)
Bare == Fold(Prefix_ \o [j \in 1..Len(hist) |-> <<hist[j][1], IF IsComment(j) THEN Idle ELSE CallAt(hist[j][2])>>], <<>>)
Given_ == LET js == {j \in 1..Len(hist) : IsComment(j)}
          IN IF js = {} THEN "" ELSE CallAt(hist[CHOOSE j \in js : \A i \in js : i <= j][2]).args[1].v
IsBreak(c) == c = "\n" \/ c = "\r"
AtTheEnd == Renders_ =>
  LET bare == Bare
      segs == Stmt(bare[Len(bare)])
      t    == Text
      b    == QueryText(segs)
      tail == SubSeq(t, Len(b) + 1, Len(t))
  IN /\ ArgsOf(segs) = ArgsOf(Segs)
     /\ SubSeq(t, 1, Len(b)) = b
     /\ Occ(b, "--") = 0
     /\ IF Given_ = "" THEN tail = ""
        ELSE /\ SubSeq(tail, 1, 5) = "; -- "
             /\ \A i \in 1..Len(tail) : ~IsBreak(Ch(tail, i))
             \* the words are those of the comment
             /\ LET words(s) == SelectSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA c : ~IsBreak(c) /\ c # " ")
                IN words(SubSeq(tail, 6, Len(tail))) = words(Given_)
=============================================================================
