------------------------------- MODULE MCText -------------------------------
(* Texts given to the lexer (C16): every sequence of at most MaxOps pieces.  *)
EXTENDS JoinLang, Json, CSV, IOUtils

CONSTANTS
  Pieces(_), \* sequence of texts (the parameter means nothing: see Loukoum.tla)
  MaxOps

VARIABLE seq
OutFile == IOEnv.OUT
ASSUME TLCSet(41, TLCEval(Pieces(0)))
Piece(i) == TLCGet(41)[i]

Init == seq = <<>>
Next == Len(seq) < MaxOps /\ \E i \in 1..Len(TLCGet(41)) : seq' = Append(seq, i)
Spec == Init /\ [][Next]_seq

text == Cat([i \in 1..Len(seq) |-> Piece(seq[i])])
Shown == [text |-> text, tokens |-> Lex(text)]

(* One of each kind of character, and letters that make keywords. *)
Characters(u_) == <<"o", "R", "a", "7", "_", ".", " ", "\n", "\t", "*", "=", "(", ";", "\"", "-", "é">>
(* Every keyword, in several spellings, next to anything. *)
KeywordList == SetToSeq(Keywords)
LowerOf == [c \in UpperSet |-> Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c)]
Small(s) == MapChars(s, LAMBDA c : LowerOf[c])
Mixed(s) == Cat([i \in 1..Len(s) |-> IF i % 2 = 1 THEN Ch(s, i) ELSE LowerOf[Ch(s, i)]])
Words(u_) == KeywordList \o [i \in 1..Len(KeywordList) |-> Small(KeywordList[i])] \o [i \in 1..Len(KeywordList) |-> Mixed(KeywordList[i])]
             \o <<" ", "\r", ".", "_", "1", "x", "S", ")", ",", ":", "$", "İ", "日">>
(* Words and blanks of many lengths.                                         *)
Times_(c, n) == Cat([i \in 1..n |-> c])
Long(u_) == <<Times_("a", 31), Times_("B", 64), Times_("_", 33), Times_("7", 64), Times_("é", 33), Times_(" ", 65), Times_("\n", 17), "x", ".", " ", "=">>

(* Characters that some would take for letters, digits or blanks. *)
Strange(u_) == <<"a", "Z", "0", " ", "\r", "\f", "²", "٣", "ß", "ſ", "K", "ı", "\"", "'", "\\", "`", "#", "+", "{", "~", "日", "‿", "、", " ", " ", "　", "﻿">>

-----------------------------------------------------------------------------
Toks == Lex(text)
IsWordText(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in WordSet
Runs(s) == Cardinality({i \in 1..Len(s) : Ch(s, i) \in WordSet /\ (i = 1 \/ Ch(s, i - 1) \notin WordSet)})
NothingLost == Lossless(text, Toks)
(* A blank separates: what is on both sides is read as it is read alone.     *)
(* The harness uses it to compare long texts made of these.                  *)
Part(i, j) == Cat([x \in 1..(j + 1 - i) |-> Piece(seq[i + x - 1])])
Separable == \A i \in 1..Len(seq) : LET a == Part(1, i)
                                        b == Part(i, Len(seq))
                                    IN Lex(Cat(<<a, "\n", b>>)) = Lex(a) \o Lex(b)
Shapes == LET ts == Toks IN \A i \in 1..Len(ts) :
  LET t == ts[i]
  IN CASE t.t = "Illegal" -> Len(t.v) = 1 /\ t.v \notin WordSet /\ ~IsSpace(t.v) /\ t.v \notin {"*", "=", ";", ",", ":", "(", ")"}
       [] t.t = "Literal" -> IsWordText(t.v) /\ ToUpper(t.v) \notin Keywords
       [] t.t \in Keywords -> IsWordText(t.v) /\ ToUpper(t.v) = t.t
       [] OTHER -> t.v = t.t /\ t.v \in {"*", "=", ";", ",", ":", "(", ")"}
Maximal == LET ts == Toks IN Cardinality({i \in 1..Len(ts) : IsWordText(ts[i].v)}) = Runs(text)

TokJson(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i].t, v |-> ts[i].v]]
Export == seq = <<>> \/ CSVWrite("%1$s", <<ToJson([ev |-> <<[op |-> "lex", str |-> text, xtoks |-> TokJson(Toks)]>>])>>, OutFile)
=============================================================================
