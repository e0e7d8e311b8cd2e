------------------------------ MODULE JoinLang ------------------------------
(* The language of textual joins: lexer and parser.                          *)
EXTENDS Sql

Keywords == {"SELECT", "UPDATE", "INSERT", "DELETE", "FROM", "WHERE", "AND", "OR", "LIMIT", "OFFSET", "SET", "AS", "INNER",
             "CROSS", "LEFT", "RIGHT", "JOIN", "ON", "GROUP", "BY", "HAVING", "ORDER", "DISTINCT", "ONLY", "USING", "RETURNING",
             "VALUES", "INTO", "CONFLICT", "DO", "NOTHING", "WITH", "NOT", "EXISTS", "COUNT", "MAX", "MIN", "SUM"}
WordSet == LowerSet \union UpperSet \union DigitSet \union {"_", "."}
Single == [c \in {"*", "=", ";", ",", ":", "(", ")"} |-> c]

Tok(t, v) == [t |-> t, v |-> v]
Word(v) == LET u == ToUpper(v) IN Tok(IF u \in Keywords THEN u ELSE "Literal", v)

(* End of the maximal word starting at i. *)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WordSet THEN WordEnd(s, i + 1) ELSE i - 1

RECURSIVE LexR(_, _, _)
LexR(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i)
       IN IF IsSpace(c) THEN LexR(s, i + 1, acc)
          ELSE IF c \in DOMAIN Single THEN LexR(s, i + 1, Append(acc, Tok(c, c)))
          ELSE IF c \in WordSet THEN LET e == WordEnd(s, i) IN LexR(s, e + 1, Append(acc, Word(SubSeq(s, i, e))))
          ELSE LexR(s, i + 1, Append(acc, Tok("Illegal", c)))
Lex(s) == LexR(s, 1, <<>>)

(* What a lexer must not lose: the text without its blanks. *)
Squeeze(s) == Cat([i \in 1..Len(s) |-> IF IsSpace(Ch(s, i)) THEN "" ELSE Ch(s, i)])
Lossless(s, toks) == Cat([i \in 1..Len(toks) |-> toks[i].v]) = Squeeze(s)

-----------------------------------------------------------------------------
(* join ::= [ [INNER | LEFT | RIGHT] JOIN ] [ [table] ON ] "("^n chain ")"^n [";"]   *)
(* chain ::= col "=" col { (AND | OR) col "=" col }, grouped to the left     *)
Fail == [ok |-> FALSE]
At(toks, i) == IF i <= Len(toks) THEN toks[i].t ELSE "EOF"
IsOn(toks, i) == At(toks, i) = "Literal" /\ At(toks, i + 1) = "=" /\ At(toks, i + 2) = "Literal"
OnAt(toks, i) == [k |-> "on", l |-> toks[i].v, r |-> toks[i + 2].v]

RECURSIVE Chain(_, _, _)
Chain(toks, i, acc) == \* <<node, next>>, next = 0 on failure
  IF At(toks, i) \in {"AND", "OR"}
  THEN IF IsOn(toks, i + 1) THEN Chain(toks, i + 4, Infix(acc, At(toks, i), OnAt(toks, i + 1))) ELSE <<acc, 0>>
  ELSE <<acc, i>>
RECURSIVE Run(_, _, _)
Run(toks, i, t) == IF At(toks, i) = t THEN Run(toks, i + 1, t) ELSE i

ParseJoin(s) ==
  LET toks == Lex(s)
      i1   == IF At(toks, 1) \in {"INNER", "LEFT", "RIGHT"} /\ At(toks, 2) = "JOIN" THEN 3
              ELSE IF At(toks, 1) = "JOIN" THEN 2 ELSE 1
      type == IF i1 = 3 THEN At(toks, 1) \o " JOIN" ELSE "INNER JOIN"
      tabl == IF At(toks, i1) = "Literal" /\ At(toks, i1 + 1) = "ON" THEN toks[i1].v ELSE ""
      i2   == IF tabl # "" THEN i1 + 2 ELSE IF At(toks, i1) = "ON" THEN i1 + 1 ELSE i1
      i3   == Run(toks, i2, "(")
      c    == IF IsOn(toks, i3) THEN Chain(toks, i3 + 3, OnAt(toks, i3)) ELSE <<NIL, 0>>
      i4   == Run(toks, c[2], ")")
      i5   == IF At(toks, i4) = ";" THEN i4 + 1 ELSE i4
  IN IF c[2] = 0 \/ i4 - c[2] # i3 - i2 \/ i5 # Len(toks) + 1 THEN Fail
     ELSE [ok |-> TRUE, t |-> type, tab |-> tabl, cond |-> c[1]]
=============================================================================
