-------------------------------- MODULE Strs --------------------------------
(* Strings.  TLC's strings support Len, \o and SubSeq, and that is all the    *)
(* specification uses; everything else is defined here character by          *)
(* character.  A character is a one-character string.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)

(* Balanced concatenation of a sequence of strings (TLC interns every        *)
(* intermediate string, so a left fold would be quadratic).                  *)
RECURSIVE CatR(_, _, _)
CatR(ss, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET mid == (lo + hi) \div 2 IN CatR(ss, lo, mid) \o CatR(ss, mid + 1, hi)
Cat(ss) == CatR(ss, 1, Len(ss))

(* Map a character operator over a string. *)
MapChars(s, Op(_)) == Cat([i \in 1..Len(s) |-> Op(Ch(s, i))])

HasChar(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

(* Positions of character c in s, as an increasing sequence. *)
Positions(s, c) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : Ch(s, i) = c)

(* Split on a one-character separator: strings.Split. *)
Split(s, c) ==
  LET p == Positions(s, c)
      n == Len(p)
      From(k) == IF k = 1 THEN 1 ELSE p[k - 1] + 1
      To(k)   == IF k = n + 1 THEN Len(s) ELSE p[k] - 1
  IN [k \in 1..(n + 1) |-> SubSeq(s, From(k), To(k))]

(* The blanks strings.TrimSpace removes: U+00A0 and U+2003 are written as    *)
(* themselves.  Generators keep away from the few other ones.                *)
Blanks == {" ", "\t", "\n", "\r", "\f", " ", " "}
IsBlank(c) == c \in Blanks

(* The blanks between tokens. *)
IsSpace(c) == c = " " \/ c = "\t" \/ c = "\n" \/ c = "\r"

TrimSpace(s) ==
  LET keep == {i \in 1..Len(s) : ~IsBlank(Ch(s, i))}
  IN IF keep = {} THEN ""
     ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j,
                    CHOOSE i \in keep : \A j \in keep : i >= j)

Join(ss, sep) ==
  IF Len(ss) = 0 THEN ""
  ELSE Cat([i \in 1..(2 * Len(ss) - 1) |-> IF i % 2 = 1 THEN ss[(i + 1) \div 2] ELSE sep])

(* Printable ASCII in code order, followed by the few other characters the   *)
(* generators use in names that have to be sorted.                           *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Extra == " ÀÉàéñüΩжםש ​中名字﻿�"
CharTable == "\t\n\f\r" \o Ascii \o Extra
(* The functions are values, computed once. *)
OrdOf == [c \in {Ch(CharTable, i) : i \in 1..Len(CharTable)} |->
            CHOOSE i \in 1..Len(CharTable) : Ch(CharTable, i) = c]
Ord(c) == OrdOf[c]

(* Byte-wise comparison of Go strings (UTF-8 preserves code point order). *)
StrLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {i \in 1..n : Ch(a, i) # Ch(b, i)}
  IN IF d = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN Ord(Ch(a, i)) < Ord(Ch(b, i))

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
LowerSet == CharsOf(Lower)
UpperSet == CharsOf(Upper)
DigitSet == CharsOf(Digits)
UpperOf == [c \in LowerSet |-> Ch(Upper, CHOOSE i \in 1..26 : Ch(Lower, i) = c)]
ToUpper(s) == MapChars(s, LAMBDA c : IF c \in LowerSet THEN UpperOf[c] ELSE c)

DigitOf == [c \in DigitSet |-> (CHOOSE i \in 1..10 : Ch(Digits, i) = c) - 1]
RECURSIVE ToIntR(_, _)
ToIntR(s, acc) == IF s = "" THEN acc ELSE ToIntR(SubSeq(s, 2, Len(s)), acc * 10 + DigitOf[Ch(s, 1)])
ToInt(s) == ToIntR(s, 0)

(* Decimal integers of any size, as strings. *)
IsDec(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
StripZeros(s) ==
  LET nz == {i \in 1..Len(s) : Ch(s, i) # "0"}
  IN IF nz = {} THEN "0" ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
DecLeq(a, b) == \* both canonical and non-negative
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ (a = b \/ StrLess(a, b))
MaxInt64 == "9223372036854775807"
MinInt64Abs == "9223372036854775808"

(* strconv.ParseInt(s, 10, 64): "" when it fails, the canonical decimal      *)
(* otherwise.                                                                *)
ParseInt64(s) ==
  LET signed == Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"}
      neg    == Len(s) > 0 /\ Ch(s, 1) = "-"
      digits == IF signed THEN SubSeq(s, 2, Len(s)) ELSE s
  IN IF ~IsDec(digits) THEN ""
     ELSE LET c == StripZeros(digits)
          IN IF neg THEN IF c = "0" THEN "0" ELSE IF DecLeq(c, MinInt64Abs) THEN "-" \o c ELSE ""
             ELSE IF DecLeq(c, MaxInt64) THEN c ELSE ""

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
=============================================================================
