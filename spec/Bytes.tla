------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes, variable length quantities, big naturals and the ASCII           *)
(* projection of text that the conformance driver uses.                    *)
(*                                                                         *)
(* TLC integers are 32 bit.  Absolute ticks and elapsed times need more,   *)
(* so they are "big naturals": little endian sequences of base 10^4 limbs, *)
(* normalised (no leading zero limb; zero is <<>>).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

MaxVlq == 268435455        \* 0x0fffffff

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- variable length quantities -------------------------------------- *)

\* The canonical (shortest) encoding.
Vlq(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 16384 THEN <<128 + (n \div 128), n % 128>>
  ELSE IF n < 2097152 THEN <<128 + (n \div 16384), 128 + ((n \div 128) % 128), n % 128>>
  ELSE <<128 + (n \div 2097152), 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>>

\* An encoding of n in (at least) k <= 4 bytes - legal, but not shortest.
VlqPadded(n, k) ==
  LET v == Vlq(n) IN
  IF Len(v) >= k THEN v ELSE [i \in 1..(k - Len(v)) |-> 128] \o v

\* Decodes the VLQ at b[p] in the window that ends at e.
VlqAt(b, p, e) ==
  LET bad == [ok |-> FALSE, v |-> 0, p |-> p]
      at(i) == b[p + i] % 128
  IN IF p > e THEN bad
     ELSE IF b[p] < 128 THEN [ok |-> TRUE, v |-> b[p], p |-> p + 1]
     ELSE IF p + 1 > e THEN bad
     ELSE IF b[p+1] < 128 THEN [ok |-> TRUE, v |-> at(0) * 128 + b[p+1], p |-> p + 2]
     ELSE IF p + 2 > e THEN bad
     ELSE IF b[p+2] < 128 THEN [ok |-> TRUE, v |-> at(0) * 16384 + at(1) * 128 + b[p+2], p |-> p + 3]
     ELSE IF p + 3 > e THEN bad
     ELSE IF b[p+3] < 128 THEN [ok |-> TRUE, v |-> at(0) * 2097152 + at(1) * 16384 + at(2) * 128 + b[p+3], p |-> p + 4]
     ELSE bad

(* ---- fixed width integers -------------------------------------------- *)

BE16(n) == <<n \div 256, n % 256>>
BE32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

U16At(b, p) == b[p] * 256 + b[p+1]

\* The 32 bit length at b[p], or -1 if it exceeds any file this model deals with.
U32At(b, p) == IF b[p] > 0 THEN -1 ELSE b[p+1] * 65536 + b[p+2] * 256 + b[p+3]

(* ---- big naturals ----------------------------------------------------- *)

BASE == 10000

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BigOf(n \div BASE)

RECURSIVE BigAddC(_, _, _)
BigAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a)
           y == IF b = <<>> THEN 0 ELSE Head(b)
           s == x + y + c
       IN <<s % BASE>> \o BigAddC(IF a = <<>> THEN <<>> ELSE Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), s \div BASE)

BigAdd(a, b) == BigAddC(a, b, 0)

RECURSIVE BigTrim(_)
BigTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BigSubC(_, _, _)
BigSubC(a, b, c) ==      \* a >= b
  IF a = <<>> THEN <<>>
  ELSE LET y == (IF b = <<>> THEN 0 ELSE Head(b)) + c
           d == Head(a) - y
       IN <<IF d < 0 THEN d + BASE ELSE d>> \o BigSubC(Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), IF d < 0 THEN 1 ELSE 0)

BigSub(a, b) == BigTrim(BigSubC(a, b, 0))

RECURSIVE BigMulSC(_, _, _)
BigMulSC(a, k, c) ==     \* k < BASE
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Head(a) * k + c IN <<s % BASE>> \o BigMulSC(Tail(a), k, s \div BASE)

BigMulS(a, k) == BigTrim(BigMulSC(a, k, 0))

RECURSIVE BigMul(_, _)
BigMul(a, b) ==
  IF b = <<>> \/ a = <<>> THEN <<>>
  ELSE LET hi == BigMul(a, Tail(b)) IN
       BigTrim(BigAdd(BigMulS(a, Head(b)), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi))

\* a divided by the small integer k (1..200000): most significant limb first.
RECURSIVE BigDivR(_, _, _, _)
BigDivR(a, k, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET s == r * BASE + a[i] IN BigDivR(a, k, i - 1, s % k) \o <<s \div k>>

BigDiv(a, k) == BigTrim(BigDivR(a, k, Len(a), 0))

RECURSIVE BigLT(_, _)
BigLT(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN FALSE
  ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
  ELSE BigLT(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))

BigLE(a, b) == ~BigLT(b, a)

BigSmall(a) == (IF Len(a) > 0 THEN a[1] ELSE 0) + (IF Len(a) > 1 THEN a[2] * BASE ELSE 0)     \* of at most two digits

Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)

RECURSIVE BigDecR(_, _)
BigDecR(a, i) == IF i = 0 THEN "" ELSE Pad4(a[i]) \o BigDecR(a, i - 1)

BigDec(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o BigDecR(a, Len(a) - 1)

(* ---- text -------------------------------------------------------------- *)

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex2(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]

HexTab == [b \in Byte |-> Hex2(b)]

\* (Divide and conquer: payloads can be long.)
RECURSIVE HexRange(_, _, _)
HexRange(s, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN HexTab[s[i]]
  ELSE LET m == (i + j) \div 2 IN HexRange(s, i, m) \o " " \o HexRange(s, m + 1, j)
HexList(s) == HexRange(s, 1, Len(s))

\* The driver escapes every byte of a string that is not in this set as <XX>.
Plain == " !#$%&'()*+,-./0123456789:;=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PlainCodes == <<32,33,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,61,63,64,
   65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,93,94,95,96,
   97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126>>

CharTab == [b \in Byte |->
  IF \E i \in 1..Len(PlainCodes) : PlainCodes[i] = b
  THEN LET i == CHOOSE i \in 1..Len(PlainCodes) : PlainCodes[i] = b IN SubSeq(Plain, i, i)
  ELSE "<" \o Hex2(b) \o ">"]

RECURSIVE TextRange(_, _, _)
TextRange(s, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN CharTab[s[i]]
  ELSE LET m == (i + j) \div 2 IN TextRange(s, i, m) \o TextRange(s, m + 1, j)
TextOf(s) == TextRange(s, 1, Len(s))

(* ---- UTF-8 -------------------------------------------------------------- *)

\* The length of the well-formed UTF-8 sequence at s[i], or 0 if there is none.
Utf8At(s, i) ==
  LET n == Len(s)
      cont(j) == j <= n /\ s[j] \in 128..191
      in(j, lo, hi) == j <= n /\ s[j] >= lo /\ s[j] <= hi
  IN IF s[i] < 128 THEN 1
     ELSE IF s[i] \in 194..223 THEN (IF cont(i + 1) THEN 2 ELSE 0)
     ELSE IF s[i] \in 224..239 THEN
       (IF in(i + 1, IF s[i] = 224 THEN 160 ELSE 128, IF s[i] = 237 THEN 159 ELSE 191) /\ cont(i + 2) THEN 3 ELSE 0)
     ELSE IF s[i] \in 240..244 THEN
       (IF in(i + 1, IF s[i] = 240 THEN 144 ELSE 128, IF s[i] = 244 THEN 143 ELSE 191) /\ cont(i + 2) /\ cont(i + 3) THEN 4 ELSE 0)
     ELSE 0

RECURSIVE Utf8FixR(_, _)
Utf8FixR(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == Utf8At(s, i) IN
       IF n = 0 THEN <<239, 191, 189>> \o Utf8FixR(s, i + 1) ELSE SubSeq(s, i, i + n - 1) \o Utf8FixR(s, i + n)

\* JSON can only carry Unicode text: every byte that is not part of well-formed UTF-8 becomes U+FFFD.
Utf8Fix(s) == IF \A j \in 1..Len(s) : s[j] < 128 THEN s ELSE Utf8FixR(s, 1)
IsUtf8(s) == Utf8Fix(s) = s

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN " " ELSE Spaces(n \div 2) \o Spaces(n - (n \div 2))

\* Pads a string whose width (in characters) is w.
PadW(s, w, n) == s \o Spaces(n - w)
Pad(s, n) == PadW(s, Len(s), n)

RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)

SHARP == "<E2><99><AF>"
FLAT == "<E2><99><AD>"
ELLIPSIS == "<E2><80><A6>"

DiffFields(a, b, fields) == {f \in fields : a[f] # b[f]}
=============================================================================
