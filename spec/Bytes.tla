------------------------------- MODULE Bytes -------------------------------
(* Fixed-width little-endian integers as sequences of bytes: TLC integers have 32 bits,   *)
(* on-disk structures have 64-bit fields.                                                  *)
EXTENDS Integers, Sequences

RECURSIVE CarryAdd(_, _, _, _)
CarryAdd(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o CarryAdd(a, b, i + 1, s \div 256)

\* Sum modulo 256^Len(a); both operands have the same width.
WAdd(a, b) == CarryAdd(a, b, 1, 0)

WZero(w) == [i \in 1..w |-> 0]
WNeg(a) == a[Len(a)] >= 128                      \* two's complement sign
WIsZero(a) == \A i \in 1..Len(a) : a[i] = 0
\* Sign-extend a little-endian two's complement number to w bytes.
WSext(a, w) == [i \in 1..w |-> IF i <= Len(a) THEN a[i] ELSE IF a[Len(a)] >= 128 THEN 255 ELSE 0]
WZext(a, w) == [i \in 1..w |-> IF i <= Len(a) THEN a[i] ELSE 0]

RECURSIVE WCmpFrom(_, _, _)
WCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE WCmpFrom(a, b, i - 1)
\* Unsigned comparison (same width): -1, 0, 1.
WCmp(a, b) == WCmpFrom(a, b, Len(a))

\* Quotient of an unsigned little-endian number by a small divisor (d < 2^22).
RECURSIVE WDivFrom(_, _, _, _)
WDivFrom(a, d, i, rem) == IF i = 0 THEN <<>> ELSE LET v == (rem * 256) + a[i] IN WDivFrom(a, d, i - 1, v % d) \o <<v \div d>>
WDiv(a, d) == WDivFrom(a, d, Len(a), 0)

Le16(s, o) == s[o] + 256 * s[o + 1]
Le24(s, o) == s[o] + 256 * s[o + 1] + 65536 * s[o + 2]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
