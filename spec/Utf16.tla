------------------------------- MODULE Utf16 -------------------------------
(* Decoding UTF-16 code units with replacement of what is not a valid surrogate pair.     *)
EXTENDS Integers, Sequences

IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u) == u >= 56320 /\ u <= 57343

RECURSIVE Fix16(_, _)
Fix16(u, k) ==
  IF k > Len(u) THEN <<>>
  ELSE IF IsHigh(u[k])
    THEN IF k < Len(u) /\ IsLow(u[k + 1]) THEN <<u[k], u[k + 1]>> \o Fix16(u, k + 2) ELSE <<65533>> \o Fix16(u, k + 1)
  ELSE IF IsLow(u[k]) THEN <<65533>> \o Fix16(u, k + 1)
  ELSE <<u[k]>> \o Fix16(u, k + 1)

Decode16(u) == Fix16(u, 1)
=============================================================================
