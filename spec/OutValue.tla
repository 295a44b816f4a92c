------------------------------ MODULE OutValue ------------------------------
(* A value kept outside of its file record: the clusters named by the runs are read from    *)
(* the volume one run after another and joined. The volume is filled with 32-byte entries;   *)
(* the entry at byte 32k of the volume image carries the number k.                            *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, run, got, st
vars == <<cid, inp, run, got, st>>

(* cs: bytes per cluster; off: bytes before the volume; total: bytes of the image;           *)
(* runs: <<l, n>>, l = -1 for a hole; size: declared size of the value.                       *)
I(cs, off, total, runs, size) == [cs |-> cs, off |-> off, total |-> total, runs |-> runs, size |-> size]
Runs == {<<2, 1>>, <<5, 2>>, <<1, 1>>, <<-1, 1>>, <<7, 1>>, <<7, 2>>, <<9, 1>>}
Small == IF Scope = "none" THEN {} ELSE
  { I(64, o, o + 512 + t, r, s) : o \in {0, 32, 96}, t \in {0, 32}, s \in {0, 25, 26, 31, 32, 57, 58, 64, 96, 127, 128, 160, 192, 1000},
      r \in {<<a>> : a \in Runs} \cup {<<a, b>> : a \in Runs, b \in Runs} \cup (IF Scope = "thorough" THEN {<<a, b, c>> : a \in Runs, b \in Runs, c \in Runs} ELSE {<<<<2, 1>>, b, c>> : b \in {<<-1, 1>>, <<5, 2>>}, c \in Runs}) }

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ run = 1 /\ got = <<>> /\ st = "run"

R == inp.runs[run]
From == inp.off + (R[1] * inp.cs)
Bytes1 == R[2] * inp.cs
\* Entries of one run, as numbers.
Piece == [k \in 1..(Bytes1 \div 32) |-> (From \div 32) + k - 1]
Take ==
  /\ st = "run" /\ run <= Len(inp.runs)
  /\ IF R[1] = -1 \/ From + Bytes1 > inp.total
       THEN st' = "rejected" /\ UNCHANGED <<got, run>>
       ELSE got' = got \o Piece /\ run' = run + 1 /\ UNCHANGED st
  /\ UNCHANGED <<cid, inp>>
\* The value ends at its size; an entry whose header is cut off is none.
Limit == LET n == Min(inp.size, 32 * Len(got)) IN (n \div 32) + (IF n % 32 >= 26 THEN 1 ELSE 0)
Finish == st = "run" /\ run > Len(inp.runs) /\ st' = "ok" /\ got' = SubSeq(got, 1, Limit) /\ UNCHANGED <<cid, inp, run>>
Over == st # "run"
Done == Over /\ UNCHANGED vars
Next == Take \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> st, e |-> IF st = "ok" THEN got ELSE <<>>]
Report == Over => Out(cid, inp, Obs)

\* Nothing but clusters of the runs is in the value.
Inside == st = "ok" => \A i \in 1..Len(got) : \E k \in 1..Len(inp.runs) : LET b == inp.off + (inp.runs[k][1] * inp.cs) IN 32 * got[i] >= b /\ 32 * got[i] < b + (inp.runs[k][2] * inp.cs)
=============================================================================
