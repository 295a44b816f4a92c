-------------------------------- MODULE Usn --------------------------------
(* Scanning a change journal: at each 8-byte boundary there either is a valid record       *)
(* (reported, and the scan continues after it) or not (the scan continues at the next       *)
(* boundary). Zeros hold no record, so whole stretches of them may be skipped.               *)
EXTENDS Emit, Bytes, Utf16, Mem, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, pos, recs
vars == <<cid, inp, pos, recs>>

Buffer == 8192            \* the longest record that is recognised

M == inp.mem
(* ---- exhaustive family: two records (valid or damaged) after a run of zeros ---- *)
LE16(v) == <<v % 256, v \div 256>>
LE32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
Pad(b, n) == b \o [k \in 1..(n - Len(b)) |-> 0]
W(v) == LE32(v) \o <<0, 0, 0, 0>>
V2(len, maj, id) == Pad(LE32(len) \o LE16(maj) \o LE16(0) \o W(id) \o W(id + 1) \o W(id + 2) \o <<0, 16, 32, 48, 64, 128, 213, 1>> \o W(7) \o W(9) \o LE16(4) \o LE16(60) \o <<65, 0, 66, 0>>, 64)
V3(len, maj, id) == Pad(LE32(len) \o LE16(maj) \o LE16(0) \o W(id) \o W(1) \o W(id + 1) \o W(2) \o W(id + 2) \o <<0, 16, 32, 48, 64, 128, 213, 1>> \o W(7) \o W(9) \o LE16(4) \o LE16(76) \o <<65, 0, 66, 0>>, 80)
V4(len, maj, id) == LE32(len) \o LE16(maj) \o LE16(0) \o W(id) \o W(1) \o W(id + 1) \o W(2) \o W(id + 2) \o W(7) \o LE32(3) \o LE16(1) \o LE16(16) \o W(4096) \o W(8192)
Kinds(id) == { V2(64, 2, id), V2(72, 2, id), V2(56, 2, id), V2(62, 2, id), V2(64, 3, id), V2(64, 5, id), V2(0, 2, id), V2(7, 2, id), V2(1048576, 2, id),
               V3(80, 3, id), V3(72, 3, id), V3(80, 2, id), V3(88, 3, id), V4(80, 4, id), V4(72, 4, id), V4(84, 4, id), V4(80, 3, id) }
Small == /\ Scope # "none"
         /\ \E lead \in (IF Scope = "quick" THEN {0, 8136, 8184} ELSE {0, 8, 8120, 8136, 8184, 8192, 16376}), gap \in (IF Scope = "quick" THEN {0, 24} ELSE {0, 8, 24}), tail \in (IF Scope = "quick" THEN {0, 3} ELSE {0, 3, 8}), junk \in BOOLEAN :
            (junk => gap > 0) /\
            \E a \in Kinds(1000), b \in Kinds(2000) :
               inp = [size |-> lead + Len(a) + gap + Len(b) + tail,
                      mem |-> <<[a |-> lead, b |-> a], [a |-> lead + Len(a), b |-> IF junk THEN [k \in 1..gap |-> 200 + k] ELSE <<>>], [a |-> lead + Len(a) + gap, b |-> b]>>]
\* A long record at every place near the end of a stretch that may be read at once, between two short ones.
Long(n, id) == LET l == ((60 + (2 * n) + 7) \div 8) * 8 IN Pad(LE32(l) \o LE16(2) \o LE16(0) \o W(id) \o W(id + 1) \o W(id + 2) \o <<0, 16, 32, 48, 64, 128, 213, 1>> \o W(7) \o W(9) \o LE16(2 * n) \o LE16(60) \o [k \in 1..(2 * n) |-> IF k % 2 = 1 THEN 65 + (k % 26) ELSE 0], l)
Many(n, id) == LE32(64 + (16 * n)) \o LE16(4) \o LE16(0) \o W(id) \o W(1) \o W(id + 1) \o W(2) \o W(id + 2) \o W(7) \o LE32(3) \o LE16(n) \o LE16(16) \o [k \in 1..(16 * n) |-> k % 200]
At(a, b) == [a |-> a, b |-> b]
Sweep == /\ Scope # "none"
         /\ \E e \in (IF Scope = "quick" THEN {4096, 8192, 65536} ELSE {4096, 8192, 12288, 16384, 32768, 65536, 131072}), k \in 0..80, b \in {Long(255, 2000), Long(40, 2000)} \cup (IF Scope = "quick" THEN {} ELSE {Many(100, 2000)}) :
            LET at == e - (8 * k) IN at >= 64 /\ (Scope = "quick" /\ e # 8192 => Len(b) > 500 /\ k % 5 = 0) /\ inp = [size |-> at + Len(b) + 64, mem |-> <<At(at - 64, V2(64, 2, 1000)), At(at, b), At(at + Len(b), V2(64, 2, 3000))>>]
\* The same with records from the beginning on.
Sweep2 == /\ Scope # "none"
          /\ \E k \in (IF Scope = "quick" THEN { 3 * x : x \in 0..26 } ELSE 0..80) :
             LET n == (8192 - (8 * k)) \div 576 at == 576 * n rest == (8192 - (8 * k)) - at IN
             inp = [size |-> at + rest + 576 + 64, mem |-> [i \in 1..n |-> At((i - 1) * 576, Long(255, 100 * i))] \o <<At(at + rest, Long(255, 5000)), At(at + rest + 576, V2(64, 2, 3000))>>]

Init ==
  /\ \/ cid = 0 /\ (Small \/ Sweep \/ Sweep2)
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ pos = 0 /\ recs = <<>>

RL == MemU32(M, pos)
Ver == MemU16(M, pos + 4)
Least == CASE Ver = 2 -> 62 [] Ver = 3 -> 78 [] Ver = 4 -> 80 [] OTHER -> Buffer + 1
Valid == /\ pos + 8 <= inp.size
         /\ RL >= Least /\ RL % 8 = 0 /\ RL <= Buffer /\ pos + RL <= inp.size

F(r, o, n) == MemBytes(M, r.at + o, n)
H(r, o) == MemU16(M, r.at + o)
NameOf(r, inc) == LET l == H(r, 56 + inc)
                      o == H(r, 58 + inc)
                  IN IF o + l > r.len THEN <<-1>>
                     ELSE Decode16([k \in 1..(l \div 2) |-> H(r, o + (2 * (k - 1)))]) \o (IF l % 2 = 1 THEN <<65533>> ELSE <<>>)
ExtentsOf(r) == LET n == H(r, 60)
                    z == H(r, 62)
                    fit == IF z = 0 THEN n ELSE Min(n, (r.len - 64) \div z)
                IN [k \in 1..fit |-> F(r, 64 + ((k - 1) * z), z)]
Rec(r) == IF r.v = 4
  THEN [v |-> r.v, min |-> H(r, 6), len |-> r.len, ref |-> F(r, 8, 16), par |-> F(r, 24, 16), usn |-> F(r, 40, 8), ts |-> <<>>, w |-> <<F(r, 48, 4), F(r, 52, 4), F(r, 56, 4)>>, name |-> <<>>, ext |-> ExtentsOf(r)]
  ELSE LET i == IF r.v = 3 THEN 16 ELSE 0
           h == IF r.v = 3 THEN 16 ELSE 8
       IN [v |-> r.v, min |-> H(r, 6), len |-> r.len, ref |-> F(r, 8, h), par |-> F(r, 8 + h, h), usn |-> F(r, 24 + i, 8), ts |-> WDiv(F(r, 32 + i, 8), 10),
           w |-> <<F(r, 40 + i, 4), F(r, 44 + i, 4), F(r, 48 + i, 4), F(r, 52 + i, 4)>>, name |-> NameOf(r, i), ext |-> <<>>]

\* The next boundary at which anything but zeros may start.
NextData == LET S == { k \in 1..Len(M) : M[k].a + Len(M[k].b) > pos + 8 /\ Len(M[k].b) > 0 }
            IN IF S = {} THEN inp.size
               ELSE LET k == CHOOSE x \in S : \A y \in S : M[x].a <= M[y].a IN Max(pos + 8, (M[k].a \div 8) * 8)

Take == /\ pos < inp.size /\ Valid
        /\ recs' = Append(recs, [at |-> pos, len |-> RL, v |-> Ver]) /\ pos' = pos + RL
        /\ UNCHANGED <<cid, inp>>
Skip == /\ pos < inp.size /\ ~Valid
        /\ pos' = NextData
        /\ UNCHANGED <<cid, inp, recs>>
Over == pos >= inp.size
Done == Over /\ UNCHANGED vars
Next == Take \/ Skip \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> "ok", r |-> [k \in 1..Len(recs) |-> Rec(recs[k])]]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Advances == [][pos' > pos \/ UNCHANGED pos]_vars
RECURSIVE SumLen(_)
SumLen(q) == IF q = <<>> THEN 0 ELSE q[1].len + SumLen(SubSeq(q, 2, Len(q)))
\* Records never overlap: together they fit in what has been scanned.
NoOverlap == SumLen(recs) <= pos
Aligned == pos % 8 = 0 \/ pos = inp.size
=============================================================================
