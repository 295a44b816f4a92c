------------------------------- MODULE Carve -------------------------------
(* Recovering file name structures from slack areas. A structure is recognised by four      *)
(* plausible timestamps; its first eight bytes (the parent) may have been overwritten when   *)
(* it starts right at the beginning of the area. With `partial`, the recognisable end of a    *)
(* name that lies before the first structure is reported too.                                *)
EXTENDS Emit, Bytes, Utf16, Mem, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, idx, pos, first, out
vars == <<cid, inp, idx, pos, first, out>>

NotBefore == <<0, 128, 236, 116, 214, 22, 188, 1>>      \* 125000000000000000
NotAfter == <<0, 128, 110, 84, 187, 36, 3, 2>>      \* 145000000000000000

(* ---- exhaustive family: something before, a structure, something between, a structure ---- *)
T == <<1, 2, 3, 4, 5, 6, 213, 1>>
Tb(k) == CASE k = 0 -> T [] k = 1 -> NotBefore [] k = 2 -> NotAfter [] k = 3 -> [NotBefore EXCEPT ![2] = 127] [] k = 4 -> [NotAfter EXCEPT ![1] = 1] [] k = 5 -> WZero(8)
Fill(n, v) == [k \in 1..n |-> (v + (7 * k)) % 256]
Chars(q) == [k \in 1..(2 * Len(q)) |-> IF k % 2 = 1 THEN q[(k + 1) \div 2] % 256 ELSE q[k \div 2] \div 256]
Fixed(ts, nl, id) == <<id, 0, 0, 0, 0, 0, 7, 0>> \o ts[1] \o ts[2] \o ts[3] \o ts[4] \o Fill(24, id) \o <<nl, 3>>
Ok4 == <<T, T, T, T>>
Bad(w, k) == [Ok4 EXCEPT ![w] = Tb(k)]
Pre == { Fill(n, 130) : n \in {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 16} }
       \cup { Chars(q) : q \in { <<70, 97, 98, 99, 100, 101>>, <<1, 97, 98, 99, 100, 101, 0, 0>>, <<1, 97, 98, 99, 100, 0>>, <<1, 97, 98, 99, 100, 101, 1072, 103>>, <<1, 97, 1072, 98, 99, 100, 101, 102>>, <<0, 0, 0, 0, 0, 0>>, <<97, 98, 99, 47, 100, 101, 102, 103, 104>>, <<9, 92, 58, 65, 66, 67, 68, 9, 32>> } }
       \cup { <<8>> \o Chars(q) : q \in { <<70, 97, 98, 99, 100, 101>>, <<97, 98, 99, 100>> } }
Name1 == { <<65>>, <<65, 66, 67>>, <<65, 47>>, <<65, 0>>, <<55357, 56832>>, <<55357>> }
SmallA == \E p \in Pre, n \in Name1, nl \in {0, 1, 3}, gap \in {0, 2, 3, 6}, second \in BOOLEAN, cut \in {0, 1, 2, 5}, part \in BOOLEAN :
            LET b == p \o Fixed(Ok4, nl, 40) \o Chars(n) \o Fill(gap, 200) \o (IF second THEN Fixed(Ok4, 2, 90) \o Chars(<<66, 67>>) ELSE <<>>)
            IN inp = [vals |-> <<SubSeq(b, 1, Len(b) - cut)>>, list |-> FALSE, part |-> part]
SmallB == \E p \in {<<>>, Fill(2, 130), Fill(3, 130), Fill(8, 130)}, w \in 1..4, k \in 1..5, hide \in {0, 4, 8}, part \in BOOLEAN :
            LET b == p \o SubSeq(Fixed(Bad(w, k), 2, 40), hide + 1, 66) \o Chars(<<65, 66>>) \o Fixed(Ok4, 1, 90) \o Chars(<<67>>)
            IN inp = [vals |-> <<b>>, list |-> FALSE, part |-> part]
One(id) == Fixed(Ok4, 1, id) \o Chars(<<67>>)
SmallC == \E a \in {<<>>, Fill(6, 1), One(40), <<5>> \o One(41), SubSeq(One(42), 9, 68)}, b \in {<<>>, Fill(9, 1), One(50), Chars(<<1, 97, 98, 99, 100, 101, 102>>) \o One(51)}, part \in BOOLEAN :
            inp = [vals |-> <<a, b>>, list |-> TRUE, part |-> part]
Small == Scope # "none" /\ (SmallA \/ SmallB \/ SmallC)

V == inp.vals[idx]
N == Len(V)
Start(k) == IF Len(inp.vals[k]) % 2 = 1 THEN 1 ELSE 0

Init ==
  /\ \/ cid = 0 /\ Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ idx = 1 /\ pos = (IF Len(inp.vals) = 0 THEN 0 ELSE Start(1)) /\ first = -1 /\ out = <<>>

Plausible(p) == /\ p + 32 <= N
                /\ \A k \in 0..3 : LET t == SubSeq(V, p + (8 * k) + 1, p + (8 * k) + 8) IN WCmp(t, NotBefore) >= 0 /\ WCmp(t, NotAfter) <= 0
Raw(a, n) == SubSeq(V, a + 1, Min(N, a + n))
\* A structure whose timestamps start at p: where it starts, and its bytes.
From(p) == IF p >= 8 THEN p - 8 ELSE 0
Bytes8(p) == IF p >= 8 THEN Raw(p - 8, 8) ELSE [k \in 1..8 |-> 255]
HasLength(p) == p + 57 <= N
NameAt(p) == LET r == Raw(p + 58, 2 * V[p + 57]) IN Decode16([k \in 1..(Len(r) \div 2) |-> BU16(r, 2 * (k - 1))]) \o (IF Len(r) % 2 = 1 THEN <<65533>> ELSE <<>>)
Found(p) == /\ p \in {0, 4} \/ p >= 8
            /\ Plausible(p) /\ HasLength(p)
            /\ LET n == NameAt(p) IN Len(n) > 0 /\ \A k \in 1..Len(n) : n[k] \notin {0, 47}
Hits == { p \in pos..(N - 32) : (p - pos) % 2 = 0 /\ Found(p) }
Hit(p) == [parent |-> Bytes8(p), t |-> [k \in 1..4 |-> WDiv(Raw(p + (8 * (k - 1)), 8), 10)], al |-> Raw(p + 32, 8), fs |-> Raw(p + 40, 8), fa |-> Raw(p + 48, 4), ea |-> Raw(p + 52, 4),
           nl |-> V[p + 57], fl |-> Raw(p + 57, 1), name |-> NameAt(p)]

(* ---- the end of a name before the first structure ---- *)
Printable(c) == c = 9 \/ (c \in 32..126 /\ c \notin {47, 58, 92})
\* Units before the first structure, nearest first; the very first byte of the area does not count.
Units == LET n == (first - 1) \div 2 IN [k \in 1..n |-> BU16(V, first - (2 * k))]
SkipZeros(u) == LET S == { k \in 1..Len(u) : u[k] # 0 } IN IF S = {} THEN <<>> ELSE SubSeq(u, CHOOSE k \in S : \A j \in S : k <= j, Len(u))
RECURSIVE Collect(_, _, _)
Collect(u, k, acc) == IF k > Len(u) THEN acc
                      ELSE IF u[k] < 256 /\ Printable(u[k]) THEN Collect(u, k + 1, <<u[k]>> \o acc)
                      ELSE IF Len(acc) >= 5 THEN acc
                      ELSE Collect(u, k + 1, <<>>)
PartName == Collect(SkipZeros(Units), 1, <<>>)

Going == idx <= Len(inp.vals)
Take == /\ Going /\ N >= 8 /\ Hits # {}
        /\ LET p == CHOOSE h \in Hits : \A g \in Hits : h <= g
           IN /\ out' = Append(out, [k |-> "full", a |-> Hit(p)])
              /\ first' = (IF first = -1 THEN From(p) ELSE first)
              /\ pos' = p + 68
        /\ UNCHANGED <<cid, inp, idx>>
Leave == /\ Going /\ (N < 8 \/ Hits = {})
         /\ out' = (IF inp.part /\ first >= 10 /\ Len(PartName) >= 5 THEN Append(out, [k |-> "part", a |-> PartName]) ELSE out)
         /\ idx' = idx + 1 /\ pos' = (IF idx = Len(inp.vals) THEN 0 ELSE Start(idx + 1)) /\ first' = -1
         /\ UNCHANGED <<cid, inp>>
Over == ~Going
Done == Over /\ UNCHANGED vars
Next == Take \/ Leave \/ Done
Spec == Init /\ [][Next]_vars

Obs == [st |-> "ok", r |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* No name is empty or holds a separator, whatever the area holds.
SaneNames == \A k \in 1..Len(out) : out[k].k = "full" => Len(out[k].a.name) > 0 /\ \A j \in 1..Len(out[k].a.name) : out[k].a.name[j] \notin {0, 47}
\* Partial names are reported only when asked for.
PartOnlyWhenAsked == (\E k \in 1..Len(out) : out[k].k = "part") => inp.part
\* Structures are reported in the order of their place, the next one never before the name of the previous one.
Forward == [][idx' = idx => pos' > pos \/ UNCHANGED pos]_vars
=============================================================================
