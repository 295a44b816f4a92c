------------------------------- MODULE FatDir -------------------------------
(* The entries of a FAT directory. A long name is stored in slots before the slot of its file, *)
(* last part first; the slots are numbered and carry a checksum of the short name. A reader     *)
(* keeps the parts seen so far only while they go together, and gives them to the next file     *)
(* slot only if they are complete and their checksum is that of its name (which a deleted file   *)
(* cannot tell any more: its first character is lost, so the parts right before it are its).     *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, pos, parts, last, null, out
vars == <<cid, inp, pos, parts, last, null, out>>
\* inp    [slots: sequences of 32 bytes, fat32, enc, short]; null slots follow up to a multiple of 512 bytes
\* parts  the units of the parts kept, in the order of the name    last  <<number, checksum>> of the latest part, or <<>>
\* null   a slot that ends the directory was seen                    out   what is reported

None == <<-1>>                                                       \* no such value

(* ---- slots ---- *)
Rep(v, n) == [i \in 1..n |-> v]
Long(o, cs, ty, u) == <<o>> \o SubSeq(u, 1, 10) \o <<15, ty, cs>> \o SubSeq(u, 11, 22) \o <<0, 0>> \o SubSeq(u, 23, 26)
Units(c, n) == [i \in 1..26 |-> IF i % 2 = 0 THEN IF i \div 2 <= n + 1 THEN 0 ELSE 255 ELSE IF (i + 1) \div 2 <= n THEN c ELSE IF (i + 1) \div 2 = n + 1 THEN 0 ELSE 255]
Short(nm, attr) == nm \o <<attr, 0, 0, 0, 0, 0, 0, 33, 86, 0, 0, 1, 2, 33, 86, 7, 0, 9, 0, 0, 0>>
NameA == <<65, 32, 32, 32, 32, 32, 32, 32, 84, 88, 84>>                   \* A.TXT
NameB == <<66, 49, 32, 32, 32, 32, 32, 32, 32, 32, 32>>                   \* B1
RECURSIVE SumFrom(_, _, _)
SumFrom(nm, i, c) == IF i > 11 THEN c ELSE SumFrom(nm, i + 1, ((c \div 2) + (IF c % 2 = 1 THEN 128 ELSE 0) + nm[i]) % 256)
Sum(nm) == SumFrom(nm, 1, 0)
CA == Sum(NameA)
CB == Sum(NameB)
Gone(s, b) == [s EXCEPT ![1] = b]
Core == { Long(65, CA, 0, Units(97, 3)), Long(1, CA, 0, Units(98, 13)), Long(66, CA, 0, Units(99, 2)), Long(65, CB, 0, Units(100, 5)), Long(229, CA, 0, Units(101, 13)),
          Short(NameA, 32), Short(NameB, 16), Gone(Short(NameA, 32), 229), Gone(Short(NameB, 32), 0) }
More == { Long(2, CA, 0, Units(102, 13)), Long(67, CA, 0, Units(103, 1)), Long(229, CB, 0, Units(104, 4)), Long(0, CA, 0, Units(105, 6)), Long(65, CA, 1, Units(106, 3)), Long(64, CA, 0, Units(107, 3)), Long(65, CA, 0, Units(108, 0)),
          Long(85, CA, 0, Units(109, 3)), Short(NameA, 8), Short(NameA, 24), Short([NameA EXCEPT ![2] = 97], 32), Rep(229, 32), Rep(0, 32) }
Chars == { Short([NameB EXCEPT ![i] = c], a) : i \in {1, 2, 9}, c \in 0..255, a \in {32, 8} }
Attrs == { Short(Gone(NameB, b), a) : a \in 0..255, b \in {66, 229, 0, 5} }
Fields == { [Short(NameA, 32) EXCEPT ![i] = v] : i \in 13..32, v \in {0, 1, 30, 31, 33, 64, 96, 127, 128, 160, 191, 192, 199, 200, 224, 255} }
Nts == { [Short(n, a) EXCEPT ![13] = v] : n \in {NameA, NameB, <<5, 65, 32, 66, 32, 32, 32, 32, 90, 32, 200>>}, a \in {32, 16, 8}, v \in 0..255 }
Dots == { Short(<<46, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32>>, 16), Short(<<46, 46, 32, 32, 32, 32, 32, 32, 32, 32, 32>>, 16), Short(<<46, 46, 46, 32, 32, 32, 32, 32, 32, 32, 32>>, 16) }
Given(sl, f, e, sh) == inp = [slots |-> sl, fat32 |-> f, enc |-> e, short |-> sh]
Small == CASE Scope = "none" -> FALSE
           [] Family = "pairs" -> \E n \in 1..2, sh \in BOOLEAN : \E sl \in [1..n -> Core \cup More] : Given(sl, TRUE, "ascii", sh)
           [] Family = "core" -> \E n \in 3..(IF Scope = "quick" THEN 4 ELSE 5) : \E sl \in [1..n -> Core] : Given(sl, TRUE, "ascii", FALSE)
           [] Family = "more" -> \E sl \in [1..3 -> Core \cup More] : Given(sl, TRUE, "ascii", FALSE)
           [] Family = "fields" -> \E s \in Chars \cup Attrs \cup Fields \cup Nts \cup Dots, f \in BOOLEAN, e \in {"ascii", "latin-1"} : (f = (e = "ascii")) /\ Given(<<s>>, f, e, FALSE)
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ pos = 1 /\ parts = <<>> /\ last = <<>> /\ null = FALSE /\ out = <<>>

(* ---- names ---- *)
Lower == 97..122
Forbidden == (0..31) \cup {34, 42, 44, 46, 47, 58, 59, 60, 61, 62, 63, 91, 92, 93, 124}
Dot == <<46>> \o Rep(32, 10)
DotDot == <<46, 46>> \o Rep(32, 9)
GoodShort(n) == \/ n \in {Dot, DotDot}
                \/ /\ n[1] # 32 /\ n[1] \notin Lower /\ (n[1] \in {0, 5} \/ n[1] \notin Forbidden)
                   /\ \A i \in 2..11 : n[i] \notin Lower /\ n[i] \notin Forbidden
Fixed(n) == IF n[1] \in {0, 229} THEN [n EXCEPT ![1] = 95] ELSE IF n[1] = 5 THEN [n EXCEPT ![1] = 229] ELSE n
RECURSIVE Trim(_)
Trim(q) == IF q # <<>> /\ q[Len(q)] = 32 THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q
Char(c) == IF inp.enc = "ascii" /\ c >= 128 THEN 65533 ELSE c
Small1(c) == IF c \in 65..90 \/ (inp.enc = "latin-1" /\ c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Text(q, low) == [i \in 1..Len(q) |-> IF low THEN Small1(Char(q[i])) ELSE Char(q[i])]
Join(a, b) == IF b = <<>> THEN a ELSE a \o <<46>> \o b
Base(n) == Trim(SubSeq(Fixed(n), 1, 8))
Ext(n) == Trim(SubSeq(Fixed(n), 9, 11))
Bit(v, k) == (v \div k) % 2 = 1
Label(a) == Bit(a, 8) /\ ~Bit(a, 16)

Hi(u) == u >= 55296 /\ u <= 56319
Lo(u) == u >= 56320 /\ u <= 57343
RECURSIVE Repair(_, _)
Repair(q, i) == IF i > Len(q) THEN <<>>
                ELSE IF Hi(q[i]) /\ i < Len(q) /\ Lo(q[IF i < Len(q) THEN i + 1 ELSE i]) THEN <<q[i], q[i + 1]>> \o Repair(q, i + 2)
                ELSE <<IF Hi(q[i]) \/ Lo(q[i]) THEN 65533 ELSE q[i]>> \o Repair(q, i + 1)
\* The first n characters (a pair counts as one).
RECURSIVE FirstChars(_, _)
FirstChars(q, n) == IF n = 0 \/ q = <<>> THEN <<>> ELSE IF Hi(q[1]) THEN <<q[1], q[2]>> \o FirstChars(SubSeq(q, 3, Len(q)), n - 1) ELSE <<q[1]>> \o FirstChars(SubSeq(q, 2, Len(q)), n - 1)
Zeros(q) == { i \in 1..Len(q) : q[i] = 0 }
UpToNull(q) == IF Zeros(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Zeros(q) : \A j \in Zeros(q) : i <= j) - 1)
LongName == LET q == Repair(UpToNull(parts), 1) IN IF q = <<>> THEN None ELSE IF Len(q) > 255 THEN FirstChars(q, 255) ELSE q
Orphan(nm) == IF nm = None THEN <<>> ELSE <<[orphan |-> nm]>>

(* ---- dates and times ---- *)
W(s, i) == s[i] + 256 * s[i + 1]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 0
Date(v) == LET d == v % 32 m == (v \div 32) % 16 y == 1980 + (v \div 512) IN IF d >= 1 /\ d <= Days(y, m) THEN <<y, m, d>> ELSE None
Time(v) == LET s == v % 32 m == (v \div 32) % 64 h == v \div 2048 IN IF s <= 29 /\ m <= 59 /\ h <= 23 THEN <<h, m, 2 * s>> ELSE None
Both(d, t, cs) == IF Date(d) = None \/ Time(t) = None THEN None ELSE Date(d) \o <<Time(t)[1], Time(t)[2], Time(t)[3] + (cs \div 100), cs % 100>>

(* ---- one slot ---- *)
S == inp.slots[pos]
Attr == S[12] % 64
Removed(o) == o \in {0, 229}
Number(o) == IF Bit(o, 64) THEN o - 64 ELSE o
Starts(o) == Removed(o) \/ (Bit(o, 64) /\ Number(o) \in 1..20)
Continues(o, cs) == IF last = <<>> THEN FALSE
                    ELSE /\ cs = last[2] /\ Removed(o) = Removed(last[1])
                         /\ (~Removed(o) => ~Bit(o, 64) /\ o \in 1..20 /\ Number(last[1]) = o + 1)
Part == LET b == SubSeq(S, 2, 11) \o SubSeq(S, 15, 26) \o SubSeq(S, 29, 32) IN [i \in 1..13 |-> W(b, (2 * i) - 1)]
LongSlot ==
  /\ Attr = 15
  /\ IF inp.short \/ S[13] # 0 THEN UNCHANGED <<parts, last, out>>
     ELSE IF Continues(S[1], S[14]) \/ (last = <<>> /\ Starts(S[1]))
     THEN parts' = Part \o parts /\ last' = <<S[1], S[14]>> /\ UNCHANGED out
     ELSE /\ out' = out \o (IF parts = <<>> THEN <<>> ELSE Orphan(LongName))
          /\ parts' = IF Starts(S[1]) THEN Part ELSE <<>>
          /\ last' = IF Starts(S[1]) THEN <<S[1], S[14]>> ELSE <<>>
  /\ null' = (null \/ S[1] = 0)
Nm == SubSeq(S, 1, 11)
Del == Removed(S[1])
Mine == IF Del THEN parts # <<>> ELSE last # <<>> /\ last[2] = Sum(Nm) /\ Number(last[1]) = 1
LabelOk == \A i \in 1..11 : Fixed(Nm)[i] \notin {0, 10, 13}
ValidSlot == /\ IF Label(Attr) THEN LabelOk ELSE GoodShort(Nm)
             /\ ~(Bit(Attr, 8) /\ Bit(Attr, 16))
             /\ S # Rep(229, 32) /\ S # Rep(0, 32)
LowBase == Bit(S[13], 8)
LowExt == Bit(S[13], 16)
File(ln) ==
  [del |-> IF Del THEN "yes" ELSE IF null THEN "unknown" ELSE "no", dir |-> Bit(Attr, 16),
   sn |-> IF Label(Attr) THEN Text(Trim(Fixed(Nm)), FALSE) ELSE IF Nm \in {Dot, DotDot} THEN Trim(Nm) ELSE Join(Text(Base(Nm), LowBase), Text(Ext(Nm), LowExt)),
   raw |-> IF Label(Attr) THEN Trim(Fixed(Nm)) ELSE Join(Base(Nm), Ext(Nm)),
   ln |-> ln, at |-> Date(W(S, 19)), mt |-> Both(W(S, 25), W(S, 23), 0), ct |-> Both(W(S, 17), W(S, 15), IF S[14] > 199 THEN 0 ELSE S[14]),
   size |-> SubSeq(S, 29, 32), attr |-> Attr, nt |-> S[13], lo |-> W(S, 27), hi |-> IF inp.fat32 THEN W(S, 21) ELSE 0, enc |-> Bit(S[13], 1)]
FileSlot ==
  /\ Attr # 15
  /\ LET ln == IF Mine THEN LongName ELSE None
         lost == IF parts # <<>> /\ ~Mine THEN Orphan(LongName) ELSE <<>>
     IN out' = out \o lost \o (IF ValidSlot THEN <<File(ln)>> ELSE Orphan(ln))
  /\ parts' = <<>> /\ last' = <<>>
  /\ null' = (null \/ S[1] = 0)
Slot == pos <= Len(inp.slots) /\ (LongSlot \/ FileSlot) /\ pos' = pos + 1 /\ UNCHANGED <<cid, inp>>
Finish == pos = Len(inp.slots) + 1 /\ out' = out \o (IF parts = <<>> THEN <<>> ELSE Orphan(LongName)) /\ pos' = pos + 1 /\ UNCHANGED <<cid, inp, parts, last, null>>
Over == pos = Len(inp.slots) + 2
Done == Over /\ UNCHANGED vars
Next == Slot \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

Obs == [out |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* Parts that are kept follow one another: numbered down without a gap, with one checksum.
Coherent == /\ (parts = <<>>) = (last = <<>>)
            /\ (last # <<>> /\ ~Removed(last[1])) => LET k == Len(parts) \div 13 IN
                 \A i \in 0..(k - 1) : \E j \in 1..(pos - 1) : inp.slots[j][12] % 64 = 15 /\ inp.slots[j][14] = last[2] /\ Number(inp.slots[j][1]) = Number(last[1]) + i
IsFile(e) == "sn" \in DOMAIN e
\* Every valid file slot is reported, in order; no more files than slots.
Count == Over => Cardinality({ i \in 1..Len(out) : IsFile(out[i]) }) <= Cardinality({ i \in 1..Len(inp.slots) : inp.slots[i][12] % 64 # 15 })
\* The long name of a file that is there comes from a slot with the checksum of its short name right before it.
Grounded == Over => \A i \in 1..Len(out) : IsFile(out[i]) => ((out[i].ln # None /\ out[i].del # "yes") =>
              \E j \in 2..Len(inp.slots) : inp.slots[j][12] % 64 # 15 /\ \E k \in 1..(j - 1) : inp.slots[k][12] % 64 = 15 /\ inp.slots[k][14] = Sum(SubSeq(inp.slots[j], 1, 11)) /\ Number(inp.slots[k][1]) = 1)
=============================================================================
