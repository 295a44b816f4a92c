------------------------------ MODULE ExfatDir ------------------------------
(* The entries of an exFAT directory. A file is a set: a file entry, a stream entry, name       *)
(* entries, and what else may follow; its first entry tells how many there are and carries a     *)
(* checksum of all. A set that is not whole is given up, but only its first entry is skipped:    *)
(* the others may belong to a set of their own, and names without one are reported as such.      *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, pos, labels, maps, st, out
vars == <<cid, inp, pos, labels, maps, st, out>>
\* inp  [slots: sequences of 32 bytes, root]; null slots follow up to a multiple of 512 bytes
\* st   "go", "end" (the directory ends here), "damaged" (a root directory that cannot be)
None == <<-1>>

(* ---- bytes ---- *)
Rep(v, n) == [i \in 1..n |-> v]
Bit(v, k) == (v \div k) % 2 = 1
W(s, i) == s[i] + 256 * s[i + 1]
Slot(i) == IF i > Len(inp.slots) THEN Rep(0, 32) ELSE inp.slots[i]
RECURSIVE Sum(_, _, _)
\* The checksum of the entries first..last of a sequence, from the byte b of the first on.
SumSlot(s, head, c0) == LET RECURSIVE go(_, _)
                            go(i, c) == IF i > 32 THEN c ELSE IF head /\ i \in {3, 4} THEN go(i + 1, c) ELSE go(i + 1, ((c \div 2) + (IF c % 2 = 1 THEN 32768 ELSE 0) + s[i]) % 65536)
                        IN go(1, c0)
Sum(sl, i, c) == IF i > Len(sl) THEN c ELSE Sum(sl, i + 1, SumSlot(sl[i], i = 1, c))
Seal(sl) == LET c == Sum(sl, 1, 0) IN [sl EXCEPT ![1] = [@ EXCEPT ![3] = c % 256, ![4] = c \div 256]]

(* ---- entries, for inputs ---- *)
FileE(t, n) == <<t, n, 0, 0, 32, 0, 0, 0, 33, 0, 33, 86, 66, 8, 34, 86, 99, 16, 35, 86, 150, 10, 128, 140, 190>> \o Rep(0, 7)
StreamE(t, f, n) == <<t, f, 0, n, 7, 7, 0, 0, 1, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 1, 2, 4, 0, 0, 0, 0, 0>>
NameE(t, f, c, n) == <<t, f>> \o [i \in 1..30 |-> IF i % 2 = 1 /\ (i + 1) \div 2 <= n THEN c ELSE 0]
Blank(t) == <<t>> \o Rep(1, 31)
LabelE(t, n, c) == <<t, n>> \o [i \in 1..30 |-> IF i % 2 = 1 THEN c ELSE 0]
MapE(f) == <<129, f>> \o Rep(0, 18) \o <<3, 0, 1, 0, 9, 8, 7, 6, 5, 4, 3, 2>>
Whole(d) == LET b == IF d THEN 0 ELSE 128 IN Seal(<<FileE(b + 5, 2), StreamE(b + 64, 1, 3), NameE(b + 65, 0, 97, 3)>>)
Dead == { FileE(5, 2), FileE(5, 3), StreamE(64, 1, 5), StreamE(64, 3, 20), NameE(65, 0, 97, 15), NameE(65, 0, 98, 4), Blank(96), Blank(66) }
Odd == { FileE(5, 1), FileE(133, 2), StreamE(64, 0, 5), StreamE(64, 1, 0), StreamE(192, 1, 15), NameE(193, 0, 99, 3), NameE(65, 1, 100, 3), NameE(65, 0, 101, 0), NameE(65, 0, 47, 3), Blank(224), Blank(3), Blank(128), Rep(0, 32), Blank(33) }
Live == { StreamE(192, 1, 5), StreamE(192, 3, 20), NameE(193, 0, 97, 15), NameE(193, 0, 98, 4), Blank(224), Blank(225), Blank(194), NameE(65, 0, 97, 4) }
Specials == { Blank(128), Blank(129), Blank(130), LabelE(131, 3, 97), LabelE(131, 0, 97), LabelE(131, 15, 98), LabelE(131, 16, 98), LabelE(131, 2, 47), LabelE(131, 2, 0), LabelE(3, 3, 97), MapE(0), MapE(1), MapE(2), [MapE(0) EXCEPT ![1] = 1], Blank(160), Blank(161), Blank(162), Blank(33), Blank(34), Rep(0, 32) }
Given(sl, r) == inp = [slots |-> sl, root |-> r]
Head3 == <<FileE(133, 2), StreamE(192, 1, 3), NameE(193, 0, 97, 3)>>
Small == CASE Scope = "none" -> FALSE
           [] Family = "dead" -> \/ \E n \in 1..4 : \E sl \in [1..n -> Dead] : (Scope = "quick" /\ n = 4 => sl[1][1] = 5) /\ Given(sl, FALSE)
                                 \/ Scope = "thorough" /\ \E sl \in [1..5 -> Dead] : sl[1][1] = 5 /\ Given(sl, FALSE)
           [] Family = "odd" -> \E a, b, c \in Dead \cup Odd, d \in {FALSE} : (Scope = "quick" => a[1] \in {5, 133, 65, 193} \/ b[1] = 5) /\ Given(<<a, b, c>>, d)
           [] Family = "live" -> \E n \in 1..(IF Scope = "quick" THEN 4 ELSE 5), m \in {-1, 0, 1} : \E sl \in [1..n -> Live] :
                                   /\ (sl[1][1] = 192 \/ n <= 3)
                                   /\ Given(Seal(<<FileE(133, n + m)>> \o sl) \o Whole(FALSE), FALSE)
           \* One byte of a set is not what it was.
           [] Family = "flip" -> \/ \E i \in 1..3, j \in 1..32, x \in {1, 128} : LET s == Seal(Head3) v == s[i][j] IN Given([s EXCEPT ![i] = [@ EXCEPT ![j] = IF Bit(v, x) THEN v - x ELSE v + x]] \o Whole(TRUE), FALSE)
                                 \/ \E i \in 1..3, j \in 1..32, x \in 0..255 : (i = 3 => j <= 4) /\ (Scope = "quick" => x \in {0, 1, 2, 15, 16, 30, 31, 32, 63, 64, 65, 127, 128, 199, 200, 255} \/ j = 1 \/ (i = 2 /\ j \in {2, 4}) \/ (i = 1 /\ j \in {2, 24})) /\ Given(LET s == [Head3 EXCEPT ![i] = [@ EXCEPT ![j] = x]] IN (IF x % 2 = 0 \/ j > 2 THEN Seal(s) ELSE s) \o Whole(FALSE), FALSE)
           [] Family = "root" -> \E r \in BOOLEAN, a, b \in Specials, c \in {Blank(33), MapE(1), LabelE(131, 3, 97), Rep(0, 32)} : Given(<<a>> \o Whole(FALSE) \o <<b, c>> \o Whole(TRUE), r)
           [] Family = "maps" -> \E r \in BOOLEAN, a, b, c \in {MapE(0), MapE(1), LabelE(131, 3, 97), Blank(33)} : Given(<<a, b, c>>, r)
           \* Names on their own, and the number of names of a set.
           [] Family = "names" -> \/ \E n \in 1..19, t \in {65, 193}, k \in {15, 14, 0}, m \in 0..2, f \in {0, 1} : Given([i \in 1..n |-> NameE(t, IF i = n - m THEN f ELSE 0, 97 + i, IF i = n THEN k ELSE 15)] \o Whole(FALSE), FALSE)
                                  \/ \E n \in 1..19, k \in {1, 14, 15, 16, 29, 30, 31, 45, 254, 255}, b \in {0, 128} : Given(Seal(<<FileE(b + 5, n + 1), StreamE(b + 64, 1, k)>> \o [i \in 1..n |-> NameE(b + 65, 0, 96 + i, 15)]) \o Whole(FALSE), FALSE)
                                  \/ \E n \in {0, 1, 2, 3, 13, 14, 15, 16, 17, 31}, b \in {0, 128}, k \in {3, 20} : Given([i \in 1..n |-> Blank(33)] \o Seal(<<FileE(b + 5, 3), StreamE(b + 64, 1, k), NameE(b + 65, 0, 97, 15), NameE(b + 65, 0, 98, 5)>>), FALSE)
                                  \/ \E c \in 0..255, n \in {1, 2, 3}, k \in {1, 3} : Given(Seal(<<FileE(133, 2), StreamE(192, 1, k), NameE(193, 0, c, n)>>) \o <<NameE(65, 0, c, n)>>, FALSE)
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ pos = 1 /\ labels = 0 /\ maps = 0 /\ st = "go" /\ out = <<>>

(* ---- names ---- *)
Hi(u) == u >= 55296 /\ u <= 56319
Lo(u) == u >= 56320 /\ u <= 57343
RECURSIVE Repair(_, _)
Repair(q, i) == IF i > Len(q) THEN <<>>
                ELSE IF Hi(q[i]) /\ i < Len(q) /\ Lo(q[IF i < Len(q) THEN i + 1 ELSE i]) THEN <<q[i], q[i + 1]>> \o Repair(q, i + 2)
                ELSE <<IF Hi(q[i]) \/ Lo(q[i]) THEN 65533 ELSE q[i]>> \o Repair(q, i + 1)
Units(s, o, n) == [i \in 1..n |-> W(s, o + (2 * (i - 1)))]
Zeros(q) == { i \in 1..Len(q) : q[i] = 0 }
UpToNull(q) == IF Zeros(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Zeros(q) : \A j \in Zeros(q) : i <= j) - 1)
Forbidden == (0..31) \cup {34, 42, 47, 58, 60, 62, 63, 92, 124}
\* A name from its units, or None.
Name(q, len) == LET u == UpToNull(q) v == IF len < Len(u) THEN SubSeq(u, 1, len) ELSE u IN
  IF v = <<>> \/ v \in {<<46>>, <<46, 46>>} \/ (\E i \in 1..Len(v) : v[i] \in Forbidden) THEN None ELSE Repair(v, 1)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN <<>> ELSE Units(q[1], 3, 15) \o Glue(SubSeq(q, 2, Len(q)))

(* ---- dates and times ---- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 0
Date(v) == LET d == v % 32 m == (v \div 32) % 16 y == 1980 + (v \div 512) IN IF d >= 1 /\ d <= Days(y, m) THEN <<y, m, d>> ELSE None
Time(v) == LET s == v % 32 m == (v \div 32) % 64 h == v \div 2048 IN IF s <= 29 /\ m <= 59 /\ h <= 23 THEN <<h, m, 2 * s>> ELSE None
Stamp(s, i, cs0) == LET d == W(s, i + 2) t == W(s, i) cs == IF cs0 > 199 THEN 0 ELSE cs0 IN
  IF Date(d) = None \/ Time(t) = None THEN None ELSE Date(d) \o <<Time(t)[1], Time(t)[2], Time(t)[3] + (cs \div 100), cs % 100>>
Zone(v) == IF v < 128 THEN 1000 ELSE IF v - 128 < 64 THEN v - 128 ELSE v - 256

(* ---- the set that starts at an entry ---- *)
Total == 16 * Max(1, (Len(inp.slots) + 15) \div 16)
S == Slot(pos)
Pure(t) == t % 128
InUse(t) == t >= 128
Secondary(t) == Bit(t, 64)
Vendor(t) == Pure(t) \in {96, 97}
N == S[2]
Sec(i) == Slot(pos + i)
Stream == Sec(1)
NameLen == Stream[4]
Names == { i \in 1..N : Pure(Sec(i)[1]) = 65 }
RECURSIVE Upward(_, _)
Upward(i, n) == IF i > n THEN <<>> ELSE IF i \in Names THEN <<Sec(i)>> \o Upward(i + 1, n) ELSE Upward(i + 1, n)
ItsName == Name(Glue(Upward(1, N)), NameLen)
Good ==
  /\ N \in 2..64
  /\ pos + N <= Total
  /\ (InUse(S[1]) => W(S, 3) = Sum([i \in 1..(N + 1) |-> Slot(pos + i - 1)], 1, 0) /\ \A i \in 1..N : InUse(Sec(i)[1]))
  /\ \A i \in 1..N : Secondary(Sec(i)[1])
  /\ Pure(Sec(1)[1]) = 64 /\ Pure(Sec(2)[1]) = 65
  /\ \A i \in 3..N : Pure(Sec(i)[1]) # 64
  /\ Bit(Stream[2], 1) /\ NameLen > 0
  /\ Cardinality(Names) <= Min(17, (NameLen + 14) \div 15)
  /\ \A i, j \in 1..N : (i < j /\ Vendor(Sec(i)[1])) => Vendor(Sec(j)[1])
  /\ ItsName # None
File == [e |-> "file", del |-> ~InUse(S[1]), dir |-> Bit(S[5], 16), name |-> ItsName, at |-> Stamp(S, 17, 0), atz |-> Zone(S[25]), mt |-> Stamp(S, 13, S[22]), mtz |-> Zone(S[24]), ct |-> Stamp(S, 9, S[21]), ctz |-> Zone(S[23]),
         size |-> SubSeq(Stream, 25, 32), valid |-> SubSeq(Stream, 9, 16), attr |-> W(S, 5), first |-> SubSeq(Stream, 21, 24), enc |-> Bit(S[8], 128), nofat |-> Bit(Stream[2], 2)]
(* ---- names without a set ---- *)
RECURSIVE RunFrom(_, _)
RunFrom(i, k) == IF Slot(i)[1] # S[1] \/ Slot(i)[2] # 0 \/ k = 17 THEN k ELSE IF W(Slot(i), 31) = 0 THEN k + 1 ELSE RunFrom(i + 1, k + 1)
Lost == RunFrom(pos, 0)
LostName == Name(Glue([i \in 1..Lost |-> Slot(pos + i - 1)]), 1000)

Go(n, e) == pos' = pos + n /\ out' = out \o e /\ UNCHANGED <<cid, inp, st>>
Halt(x) == st' = x /\ UNCHANGED <<cid, inp, pos, labels, maps, out>>
Skip == Go(1, <<>>) /\ UNCHANGED <<labels, maps>>
Label == LET u == UpToNull(Units(S, 3, S[2])) IN
  IF labels = 1 \/ S[2] > 15 THEN Halt("damaged")
  ELSE IF S[2] = 0 THEN Go(1, <<>>) /\ labels' = 1 /\ UNCHANGED maps
  ELSE IF u = <<>> \/ (\E i \in 1..Len(u) : u[i] \in Forbidden) THEN Halt("damaged")
  ELSE Go(1, <<[e |-> "label", name |-> Repair(u, 1)]>>) /\ labels' = 1 /\ UNCHANGED maps
Map == IF maps = 2 THEN Halt("damaged") ELSE Go(1, <<[e |-> "map", id |-> S[2] % 2, first |-> SubSeq(S, 21, 24), size |-> SubSeq(S, 25, 32)]>>) /\ maps' = maps + 1 /\ UNCHANGED labels
Read ==
  /\ st = "go"
  /\ LET t == S[1] p == Pure(S[1]) IN
     IF pos > Total \/ t = 0 THEN Halt("end")
     ELSE IF t = 128 THEN Halt(IF inp.root THEN "damaged" ELSE "end")
     ELSE IF ~Secondary(t) THEN
          IF InUse(t) /\ p \in {1, 2, 3} /\ ~inp.root THEN Halt("end")
          ELSE IF p = 5 /\ Good THEN Go(N + 1, <<File>>) /\ UNCHANGED <<labels, maps>>
          ELSE IF t = 131 THEN Label
          ELSE IF t = 129 THEN Map
          ELSE Skip
     ELSE IF p = 65 /\ Lost > 0 THEN (IF LostName # None THEN Go(Lost, <<[e |-> "lost", name |-> LostName]>>) /\ UNCHANGED <<labels, maps>> ELSE Skip)
     ELSE Skip
Over == st # "go"
Done == Over /\ UNCHANGED vars
Next == Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> st, out |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(st # "go")
\* Every file that is reported in use stands in the directory as a set of entries in use with a good checksum.
Count == Len(out) < pos
Grounded == \A k \in 1..Len(out) : out[k].e = "file" => \E i \in 1..(pos - 1) : Pure(Slot(i)[1]) = 5 /\ InUse(Slot(i)[1]) # out[k].del /\ SubSeq(Slot(i + 1), 21, 24) = out[k].first
\* A whole set at the beginning of a directory, or after entries of no meaning, is reported.
Kept == (Over /\ st = "end" /\ ~inp.root) => \A i \in 1..Len(inp.slots) : (inp.slots[i][1] = 133 /\ (\A j \in 1..(i - 1) : inp.slots[j][1] = 33) /\ i + 2 <= Len(inp.slots)) =>
          ((SubSeq(inp.slots, i, i + 2) = Whole(FALSE)) => \E k \in 1..Len(out) : out[k].e = "file" /\ out[k].name = <<97, 97, 97>>)
=============================================================================
