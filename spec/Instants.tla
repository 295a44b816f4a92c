------------------------------ MODULE Instants ------------------------------
(* Encoded times: a count of ticks of 100 ns from 1601 (file times) or from 15 October 1582 (in    *)
(* identifiers made from time), seconds and nanoseconds from 1970 (WSL), and packed calendar         *)
(* fields (FAT, exFAT). Each names an instant of the calendar, or none that can be told.              *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, at, st
vars == <<cid, inp, at, st>>
\* inp  [k: "file", "guid", "unix", "fat", "exfat"; v: bytes (8 of ticks; 16 of an identifier; 8 of seconds and 4 of nanoseconds; 5: centiseconds, time, date; 6: the same and a zone)]
\* at   <<year, month, day, hour, minute, second, microsecond>> or None
None == <<-1>>

(* ---- numbers of many bytes ---- *)
RECURSIVE WModFrom(_, _, _, _)
WModFrom(a, d, i, rem) == IF i = 0 THEN rem ELSE WModFrom(a, d, i - 1, ((rem * 256) + a[i]) % d)
WMod(a, d) == WModFrom(a, d, Len(a), 0)
RECURSIVE WMulAddFrom(_, _, _, _)
WMulAddFrom(a, d, i, c) == IF i > Len(a) THEN <<>> ELSE LET v == (a[i] * d) + c IN <<v % 256>> \o WMulAddFrom(a, d, i + 1, v \div 256)
\* a * d + c (d and c small), modulo the width.
WMulAdd(a, d, c) == WMulAddFrom(a, d, 1, c)
RECURSIVE Small32(_, _)
Small32(a, i) == IF i = 0 THEN 0 ELSE (Small32(SubSeq(a, 2, i), i - 1) * 256) + a[1]
IsSmall(a, n) == \A i \in (n + 1)..Len(a) : a[i] = 0
Lit(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0>>

(* ---- the calendar ---- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 0
\* Days from 1 January of the year 1 to 1 January of the year y.
Before(y) == LET n == y - 1 IN (365 * n) + (n \div 4) - (n \div 100) + (n \div 400)
RECURSIVE MonthBefore(_, _)
MonthBefore(y, m) == IF m = 1 THEN 0 ELSE MonthBefore(y, m - 1) + Days(y, m - 1)
Number(y, m, d) == Before(y) + MonthBefore(y, m) + d - 1
YearOf(n) == LET g == (n \div 366) + 1 IN CHOOSE y \in g..(g + 24) : Before(y) <= n /\ n < Before(y + 1)
Date(n) == LET y == YearOf(n) r == n - Before(y) m == CHOOSE k \in 1..12 : MonthBefore(y, k) <= r /\ r < MonthBefore(y, k) + Days(y, k) IN <<y, m, r - MonthBefore(y, m) + 1>>
LastDay == Number(9999, 12, 31)
\* An instant from a count of seconds (bytes) after the day n0, and microseconds.
Told(secs, n0, us) == LET days == WDiv(secs, 86400) s == WMod(secs, 86400) IN
  IF ~IsSmall(days, 3) THEN None
  ELSE LET n == n0 + Small32(days, 3) IN
       IF n > LastDay THEN None ELSE Date(n) \o <<s \div 3600, (s \div 60) % 60, s % 60, us>>
Ticks(v, n0) == LET us == WDiv(v, 10) IN Told(WDiv(us, 1000000), n0, WMod(us, 1000000))

(* ---- packed fields ---- *)
Packed(v) == LET d == v[4] + (256 * v[5]) t == v[2] + (256 * v[3]) cs == IF v[1] > 199 THEN 0 ELSE v[1]
                 day == d % 32 mon == (d \div 32) % 16 y == 1980 + (d \div 512) s == t % 32 mi == (t \div 32) % 64 h == t \div 2048
             IN IF day = 0 \/ day > Days(y, mon) \/ s > 29 \/ mi > 59 \/ h > 23 THEN None ELSE <<y, mon, day, h, mi, (2 * s) + (cs \div 100), (cs % 100) * 10000>>
Zone(b) == IF b < 128 THEN 1000 ELSE IF b < 192 THEN b - 128 ELSE b - 256
Made(g) == g[8] \div 16 = 1 /\ g[9] \in 128..191

(* ---- inputs that are enumerated ---- *)
FromDays(n, s, t) == WMulAdd(WMulAdd(WMulAdd(WMulAdd(Lit(n), 86400, s), 1000, 0), 10000, 0), 1, t)
Edges == {1, 2, 59, 60, 366, 107000, 146097}
DaysSet(n0) == UNION { { Number(y, m, d) - n0 : m \in {1, 2, 3, 12}, d \in {1, 28} } \cup { Number(y, 12, 31) - n0, Number(y, 3, 1) - 1 - n0 }
                       : y \in IF Scope = "quick" THEN {1601, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2019, 2020, 2023, 2024, 2100, 2400, 9996, 9999} ELSE (1601..2200) \cup {2400, 5000, 9996, 9999} }
N1601 == Number(1601, 1, 1)
N1582 == Number(1582, 10, 15)
N1970 == Number(1970, 1, 1)
Seconds == {0, 1, 3599, 3600, 43200, 86399}
Top(b) == [i \in 1..8 |-> IF i = 8 THEN b ELSE 255]
Given(k, v) == inp = [k |-> k, v |-> v]
\* FAT times: every value of each field.
Word(w) == <<w % 256, w \div 256>>
Small == CASE Scope = "none" -> FALSE
           [] Family = "file" -> \/ \E n \in DaysSet(N1601), s \in Seconds, t \in {0, 9, 10, 9999999} : n >= 0 /\ Given("file", FromDays(n, s, t))
                                 \/ \E b \in {0, 1, 2, 36, 37, 38, 127, 128, 255} : Given("file", Top(b)) \/ Given("file", [Top(b) EXCEPT ![7] = 0]) \/ Given("file", [i \in 1..8 |-> IF i = 8 THEN b ELSE 0])
                                 \/ \E s \in {0, 86399}, t \in {0, 9999999}, n \in {LastDay - N1601, LastDay - N1601 + 1, LastDay - N1601 + 400} : Given("file", FromDays(n, s, t))
           [] Family = "guid" -> \/ \E n \in DaysSet(N1582), s \in {0, 86399}, t \in {0, 10, 9999999}, hi \in {17, 16, 31} : n >= 0 /\ n < 1300000 /\ LET x == FromDays(n, s, t) IN Given("guid", SubSeq(x, 1, 7) \o <<16 + (x[8] % 16), 128, 1, 2, 3, 4, 5, 6, 7>>)
                                 \/ \E v \in 0..15, b \in {0, 1, 64, 127, 128, 160, 191, 192, 224, 255}, x \in {0, 255} : Given("guid", [i \in 1..7 |-> x] \o <<(16 * v) + 1, b, 1, 2, 3, 4, 5, 6, 7>>)
           [] Family = "unix" -> \/ \E n \in DaysSet(N1970), s \in Seconds, ns \in {0, 1000, 999999000, 500000000} : n >= 0 /\ Given("unix", WMulAdd(Lit(n), 86400, s) \o SubSeq(Lit(ns), 1, 4))
                                 \/ \E b \in {1, 127, 128, 255}, j \in 5..8 : Given("unix", [i \in 1..8 |-> IF i = j THEN b ELSE 0] \o <<0, 0, 0, 0>>) \/ Given("unix", [i \in 1..8 |-> IF i >= j THEN b ELSE 255] \o <<0, 0, 0, 0>>)
           [] Family = "fatdate" -> \E d \in 0..65535 : (Scope = "quick" => d \div 512 \in {0, 20, 40, 43, 44, 119, 120, 127}) /\ Given("fat", <<0, 33, 8>> \o Word(d))
           [] Family = "fattime" -> \E t \in 0..65535, c \in {0, 199} : (Scope = "quick" => (t \div 2048) \in {0, 23, 24, 31} /\ (t % 32 \in {0, 15, 29, 30, 31} \/ (t \div 32) % 64 = 59)) /\ Given("fat", <<c>> \o Word(t) \o <<33, 86>>)
           [] Family = "exfat" -> \/ \E d \in 0..65535 : (Scope = "quick" => d \div 512 \in {0, 40, 120, 127}) /\ Given("exfat", <<0, 33, 8>> \o Word(d) \o <<128>>)
                                  \/ \E t \in 0..65535 : (Scope = "quick" => (t \div 2048) \in {23, 24} /\ t % 32 \in {0, 29, 30, 31}) /\ Given("exfat", <<100>> \o Word(t) \o <<33, 86, 0>>)
                                  \/ \E c, z \in 0..255 : (c = 5 \/ z = 128) /\ Given("exfat", <<c, 33, 8, 33, 86, z>>)
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ at = None /\ st = "read"
Decode == /\ st = "read" /\ st' = "told"
          /\ at' = CASE inp.k = "file" -> Ticks(inp.v, N1601)
                     [] inp.k = "guid" -> IF Made(inp.v) THEN Ticks(SubSeq(inp.v, 1, 7) \o <<inp.v[8] % 16>>, N1582) ELSE None
                     [] inp.k = "unix" -> Told(SubSeq(inp.v, 1, 8), N1970, WMod(WDiv(SubSeq(inp.v, 9, 12), 1000), 1000000))
                     [] inp.k \in {"fat", "exfat"} -> Packed(inp.v)
          /\ UNCHANGED <<cid, inp>>
Over == st = "told"
Done == Over /\ UNCHANGED vars
Next == Decode \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [at |-> at, zone |-> IF inp.k = "exfat" THEN Zone(inp.v[6]) ELSE 1000]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(st = "told")
\* What is told is a date of the calendar, and encoding it again gives the ticks.
Calendar == at # None => /\ at[2] \in 1..12 /\ at[3] \in 1..Days(at[1], at[2]) /\ at[4] \in 0..23 /\ at[5] \in 0..59 /\ at[6] \in 0..59 /\ at[7] \in 0..999999
Back == (Over /\ inp.k = "file" /\ at # None) =>
          LET s == (at[4] * 3600) + (at[5] * 60) + at[6] IN
          WDiv(inp.v, 10) = WMulAdd(WMulAdd(WMulAdd(WMulAdd(Lit(Number(at[1], at[2], at[3]) - N1601), 86400, s), 1000, 0), 1000, 0), 1, at[7])
=============================================================================
