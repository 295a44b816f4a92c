---------------------------- MODULE ExfatVolume ----------------------------
(* An exFAT volume is opened through its boot region, or a backup of it; one of at most two    *)
(* tables links clusters into chains, and the bitmap of the same number, found in the root       *)
(* directory, tells which clusters are in use. A file either follows the table or is contiguous. *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, mode, place, at, got, ans
vars == <<cid, inp, mode, place, at, got, ans>>
\* inp    regions: what is at the places of the boot region, of its backup on 512-byte sectors and of that on 4096-byte sectors;
\*        vs, len: the size of the volume (-1: not told) and of the image, in sectors of 512; fat: for each table pairs <<cluster, link>> (the others are 0; links are signed);
\*        root: the entries of the root directory [k, id, c]; bits: pairs <<cluster, bits set in it>>; q: questions [k, c, n, nf]
\* mode   "try" (a boot region), "root" (follow the root directory), "bm" (follow the bitmap), "ask", "walk", "rejected"
\* place  the boot region being tried   at, got  a chain being followed; the first is kept in ans[1] of the bitmap
Eoc == -1
Bad == -9

(* ---- a boot region ---- *)
Pow(n) == 2 ^ n
Good == [mark |-> "", flip |-> -1, ss |-> 9, sc |-> 0, vlen |-> 2048, fo |-> 24, fl |-> 16, heap |-> 64, count |-> 1900, root |-> 5, major |-> 1, minor |-> 0, nf |-> 1, act |-> 0]
Two == [Good EXCEPT !.nf = 2]
None == [Good EXCEPT !.mark = "none"]
Sector(r) == Pow(r.ss)
\* Bytes which are not covered by the checksum: two flags, the percentage, and the rest of the last sector.
Uncovered(r, i) == i \in {106, 107, 112} \/ i >= (11 * Sector(r)) + 12
PlaceAt == <<0, 6144, 49152>>
\* Places are told in units of 512 bytes, for volumes of up to a terabyte.
Units(r) == Pow(r.ss - 9)
Sound(i) == LET r == inp.regions[i] s == Sector(r) spc == Pow(r.sc) IN
  /\ r.mark = "" /\ r.ss \in 9..12 /\ (PlaceAt[i] \div 512) + (12 * Units(r)) <= inp.len
  /\ (r.flip = -1 \/ Uncovered(r, r.flip))
  /\ r.sc <= 25 - r.ss
  /\ r.vlen >= 1048576 \div s
  /\ r.fo >= 24 /\ r.nf \in {1, 2} /\ r.fo + (r.fl * r.nf) <= r.heap
  /\ r.count + 2 <= (r.fl * s) \div 4
  /\ r.count * spc <= r.vlen - r.heap
  /\ r.root \in 2..(r.count + 1)
  /\ r.major = 1 /\ r.minor <= 99
  /\ (r.act = 1 => r.nf = 2)
\* A backup stands where it does for one sector size only.
Fits(i) == i = 1 \/ (i = 2 /\ inp.regions[i].ss = 9) \/ (i = 3 /\ inp.regions[i].ss = 12)

R == inp.regions[place]
TableAt == (R.fo + (IF R.act = 1 THEN R.fl ELSE 0)) * Units(R)
ClusterSize == Sector(R) * Pow(R.sc)
Last == R.count + 1
InTable(c) == c >= 0 /\ c <= Last /\ TableAt + ((c + 128) \div 128) <= inp.len
Link(c) == LET f == inp.fat[R.act + 1] S == { i \in 1..Len(inp.fat[R.act + 1]) : f[i][1] = c } IN IF S = {} THEN 0 ELSE f[CHOOSE i \in S : TRUE][2]
ClusterUnits == Units(R) * Pow(R.sc)
Offset(c) == (R.heap * Units(R)) + ((c - 2) * ClusterUnits)
InVolume(c) == /\ (inp.vs >= 0 => Offset(c) + ClusterUnits <= inp.vs)
               /\ Offset(c) + ClusterUnits <= inp.len

(* ---- the bitmap ---- *)
RECURSIVE FirstBm(_)
FirstBm(i) == IF i > Len(inp.root) \/ inp.root[i].k = "end" THEN 0 ELSE IF inp.root[i].k = "bm" /\ inp.root[i].id = R.act THEN i ELSE FirstBm(i + 1)
Before(k) == Cardinality({ i \in 1..(k - 1) : inp.root[i].k = "bm" })
Labels(k) == Cardinality({ i \in 1..(k - 1) : inp.root[i].k = "label" })
Bits(c) == LET S == { i \in 1..Len(inp.bits) : inp.bits[i][1] = c } IN IF c = 0 \/ S = {} THEN <<>> ELSE inp.bits[CHOOSE i \in S : TRUE][2]
Members(s) == { s[i] : i \in 1..Len(s) }
InUse(c) == LET n == c - 2 per == 8 * ClusterSize k == (n \div per) + 1 IN
  IF c < 2 \/ c > Last \/ k > Len(ans[1].cl) THEN "unknown" ELSE IF (n % per) \in Members(Bits(ans[1].cl[k])) THEN "yes" ELSE "no"

(* ---- questions ---- *)
Cur == inp.q[Len(ans)]
A(st, cl, n) == [st |-> st, cl |-> cl, n |-> n]
Rejected == A("rejected", <<>>, 0)
Need(n, g) == IF n < 0 THEN Len(g) ELSE Min(Len(g), (n + ClusterSize - 1) \div ClusterSize)
Content(n, g) == LET k == Need(n, g) IN
  IF \E i \in 1..k : g[i] # 0 /\ ~InVolume(g[i]) THEN Rejected
  ELSE A("ok", SubSeq(g, 1, k), IF n < 0 THEN k * ClusterSize ELSE Min(n, k * ClusterSize))
Run(c, n) == IF n <= 0 \/ c < 2 THEN <<>> ELSE [i \in 1..Max(0, Min((n + ClusterSize - 1) \div ClusterSize, Last + 1 - c)) |-> c + i - 1]

Q(k, c, n, nf) == [k |-> k, c |-> c, n |-> n, nf |-> nf]
Asked == <<Q("chain", 2, -1, FALSE), Q("read", 2, -1, FALSE), Q("read", 2, 700, FALSE), Q("read", 2, 700, TRUE), Q("alloc", 2, 0, FALSE), Q("alloc", 9, 0, FALSE)>>
Bm(id, c) == [k |-> "bm", id |-> id, c |-> c]
Other == [k |-> "other", id |-> 0, c |-> 0]
End == [k |-> "end", id |-> 0, c |-> 0]
Base(regions) == [regions |-> regions, vs |-> -1, len |-> 2048, fat |-> <<<<<<5, -1>>, <<6, -1>>, <<2, 3>>, <<3, -1>>>>, <<<<5, -1>>, <<6, -1>>, <<2, 4>>, <<4, -1>>>>>>,
                  root |-> <<Bm(0, 6), Bm(1, 6)>>, bits |-> <<<<6, <<0, 1, 3>>>>>>, q |-> Asked]
Big == [Good EXCEPT !.ss = 12, !.vlen = 256, !.fl = 1, !.heap = 26, !.count = 100]
Wrong(g) == { [g EXCEPT !.mark = m] : m \in {"none", "name", "sig", "zero", "copy2", "copy3"} }
        \cup { [g EXCEPT !.flip = f] : f \in {0, 2, 105, 106, 107, 108, 112, 113, 120, 511, 512, 4000, 5631, 5632, 5640, 5643, 5644, 6143} }
        \cup { [g EXCEPT !.ss = 8], [g EXCEPT !.ss = 13], [g EXCEPT !.sc = 17], [g EXCEPT !.sc = 1], [g EXCEPT !.vlen = g.vlen - 1], [g EXCEPT !.fo = 23], [g EXCEPT !.fo = 64], [g EXCEPT !.fl = 64], [g EXCEPT !.fl = 0],
               [g EXCEPT !.count = 2200], [g EXCEPT !.root = 1], [g EXCEPT !.root = 0], [g EXCEPT !.root = g.count + 1], [g EXCEPT !.root = g.count + 2], [g EXCEPT !.major = 0], [g EXCEPT !.major = 2], [g EXCEPT !.minor = 99], [g EXCEPT !.minor = 100],
               [g EXCEPT !.nf = 0], [g EXCEPT !.nf = 3], [g EXCEPT !.nf = 2], [g EXCEPT !.nf = 2, !.act = 1], [g EXCEPT !.act = 1] }
Kinds == {Good, None, [Good EXCEPT !.flip = 200], [Good EXCEPT !.major = 2], [Good EXCEPT !.flip = 112], Big, [Big EXCEPT !.flip = 300], [Two EXCEPT !.act = 1]}
SmallRegions == \E a \in Kinds, b \in Kinds, c \in Kinds, l \in {2048, 24, 100} :
                  /\ (a.mark = "none" \/ a.ss = 9 \/ b.mark = "none") /\ (b.ss = 9 \/ (a.mark = "none" /\ c.mark = "none")) /\ (Scope = "quick" => l = 2048 \/ (b.mark = "none" /\ c.mark = "none"))
                  /\ inp = [Base(<<a, b, c>>) EXCEPT !.len = l]
SmallFields == \E g \in Wrong(Good) \cup Wrong(Two), p \in 1..3 : inp = Base([i \in 1..3 |-> IF i = p THEN g ELSE None])
\* Every table over four clusters.
Links == {0, 1, 2, 3, 4, 7, 1901, 1902, Eoc, Bad, -2, 77777}
SmallChains == \E a, b, c \in Links : /\ (Scope = "quick" => b \notin {0, 77777, 7} /\ c \notin {77777, -2, 1902})
                 /\ inp = [Base(<<Good, None, None>>) EXCEPT !.fat = <<<<<<5, -1>>, <<6, -1>>, <<2, a>>, <<3, b>>, <<4, c>>>>, <<>>>>, !.q = <<Q("chain", 2, -1, FALSE), Q("read", 2, -1, FALSE), Q("read", 2, 512, FALSE), Q("read", 3, 513, FALSE), Q("chain", 0, -1, FALSE), Q("chain", 1, -1, FALSE), Q("chain", Bad, -1, FALSE), Q("chain", 1902, -1, FALSE)>>]
SmallSizes == \E v \in {-1, 2047, 2048, 3000}, l \in {40, 65, 66, 67, 68, 69, 70, 1960, 1962, 1963, 1964, 2048}, c \in {0, 1, 2, 1899, 1900, 1901, 1902}, n \in {-1, 0, 1, 512, 513, 1024, 1025, 3000} :
                 /\ (Scope = "quick" => (v # 3000 /\ n \notin {0, 1025}))
                 /\ inp = [Base(<<Good, None, None>>) EXCEPT !.vs = v, !.len = l, !.fat = <<<<<<5, -1>>, <<6, -1>>, <<1900, 1899>>, <<1899, 1901>>, <<1901, -9>>>>, <<>>>>, !.q = <<Q("read", c, n, TRUE), Q("read", c, n, FALSE)>>]
\* Where the bitmap comes from, and how it is read.
SmallBitmap == \E s \in { <<>>, <<Bm(0, 6)>>, <<Bm(1, 6)>>, <<Bm(0, 6), Bm(1, 7)>>, <<Bm(1, 7), Bm(0, 6)>>, <<End, Bm(0, 6), Bm(1, 7)>>, <<Other, Bm(1, 7), Other, Bm(0, 6), Bm(0, 7)>>, <<Bm(1, 7), Bm(1, 6), Bm(0, 6)>>, <<Bm(0, 0), Bm(1, 1)>>, <<Bm(0, 9999), Bm(1, 6)>> },
                  g \in {Good, [Two EXCEPT !.act = 0], [Two EXCEPT !.act = 1]}, l \in {-1, 0, 7, 6, -9}, t \in {5, -1, 0} :
                 inp = [Base(<<[g EXCEPT !.count = 1960], None, None>>) EXCEPT !.root = s, !.fat = <<<<<<5, t>>, <<6, l>>, <<7, 8>>, <<8, 0>>>>, <<<<5, -1>>, <<6, 8>>, <<7, 6>>, <<8, 7>>>>>>,
                        !.bits = <<<<6, <<0, 1, 8, 1957, 1958>>>>, <<7, <<0, 2>>>>, <<8, <<1>>>>>>, !.q = [i \in 1..12 |-> Q("alloc", <<0, 1, 2, 3, 4, 9, 10, 11, 1959, 1960, 1961, 1962>>[i], 0, FALSE)]]
\* A bitmap of more than one cluster.
Wide == [Good EXCEPT !.vlen = 20000, !.fl = 150, !.heap = 200, !.count = 9000]
SmallWide == \E l \in {7, 0, -1, -9, 6} : inp = [Base(<<Wide, None, None>>) EXCEPT !.len = 500, !.fat = <<<<<<5, -1>>, <<6, l>>, <<7, 8>>, <<8, -1>>>>, <<>>>>, !.root = <<Bm(0, 6)>>, !.bits = <<<<6, <<0, 4095>>>>, <<7, <<0, 4095>>>>, <<8, <<0>>>>>>,
                        !.q = [i \in 1..10 |-> Q("alloc", <<2, 3, 4096, 4097, 4098, 8193, 8194, 8195, 9001, 9002>>[i], 0, FALSE)]]
Small == CASE Scope = "none" -> FALSE [] Family = "regions" -> SmallRegions [] Family = "fields" -> SmallFields [] Family = "chains" -> SmallChains [] Family = "sizes" -> SmallSizes [] Family = "bitmap" -> SmallBitmap [] Family = "wide" -> SmallWide

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ mode = "try" /\ place = 1 /\ at = 0 /\ got = <<>> /\ ans = <<>>
Reject == mode' = "rejected" /\ UNCHANGED <<place, at, got, ans>>
Follow(m, c) == mode' = m /\ at' = c /\ got' = <<c>>
Try == /\ mode = "try"
       /\ IF inp.vs >= 0 /\ inp.vs < 2048 THEN Reject
          ELSE IF Sound(place) THEN (IF Fits(place) THEN Follow("root", R.root) /\ UNCHANGED <<place, ans>> ELSE Reject)
          ELSE IF place = 3 THEN Reject
          ELSE place' = place + 1 /\ UNCHANGED <<mode, at, got, ans>>
       /\ UNCHANGED <<cid, inp>>
\* A chain is at its end: what was it for?
Answer(a) == ans' = Append(ans, a) /\ mode' = "ask" /\ at' = 0 /\ got' = <<>> /\ UNCHANGED place
Finish(g) ==
  CASE mode = "root" -> IF Content(-1, g).st = "rejected" \/ FirstBm(1) = 0 \/ Before(FirstBm(1)) >= 2 \/ Labels(FirstBm(1)) >= 2 THEN Reject
                        ELSE LET c == inp.root[FirstBm(1)].c IN IF c \in {0, 1} THEN Answer(A("ok", <<>>, 0)) ELSE IF c = Bad THEN Reject ELSE Follow("bm", c) /\ UNCHANGED <<place, ans>>
    [] mode = "bm" -> IF Content(-1, g).st = "rejected" THEN Reject ELSE Answer(A("ok", g, 0))
    [] mode = "walk" -> IF Cur.k = "chain" THEN Answer(A("ok", g, 0)) ELSE Answer(Content(Cur.n, g))
Walk == /\ mode \in {"root", "bm", "walk"}
        /\ IF ~InTable(at) THEN (IF mode = "walk" THEN Answer(Rejected) ELSE Reject)
           ELSE LET l == Link(at) IN
                IF l \in Members(got) \/ l \in {Eoc, 0, 1} THEN Finish(got)
                ELSE IF l = Bad THEN Finish(Append(got, 0))
                ELSE at' = l /\ got' = Append(got, l) /\ UNCHANGED <<mode, place, ans>>
        /\ UNCHANGED <<cid, inp>>
Ask == /\ mode = "ask" /\ Len(ans) <= Len(inp.q)
       /\ IF Cur.k = "alloc" THEN Answer(A(InUse(Cur.c), <<>>, 0))
          ELSE IF Cur.k = "read" /\ Cur.nf THEN Answer(IF Cur.n < 0 THEN Rejected ELSE Content(Cur.n, Run(Cur.c, Cur.n)))
          ELSE IF Cur.c \in {0, 1} THEN Answer(A("ok", <<>>, 0))
          ELSE IF Cur.c = Bad THEN Answer(Rejected)
          ELSE Follow("walk", Cur.c) /\ UNCHANGED <<place, ans>>
       /\ UNCHANGED <<cid, inp>>
Over == mode = "rejected" \/ (mode = "ask" /\ Len(ans) = Len(inp.q) + 1)
Done == Over /\ UNCHANGED vars
Next == Try \/ Walk \/ Ask \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == IF mode = "rejected" THEN [st |-> "rejected", backup |-> FALSE, ans |-> <<>>] ELSE [st |-> "ok", backup |-> place # 1, ans |-> SubSeq(ans, 2, Len(ans))]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(mode = "rejected" \/ (mode = "ask" /\ Len(ans) = Len(inp.q) + 1))
\* The main boot region is preferred, and only a sound one is used.
Preferred == mode \notin {"try", "rejected"} => Sound(place) /\ Fits(place) /\ \A i \in 1..(place - 1) : ~Sound(i)
\* No cluster twice, all linked; only the last may be bad, or not on the volume.
Chained == \A i \in 1..Len(got) : /\ (i < Len(got) => got[i] \in 2..Last /\ Link(got[i]) = got[i + 1])
                                  /\ \A j \in 1..Len(got) : i # j => got[i] # got[j]
Within == \A i \in 2..Len(ans) : (ans[i].st = "ok" /\ inp.q[i - 1].k = "read") => /\ \A j \in 1..Len(ans[i].cl) : ans[i].cl[j] = 0 \/ (ans[i].cl[j] \in 2..Last /\ InVolume(ans[i].cl[j]))
                                                                                 /\ (inp.q[i - 1].n >= 0 => ans[i].n <= inp.q[i - 1].n)
=============================================================================
