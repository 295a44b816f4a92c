----------------------------- MODULE FatVolume -----------------------------
(* FAT12, FAT16 and FAT32: the boot sector gives the geometry and, by the number of clusters, *)
(* the type; the table links clusters into chains. A chain is followed link by link.           *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, mode, at, got, ans
vars == <<cid, inp, mode, at, got, ans>>
\* inp   the boot sector [bps spc rsvd nf root t16 t32 t64 bsig f16 f32 act mir ver mark jmp], the size of the volume
\*       (vs, in sectors of 512, or -1 if it is not told) and of the image (len, the same), the table (fat: pairs
\*       cluster, link; every other link is 0), and the questions (q: [k, c, n])
\* mode  "open", "ask", "walk", "over", "rejected"    at  the cluster a walk is at    got  the clusters walked so far (0: bad)

F16(n, f) == [bps |-> 512, spc |-> 1, rsvd |-> 1, nf |-> 2, root |-> 16, t16 |-> n, t32 |-> 0, t64 |-> 0, bsig |-> 41, f16 |-> f, f32 |-> 0, act |-> 0, mir |-> FALSE, ver |-> 0, mark |-> TRUE, jmp |-> 1,
              vs |-> -1, len |-> n, fat |-> <<>>, q |-> <<>>]
F32(n, f) == [F16(0, 0) EXCEPT !.f32 = f, !.root = 0, !.t32 = n, !.rsvd = 32, !.len = n]
Q(k, c, n) == [k |-> k, c |-> c, n |-> n]
Tiny == F16(20, 1)                                                     \* 16 clusters

(* ---- the boot sector ---- *)
Sectors == IF inp.t16 > 0 THEN inp.t16 ELSE IF inp.t32 > 0 THEN inp.t32 ELSE IF inp.f16 = 0 /\ inp.bsig = 41 THEN inp.t64 ELSE -1
RootSectors == IF inp.f16 > 0 THEN ((inp.root * 32) + inp.bps - 1) \div inp.bps ELSE 0
TableSectors == IF inp.f16 > 0 THEN inp.f16 ELSE inp.f32
Spc == IF inp.spc = 0 THEN 256 ELSE inp.spc
Before == inp.rsvd + (inp.nf * TableSectors) + RootSectors                 \* sectors before the first cluster
Count == (Sectors - Before) \div Spc
Sane == /\ inp.mark \/ inp.jmp # 0
        /\ inp.bps \in {512, 1024, 2048, 4096}
        /\ Spc \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
        /\ inp.rsvd > 0 /\ inp.nf > 0 /\ TableSectors > 0 /\ Sectors >= 0
        /\ (inp.f16 = 0 => inp.ver = 0)
Type == IF inp.f16 = 0 THEN 32 ELSE IF Count >= 65525 \/ Count <= 0 THEN 0 ELSE IF Count >= 4085 THEN 16 ELSE 12
Opens == Sane /\ Type # 0
Active == IF inp.f16 = 0 /\ inp.mir /\ inp.act < inp.nf THEN inp.act ELSE 0
TableAt == (inp.rsvd + (Active * TableSectors)) * inp.bps
TableSize == TableSectors * inp.bps
ClusterSize == inp.bps * Spc
Last == Count + 1

(* ---- the table ---- *)
Width(c) == CASE Type = 32 -> 4 * (c + 1) [] Type = 16 -> 2 * (c + 1) [] Type = 12 -> c + (c \div 2) + 2     \* bytes of the table needed to tell the link of c
InTable(c) == c <= Last /\ Width(c) <= TableSize /\ (TableAt + Width(c) + 511) \div 512 <= inp.len
Eoc == CASE Type = 32 -> 268435448 [] Type = 16 -> 65528 [] Type = 12 -> 4088
BadMark == Eoc - 1
Link(c) == LET S == { i \in 1..Len(inp.fat) : inp.fat[i][1] = c } IN IF S = {} THEN 0 ELSE inp.fat[CHOOSE i \in S : TRUE][2]

(* ---- questions ---- *)
Cur == inp.q[Len(ans) + 1]
SPer == inp.bps \div 512                                                \* offsets are counted in units of 512 bytes
Offset(c) == (Before * SPer) + ((c - 2) * Spc * SPer)
InVolume(c) == /\ (inp.vs >= 0 => Offset(c) + (Spc * SPer) <= inp.vs)
               /\ Offset(c) + (Spc * SPer) <= inp.len
Members(s) == { s[i] : i \in 1..Len(s) }
\* Clusters needed for n bytes (-1: all).
Need(n, g) == IF n < 0 THEN Len(g) ELSE Min(Len(g), (n + ClusterSize - 1) \div ClusterSize)
Content(n, g) == LET k == Need(n, g) IN
  IF \E i \in 1..k : g[i] # 0 /\ ~InVolume(g[i]) THEN [st |-> "rejected", cl |-> <<>>, n |-> 0]
  ELSE [st |-> "ok", cl |-> SubSeq(g, 1, k), n |-> IF n < 0 THEN k * ClusterSize ELSE Min(n, k * ClusterSize)]
Answer(a) == ans' = Append(ans, a) /\ mode' = "ask" /\ at' = 0 /\ got' = <<>>
Finish(g) == IF Cur.k = "chain" THEN Answer([st |-> "ok", cl |-> g, n |-> 0]) ELSE Answer(Content(Cur.n, g))
Rejected == [st |-> "rejected", cl |-> <<>>, n |-> 0]

SmallTypes == \E c \in {0, 1, 4084, 4085, 4086, 65524, 65525}, f \in {1, 12, 200, 256}, spc \in {1, 2} :
                inp = [F16(0, f) EXCEPT !.spc = spc, !.t32 = 1 + (2 * f) + 1 + (c * spc) + (spc - 1), !.len = 4, !.q = <<Q("alloc", 2, 0), Q("alloc", c + 1, 0), Q("alloc", c + 2, 0)>>]
SmallBoot == \E x \in {Tiny, [Tiny EXCEPT !.t16 = 0, !.t32 = 20], F32(300, 2), [F32(300, 2) EXCEPT !.t32 = 0, !.t64 = 300], [F32(300, 2) EXCEPT !.nf = 3, !.mir = TRUE]} :
             \E y \in { x, [x EXCEPT !.bps = 513], [x EXCEPT !.bps = 256], [x EXCEPT !.bps = 1024], [x EXCEPT !.spc = 0], [x EXCEPT !.spc = 3], [x EXCEPT !.spc = 2], [x EXCEPT !.rsvd = 0], [x EXCEPT !.rsvd = 5], [x EXCEPT !.nf = 0], [x EXCEPT !.nf = 1],
                        [x EXCEPT !.f16 = 0, !.f32 = 0], [x EXCEPT !.t16 = 0, !.t32 = 0, !.t64 = 0, !.bsig = 40], [x EXCEPT !.t16 = 0, !.t32 = 0, !.bsig = 40], [x EXCEPT !.t16 = 0, !.t32 = 0, !.t64 = 0], [x EXCEPT !.ver = 1], [x EXCEPT !.mark = FALSE], [x EXCEPT !.mark = FALSE, !.jmp = 2], [x EXCEPT !.mark = FALSE, !.jmp = 0],
                        [x EXCEPT !.root = 0], [x EXCEPT !.root = 17], [x EXCEPT !.root = 32], [x EXCEPT !.t16 = 3, !.t32 = 0], [x EXCEPT !.act = 1], [x EXCEPT !.act = 2], [x EXCEPT !.act = 2, !.mir = TRUE], [x EXCEPT !.act = 1, !.mir = TRUE] } :
               inp = [y EXCEPT !.len = 400, !.fat = <<<<2, 3>>, <<3, IF y.f16 = 0 THEN 268435455 ELSE 4095>>>>, !.q = <<Q("chain", 2, 0), Q("read", 2, -1), Q("alloc", 2, 0), Q("alloc", 4, 0)>>]
\* Every table over four clusters, with every kind of link.
Links(t) == {0, 1, 2, 3, 4, 5} \cup (CASE t = 12 -> {17, 18, 19, 4086, 4087, 4088, 4095} [] t = 32 -> {268435446, 268435447, 268435448, 267, 268})
SmallChains == \E a, b, c \in Links(12), t \in {12, 32} :
                 LET m(x) == IF t = 12 \/ x < 6 THEN x ELSE CASE x = 17 -> 267 [] x = 18 -> 268 [] x = 19 -> 300 [] OTHER -> (x - 4086) + 268435446
                 IN /\ (Scope = "quick" => t = 12 \/ (t = 32 /\ b \in {3, 4, 4088, 4087} /\ c \in {3, 1, 4095}))
                    /\ inp = [(IF t = 12 THEN Tiny ELSE F32(302, 2)) EXCEPT !.fat = <<<<2, m(a)>>, <<3, m(b)>>, <<4, m(c)>>>>, !.q = <<Q("chain", 2, 0), Q("read", 2, -1), Q("read", 2, 700), Q("read", 3, 512), Q("read", 3, 0), Q("chain", 0, 0), Q("chain", 1, 0), Q("chain", m(4087), 0), Q("chain", m(18), 0)>>]
SmallSizes == \E v \in {-1, 19, 20, 21, 8}, l \in {2, 8, 19, 20}, s \in {-1, 0, 1, 512, 513, 1024, 1025, 2000} :
                 inp = [Tiny EXCEPT !.vs = v, !.len = l, !.fat = <<<<4, 17>>, <<17, 3>>, <<3, 4087>>>>, !.q = <<Q("read", 4, s), Q("read", 17, s), Q("read", 3, s)>>]
Small == CASE Scope = "none" -> FALSE [] Family = "types" -> SmallTypes [] Family = "boot" -> SmallBoot [] Family = "chains" -> SmallChains [] Family = "sizes" -> SmallSizes

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ mode = "open" /\ at = 0 /\ got = <<>> /\ ans = <<>>
Open == mode = "open" /\ mode' = (IF (inp.vs < 0 \/ inp.vs >= 8) /\ Opens THEN "ask" ELSE "rejected") /\ UNCHANGED <<cid, inp, at, got, ans>>
Ask == /\ mode = "ask" /\ Len(ans) < Len(inp.q)
       /\ IF Cur.k = "alloc" THEN Answer([st |-> IF InTable(Cur.c) THEN "ok" ELSE "rejected", cl |-> <<>>, n |-> IF InTable(Cur.c) /\ Link(Cur.c) # 0 THEN 1 ELSE 0])
          ELSE IF Cur.c \in {0, 1} THEN Answer([st |-> "ok", cl |-> <<>>, n |-> 0])
          ELSE IF Cur.c = BadMark THEN Answer(Rejected)
          ELSE mode' = "walk" /\ at' = Cur.c /\ got' = <<Cur.c>> /\ UNCHANGED ans
       /\ UNCHANGED <<cid, inp>>
Walk == /\ mode = "walk"
        /\ IF ~InTable(at) THEN Answer(Rejected)
           ELSE LET l == Link(at) IN
                IF l \in Members(got) \/ l >= Eoc \/ l = 0 \/ l = 1 THEN Finish(got)
                ELSE IF l = BadMark THEN Finish(Append(got, 0))
                ELSE mode' = "walk" /\ at' = l /\ got' = Append(got, l) /\ UNCHANGED ans
        /\ UNCHANGED <<cid, inp>>
Over == mode = "rejected" \/ (mode = "ask" /\ Len(ans) = Len(inp.q))
Done == Over /\ UNCHANGED vars
Next == Open \/ Ask \/ Walk \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> IF mode = "rejected" THEN "rejected" ELSE "ok", type |-> IF mode = "rejected" THEN 0 ELSE Type, ans |-> ans]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(mode = "rejected" \/ (mode = "ask" /\ Len(ans) = Len(inp.q)))
\* No cluster twice, all linked, all on the volume; only the last may be bad.
\* (Said of the newest cluster, in every state.)
Chained == LET n == Len(got) IN n > 0 => /\ got[n] >= 2 /\ (n > 1 => got[n - 1] <= Last)
                                        /\ \A j \in 1..(n - 1) : got[j] # got[n]
                                        /\ (n > 1 => Link(got[n - 1]) = got[n])
Within == \A i \in 1..Len(ans) : (ans[i].st = "ok" /\ inp.q[i].k = "read") => /\ \A j \in 1..Len(ans[i].cl) : ans[i].cl[j] = 0 \/ (ans[i].cl[j] <= Last /\ InVolume(ans[i].cl[j]))
                                                                              /\ (inp.q[i].n >= 0 => ans[i].n <= inp.q[i].n)
=============================================================================
