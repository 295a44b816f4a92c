------------------------------ MODULE Carving ------------------------------
(* Carving file control blocks out of a memory image. Where such a block keeps its timestamps    *)
(* depends on the system, so a first pass collects candidates (a signature with four plausible    *)
(* timestamps in a row, and a further one behind them), at most a hundred of them; the positions  *)
(* most of them agree upon are then taken for every block of the image in a second pass.          *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope

VARIABLES cid, inp, pass, item, rep, cand, gd, ga, out
vars == <<cid, inp, pass, item, rep, cand, gd, ga, out>>
\* inp   [plan]: a sequence of [k times, n length of the page, sigs positions of signatures, st timestamps <<position, kind>>]
\* pass  "guess", "known"; "over", "few" (not enough candidates), "unclear" (they do not agree)
\* item, rep   the page looked at      cand  candidates collected      gd, ga  the positions agreed upon      out  what is reported

Size == 4096
Valid(c) == c \in {"in", "min", "max"}
Stamps(pg) == { pg.st[i][1] : i \in { j \in 1..Len(pg.st) : Valid(pg.st[j][2]) } }
At(pg, S, p) == p \in S /\ p + 8 <= pg.n
Four(pg, S, p) == \A i \in 0..3 : At(pg, S, p + (8 * i))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* The first place of four plausible timestamps within a block, or -1; the first place of a further one, or -1.
First4(pg, S, at) == LET C == { s - at : s \in { x \in S : x >= at /\ x < at + 144 /\ (x - at) % 2 = 0 /\ Four(pg, S, x) } } IN IF C = {} THEN -1 ELSE Least(C)
First1(pg, S, at, d) == LET C == { s - at : s \in { x \in S : x >= at + d + 56 /\ x < at + 208 /\ (x - at) % 2 = 0 /\ At(pg, S, x) } } IN IF C = {} THEN -1 ELSE Least(C)
\* Blocks of a page from position at on: each <<position, where its four timestamps are, where the further one is>>.
RECURSIVE Guess(_, _, _), Known(_, _, _, _, _)
Guess(pg, S, at) == LET N == { x \in { pg.sigs[i] : i \in 1..Len(pg.sigs) } : x >= at /\ x % 2 = 0 /\ x + 2 <= pg.n } IN
                    IF N = {} THEN <<>>
                    ELSE LET s == Least(N) d == First4(pg, S, s) a == IF d < 0 THEN -1 ELSE First1(pg, S, s, d) IN
                         IF a < 0 THEN Guess(pg, S, s + 2) ELSE <<<<s, d, a>>>> \o Guess(pg, S, s + a + 8)
Known(pg, S, at, d, a) == LET N == { x \in { pg.sigs[i] : i \in 1..Len(pg.sigs) } : x >= at /\ x % 2 = 0 /\ x + 2 <= pg.n } IN
                          IF N = {} THEN <<>>
                          ELSE LET s == Least(N) IN
                               IF Four(pg, S, s + d) /\ At(pg, S, s + a) THEN <<<<s, d, a>>>> \o Known(pg, S, s + a + 8, d, a) ELSE Known(pg, S, s + 2, d, a)

(* ---- small images ---- *)
Block(at, d, a) == [s |-> at, st |-> << <<at + d, "in">>, <<at + d + 8, "in">>, <<at + d + 16, "in">>, <<at + d + 24, "in">>, <<at + a, "in">> >>]
With(b, i, c) == [b EXCEPT !.st[i] = <<@[1], c>>]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE q[1].st \o Join(SubSeq(q, 2, Len(q)))
Page(k, n, bs) == [k |-> k, n |-> n, sigs |-> [i \in 1..Len(bs) |-> bs[i].s], st |-> Join(bs)]
Std(at) == Block(at, 24, 120)
Five(d, a) == Page(1, Size, [i \in 1..5 |-> Block((i - 1) * 700, d, a)])
One(d, a) == Page(1, Size, <<Block(64, d, a)>>)
\* Odd blocks, each alone in a page.
Odd == { With(Std(64), i, c) : i \in 1..5, c \in {"min", "max", "below", "above"} }
       \cup { Block(64, d, a) : d \in {0, 2, 22, 26, 140, 142, 144, 146}, a \in {120, 176, 178, 196, 198, 200, 202, 206, 208} }
       \cup { Block(64, 24, a) : a \in {24 + 32, 24 + 54, 24 + 55, 24 + 56, 24 + 58, 118, 122, 150, 206, 207, 208, 210} }
       \cup { Std(65), Std(66), Std(67), Std(3968), Std(3970), Std(3972), Std(4000), Std(4094) }
Pairs == { <<Std(64), Std(x)>> : x \in {64 + 126, 64 + 128, 64 + 130, 64 + 90, 64 + 20} } \cup { <<Block(0, 24, 150), Std(x)>> : x \in {128, 156, 158, 160} }
Tails == { Page(1, n, <<Std(64)>>) : n \in {64 + 127, 64 + 128, 510, 511, 512, 513, 1000, 4095} } \cup { Page(1, n, <<Std(n - 128)>>) : n \in {512, 514, 600} } \cup { Page(1, n, <<Std(n - 126)>>) : n \in {512, 514, 600} }
Rep(k, p) == [p EXCEPT !.k = k]
Plan(q) == inp = [plan |-> q]
Small == \/ Scope # "none" /\ \E o \in Odd : Plan(<<Rep(6, Five(24, 120)), Page(1, Size, <<o>>)>>)
         \/ Scope # "none" /\ \E o \in Pairs : Plan(<<Page(1, Size, o), Rep(6, Five(24, 120))>>)
         \/ Scope # "none" /\ \E o \in Tails : Plan(<<Rep(6, Five(24, 120)), o>>)
         \/ Scope # "none" /\ \E o \in Tails : Plan(<<Rep(24, One(24, 120)), o>>)
         \* how many there are, and how many of them agree
         \/ Scope # "none" /\ \E a \in {0, 4, 5, 6, 15, 18, 19, 20, 21, 24, 25, 26}, b \in {0, 1, 4, 5, 6, 18, 19, 20, 21} : Plan(<<Rep(a, One(24, 120)), Rep(b, One(32, 150))>>)
         \/ Scope # "none" /\ \E a \in {0, 19, 20, 21}, b \in {0, 19, 20, 21}, x \in {120, 150} : Plan(<<Rep(a, One(24, 120)), Rep(b, One(24, 130)), Rep(3, One(32, x))>>)
         \/ Scope # "none" /\ \E a \in {0, 18, 19, 20, 21}, b \in {0, 18, 19, 20} : Plan(<<Rep(a, One(24, 120)), Rep(b, One(32, 120)), Rep(4, One(40, 120))>>)
         \* how far off they may be
         \/ Scope # "none" /\ \E d \in {0, 2, 140, 142, 144, 146}, a \in {196, 198, 200, 202, 204, 206, 208, 210} : Plan(<<Rep(5, Five(d, a))>>)
         \/ Scope # "none" /\ \E a \in {24 + 54, 24 + 55, 24 + 56, 24 + 58, 204, 206, 207, 208} : Plan(<<Rep(6, Five(24, a))>>)
         \* only the first hundred count
         \/ Scope # "none" /\ \E x \in 3..6 : Plan(<<Rep(19, One(24, 150)), Rep(19, One(26, 150)), Rep(19, One(28, 150)), Rep(19, One(30, 150)), Rep(19, One(32, 150)), Rep(x, One(34, 150)), Rep(1, One(24, 150)), Rep(9, One(36, 150))>>)
         \/ Scope # "none" /\ \E a \in {7, 8, 9, 10, 11, 12}, b \in {5, 12, 30} : Plan(<<Rep(a, Five(24, 120)), Rep(b, Five(32, 150))>>)
         \/ Scope = "thorough" /\ \E o \in Odd, p \in Odd : Plan(<<Rep(5, Five(24, 120)), Page(1, Size, <<o>>), Page(1, Size, <<p>>)>>)

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ pass = "guess" /\ item = 1 /\ rep = 1 /\ cand = <<>> /\ gd = 0 /\ ga = 0 /\ out = <<>>

P == inp.plan[item]
Start(i) == LET q == [j \in 1..(i - 1) |-> inp.plan[j].k] RECURSIVE Sum(_) Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s))) IN Size * Sum(q)
Base == Start(item) + (Size * (rep - 1))
Last == item > Len(inp.plan)
Skip == ~Last /\ rep > P.k
Forward == IF rep >= P.k THEN item' = item + 1 /\ rep' = 1 ELSE rep' = rep + 1 /\ UNCHANGED item
Empty == /\ pass \in {"guess", "known"} /\ Skip /\ item' = item + 1 /\ rep' = 1 /\ UNCHANGED <<cid, inp, pass, cand, gd, ga, out>>
\* Too little left to be a page.
Short == ~Last /\ P.n < 512
Count(q, j, v) == Cardinality({ i \in 1..Len(q) : q[i][j] = v })
Most(q, j) == LET V == { q[i][j] : i \in 1..Len(q) } B == { v \in V : \A w \in V : Count(q, j, v) >= Count(q, j, w) }
              IN q[Least({ i \in 1..Len(q) : q[i][j] \in B })][j]
Tie(q, j) == LET V == { q[i][j] : i \in 1..Len(q) } IN \E v, w \in V : v # w /\ Count(q, j, v) = Count(q, j, w) /\ \A u \in V : Count(q, j, u) <= Count(q, j, v)
Cut(q) == IF Len(q) > 100 THEN SubSeq(q, 1, 100) ELSE q
Collect == /\ pass = "guess" /\ ~Skip /\ ~Last /\ ~Short /\ Len(cand) < 100
           /\ cand' = Cut(cand \o Guess(P, Stamps(P), 0))
           /\ Forward /\ UNCHANGED <<cid, inp, pass, gd, ga, out>>
Decide == /\ pass = "guess" /\ (IF Last THEN TRUE ELSE ~Skip /\ (Short \/ Len(cand) >= 100))
          /\ IF Len(cand) < 25 THEN pass' = "few" /\ UNCHANGED <<gd, ga, item, rep>>
             ELSE /\ gd' = Most(cand, 2) /\ ga' = Most(cand, 3)
                  /\ IF Count(cand, 2, gd') < 20 \/ Count(cand, 3, ga') < 20 THEN pass' = "unclear" /\ UNCHANGED <<item, rep>> ELSE pass' = "known" /\ item' = 1 /\ rep' = 1
          /\ UNCHANGED <<cid, inp, cand, out>>
Take == /\ pass = "known" /\ ~Skip /\ ~Last /\ ~Short
        /\ LET q == Known(P, Stamps(P), 0, gd, ga) IN out' = out \o [i \in 1..Len(q) |-> Base + q[i][1]]
        /\ Forward /\ UNCHANGED <<cid, inp, pass, cand, gd, ga>>
Finish == /\ pass = "known" /\ (IF Last THEN TRUE ELSE ~Skip /\ Short) /\ pass' = "over" /\ UNCHANGED <<cid, inp, item, rep, cand, gd, ga, out>>
Over == pass \in {"over", "few", "unclear"}
Done == Over /\ UNCHANGED vars
Next == Empty \/ Collect \/ Decide \/ Take \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Where two positions are equally frequent, either may be taken.
Obs == [st |-> pass, d |-> gd, a |-> ga, tie |-> Len(cand) >= 25 /\ (Tie(cand, 2) \/ Tie(cand, 3)), at |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(pass \in {"over", "few", "unclear"})
\* Reported in the order of the image, each once, and never without agreement.
Ordered == \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
Agreed == (pass = "known" \/ pass = "over") => Len(cand) >= 25 /\ Count(cand, 2, gd) >= 20 /\ Count(cand, 3, ga) >= 20
\* If all blocks met are of one kind, none is lost.
Complete == (pass = "over" /\ \A i \in 1..Len(cand) : cand[i][2] = gd /\ cand[i][3] = ga) => Len(out) >= Len(cand)
=============================================================================
