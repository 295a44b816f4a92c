----------------------------- MODULE LogWriter -----------------------------
(* A circular log and the machine that writes it: records are laid one after another over   *)
(* pages of 4096 bytes, a record may span pages, and the page after the last one is the      *)
(* first one again, with the next sequence number. Pages reach their place in the log in     *)
(* several ways: in a log of version 1 the page being filled is kept in one of two tail       *)
(* copies and is put in place when it is full; in version 2 every page goes to one of the     *)
(* fast pages first and is moved in place later. The machine may stop at any point, and       *)
(* pages may be damaged. What a reader must then report is what this module requires.         *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Sizes, MaxOps, MaxFaults, Setups, Kinds

VARIABLES cid, inp, mem, cur, disk, slot, nslot, recs, synced, bad, phys, present
vars == <<cid, inp, mem, cur, disk, slot, nslot, recs, synced, bad, phys, present>>
\* inp   the setup and the history so far          mem   what the page being filled holds
\* cur   where the next record would start         disk  what each page of the log area holds
\* slot  tail copies / fast pages                  nslot the number of copies made so far
\* recs  every record ever written                 synced how many of them were made durable
\* bad   damaged pages: <<"log", page>> or <<"slot", k>>
\* phys, present: what a reader would see if the machine stopped now (functions of the others)

Page == 4096
F == IF inp.v = 1 THEN 4 ELSE 34
K == inp.k
H == inp.hdr
D == inp.doff
Cap == Page - D
Slots == IF inp.v = 1 THEN 2 ELSE 32
Blank == [st |-> "none", last |-> 0, end |-> 0, heads |-> {}, cont |-> {}]
Fresh == [Blank EXCEPT !.st = "page"]

(* ---- where things go ---- *)
After(q) == IF q + 1 = F + K THEN F ELSE q + 1
\* The place of the next record: here if a header fits, else at the start of the next page.
Place == IF cur.o + H <= Page THEN cur ELSE [p |-> After(cur.p), s |-> IF cur.p + 1 = F + K THEN cur.s + 1 ELSE cur.s, o |-> D]
First(n, o) == Min(n, Page - o - H)
Extra(n, o) == LET left == n - First(n, o) IN IF left = 0 THEN 0 ELSE (left + Cap - 1) \div Cap
RECURSIVE Hop(_, _)
Hop(q, i) == IF i = 0 THEN q ELSE Hop(After(q), i - 1)
Wraps(q, i) == q + i >= F + K

Init ==
  /\ \/ cid = 0 /\ Scope # "none" /\ \E x \in Setups : inp = [v |-> x.v, k |-> x.k, hdr |-> x.hdr, doff |-> x.doff, seq |-> x.seq, at |-> x.at, pol |-> x.pol, rst |-> x.rst, rst2 |-> x.rst, one |-> 0, rec |-> x.rec, ops |-> <<>>]
     \/ cid \in 1..Len(Cases) /\ inp = [Cases[cid] EXCEPT !.ops = <<>>]
  /\ cur = [p |-> F + inp.at, s |-> inp.seq, o |-> D]
  /\ mem = Blank
  /\ disk = [q \in F..(F + K - 1) |-> Blank]
  /\ slot = [j \in 1..Slots |-> [t |-> 0, c |-> Blank]]
  /\ nslot = 0 /\ recs = <<>> /\ synced = 0 /\ bad = {}
  /\ phys = [q \in F..(F + K - 1) |-> Blank] /\ present = {}

(* ---- the writer ---- *)
\* Handing over a page that is not going to be filled any more (or its current state).
Keep(sl, n, q, c) == [sl EXCEPT ![1 + (n % Slots)] = [t |-> q, c |-> c]]

RECURSIVE Spread(_, _, _, _, _, _)
\* State [m, d, sl, n] after page q, in which record r has its i-th part of e + 1.
Spread(w, q, i, e, r, lsn) ==
  LET m1 == [w.m EXCEPT !.last = r, !.heads = IF i = 0 THEN @ \cup {r} ELSE @, !.cont = IF i > 0 THEN @ \cup {<<r, i>>} ELSE @, !.end = IF i = e THEN r ELSE @]
  IN IF i = e THEN [w EXCEPT !.m = m1]
     ELSE Spread([m |-> Fresh, d |-> IF inp.v = 1 THEN [w.d EXCEPT ![q] = m1] ELSE w.d,
                  sl |-> IF inp.v = 1 THEN w.sl ELSE Keep(w.sl, w.n, q, m1), n |-> IF inp.v = 1 THEN w.n ELSE w.n + 1], After(q), i + 1, e, r, lsn)

Write(op) ==
  LET pl == Place
      moved == pl.p # cur.p \/ pl.s # cur.s
      r == Len(recs) + 1
      e == Extra(op.n, pl.o)
      w0 == IF moved
            THEN [m |-> Fresh, d |-> IF inp.v = 1 THEN [disk EXCEPT ![cur.p] = mem] ELSE disk,
                  sl |-> IF inp.v = 1 THEN slot ELSE Keep(slot, nslot, cur.p, mem), n |-> IF inp.v = 1 THEN nslot ELSE nslot + 1]
            ELSE [m |-> IF mem.st = "none" THEN Fresh ELSE mem, d |-> disk, sl |-> slot, n |-> nslot]
      w == Spread(w0, pl.p, 0, e, r, 0)
      q == Hop(pl.p, e)
  IN /\ e < K - 1
     /\ mem' = w.m /\ disk' = w.d /\ slot' = w.sl /\ nslot' = w.n
     /\ recs' = Append(recs, [s |-> pl.s, p |-> pl.p, o |-> pl.o, n |-> op.n, prev |-> op.prev, undo |-> op.undo, t |-> op.t, c |-> op.c, pts |-> op.pts, e |-> e])
     /\ cur' = [p |-> q, s |-> IF Wraps(pl.p, e) THEN pl.s + 1 ELSE pl.s, o |-> IF e = 0 THEN pl.o + H + op.n ELSE D + (op.n - First(op.n, pl.o)) - ((e - 1) * Cap)]
     /\ UNCHANGED <<synced, bad>>

\* Make everything written so far durable: a copy of the page being filled.
Sync == /\ mem.st = "page" /\ mem.end = Len(recs)
        /\ slot' = Keep(slot, nslot, cur.p, mem) /\ nslot' = nslot + 1 /\ synced' = Len(recs)
        /\ UNCHANGED <<mem, cur, disk, recs, bad>>
\* Put the page being filled in place (and, in version 2, everything still in the fast pages, oldest first).
RECURSIVE Move(_, _, _)
Move(d, sl, js) == IF js = <<>> THEN d ELSE Move(IF sl[js[1]].c.st = "page" /\ (d[sl[js[1]].t].st = "none" \/ d[sl[js[1]].t].last < sl[js[1]].c.last \/ (d[sl[js[1]].t].last = sl[js[1]].c.last /\ d[sl[js[1]].t].end < sl[js[1]].c.end)) THEN [d EXCEPT ![sl[js[1]].t] = sl[js[1]].c] ELSE d, sl, SubSeq(js, 2, Len(js)))
SlotOrder == [i \in 1..Slots |-> 1 + ((nslot + i - 1) % Slots)]      \* oldest first
PutInPlace == /\ mem.st = "page" /\ mem.end = Len(recs)
              /\ disk' = [(IF inp.v = 1 THEN disk ELSE Move(disk, slot, SlotOrder)) EXCEPT ![cur.p] = mem]
              /\ synced' = Len(recs)
              /\ UNCHANGED <<mem, cur, slot, nslot, recs, bad>>
\* Only the i oldest of the copies are put in place before the machine stops (or goes on).
MoveSome(i) == /\ inp.v = 2
               /\ disk' = Move(disk, slot, SubSeq(SlotOrder, 1, i))
               /\ UNCHANGED <<mem, cur, slot, nslot, recs, synced, bad>>
Damage(b) == bad' = bad \cup {b} /\ UNCHANGED <<mem, cur, disk, slot, nslot, recs, synced>>
Intact == bad = {}

Do(op) == CASE op.o = "rec" -> Intact /\ Write(op)
            [] op.o = "sync" -> Intact /\ Sync
            [] op.o = "put" -> Intact /\ PutInPlace
            [] op.o = "move" -> Intact /\ MoveSome(op.a)
            [] op.o = "tear" -> Damage(<<"log", F + op.a>>)
            [] op.o = "tearslot" -> Damage(<<"slot", op.a>>)
            [] op.o = "astray" -> Damage(<<"slot", op.a>>)      \* the copy names a place outside the log area

N == Len(recs)
RecOp(n) == [o |-> "rec", n |-> n, prev |-> CASE inp.pol = "chain" -> N [] inp.pol = "skip" -> IF N > 1 THEN N - 1 ELSE 0 [] OTHER -> 0,
             undo |-> IF inp.pol = "undo" /\ N > 1 THEN N - 1 ELSE 0, t |-> 1, c |-> 0, pts |-> <<>>]
RestartOp(a) == [o |-> "rec", n |-> 104, prev |-> 0, undo |-> 0, t |-> 2, c |-> 0, pts |-> <<a, 0, 0, 0, 0>>]
AstrayKinds == {"past", "restart", "between", "copies", "huge"} \cup (IF inp.v = 2 THEN {"none"} ELSE {"negative"})
Choices == (IF Intact THEN { RecOp(n) : n \in Sizes } ELSE {})
           \cup (IF Intact /\ "restart" \in Kinds THEN { RestartOp(a) : a \in {0, 1} } ELSE {})
           \cup (IF Intact /\ "sync" \in Kinds THEN {[o |-> "sync"]} ELSE {})
           \cup (IF Intact /\ "put" \in Kinds THEN {[o |-> "put"]} ELSE {})
           \cup (IF Intact /\ "move" \in Kinds /\ inp.v = 2 THEN { [o |-> "move", a |-> i] : i \in { j \in 1..Slots : slot[SlotOrder[j]].c.st = "page" } } ELSE {})
           \cup (IF Cardinality(bad) < MaxFaults THEN { [o |-> "tear", a |-> i] : i \in {j \in 0..(K - 1) : disk[F + j].st = "page" /\ <<"log", F + j>> \notin bad} } ELSE {})
           \cup (IF Cardinality(bad) < MaxFaults /\ "sync" \in Kinds THEN { [o |-> "tearslot", a |-> i] : i \in {j \in 1..Slots : slot[j].c.st = "page" /\ <<"slot", j>> \notin bad} } ELSE {})
           \cup (IF Cardinality(bad) < MaxFaults /\ "astray" \in Kinds THEN { [o |-> "astray", a |-> i, x |-> x] : x \in AstrayKinds, i \in {j \in 1..Slots : slot[j].c.st = "page" /\ <<"slot", j>> \notin bad} } ELSE {})
(* ---- the reader ---- *)
\* What the log area holds once the copies have been taken into account.
LogPage(q) == IF <<"log", q>> \in bad THEN Blank ELSE disk[q]
SlotPage(j) == IF <<"slot", j>> \in bad THEN [t |-> 0, c |-> Blank] ELSE slot[j]
Copies == { j \in 1..Slots : SlotPage(j).c.st = "page" }
Highest == LET S == { LogPage(q).last : q \in F..(F + K - 1) } IN CHOOSE x \in S : \A y \in S : y <= x
Recovered ==
  IF ~inp.rec \/ Copies = {} THEN [q \in F..(F + K - 1) |-> LogPage(q)]
  ELSE IF inp.v = 1
    THEN LET j == CHOOSE x \in Copies : \A y \in Copies : SlotPage(y).c.end <= SlotPage(x).c.end      \* the most recent of the two
             t == SlotPage(j).t
         IN [q \in F..(F + K - 1) |-> IF q = t /\ (LogPage(t).st = "none" \/ (LogPage(t).end < SlotPage(j).c.end /\ LogPage(t).last < SlotPage(j).c.end)) THEN SlotPage(j).c ELSE LogPage(q)]
    ELSE [q \in F..(F + K - 1) |->
            LET S == { j \in Copies : SlotPage(j).t = q /\ SlotPage(j).c.last >= Highest }
            IN IF S = {} THEN LogPage(q) ELSE LET j == CHOOSE x \in S : \A y \in S : SlotPage(y).c.last < SlotPage(x).c.last \/ (SlotPage(y).c.last = SlotPage(x).c.last /\ SlotPage(y).c.end <= SlotPage(x).c.end) IN SlotPage(j).c]

View == phys' = Recovered' /\ present' = { r \in 1..Len(recs') : r \in phys'[recs'[r].p].heads }

Step == /\ cid = 0 /\ Len(inp.ops) < MaxOps
        /\ \E op \in Choices : Do(op) /\ inp' = [inp EXCEPT !.ops = Append(@, op)]
        /\ View
        /\ UNCHANGED cid
Given == /\ cid > 0 /\ Len(inp.ops) < Len(Cases[cid].ops)
         /\ LET op == Cases[cid].ops[Len(inp.ops) + 1] IN
            Do(op) /\ inp' = [inp EXCEPT !.ops = Append(@, op)]
         /\ View
         /\ UNCHANGED cid
Finished == IF cid = 0 THEN TRUE ELSE Len(inp.ops) = Len(Cases[cid].ops)
Done == Finished /\ UNCHANGED vars
Next == Step \/ Given \/ Done
Spec == Init /\ [][Next]_vars

\* How much of the data of a record is there, up to the first page that is missing.
RECURSIVE Length(_, _, _)
Length(r, i, done) ==
  LET part == IF i = 0 THEN First(recs[r].n, recs[r].o) ELSE Min(Cap, recs[r].n - done)
  IN IF i > 0 /\ phys[Hop(recs[r].p, i)].st = "none" THEN done
     ELSE IF i = recs[r].e THEN done + part ELSE Length(r, i + 1, done + part)
Avail(r) == Length(r, 0, 0)
Decodable(r) == CASE recs[r].t = 1 -> Avail(r) >= 32 [] recs[r].t = 2 -> Avail(r) >= 64 [] OTHER -> FALSE

Stale(r) == \E i \in 1..recs[r].e : LET c == phys[Hop(recs[r].p, i)] IN c.st = "page" /\ <<r, i>> \notin c.cont

RECURSIVE Forward(_), Back(_), Undo(_)
Forward(S) == LET T == S \cup ({ r + 1 : r \in S } \cap present) IN IF T = S THEN S ELSE Forward(T)
Back(S) == LET T == S \cup ({ recs[r].prev : r \in S } \cap present) IN IF T = S THEN S ELSE Back(T)
Undo(S) == LET T == S \cup ({ recs[r].undo : r \in S } \cap present) IN IF T = S THEN S ELSE Undo(T)
\* What the restart pages name: the first one (inp.rst) and the second one (inp.rst2), one of which may be damaged (inp.one: the other of the two).
Restart == (IF inp.one = 2 THEN {} ELSE { inp.rst[i] : i \in 1..Len(inp.rst) }) \cup (IF inp.one = 1 THEN {} ELSE { inp.rst2[i] : i \in 1..Len(inp.rst2) })
InPlace(q) == phys[q] = LogPage(q)
Named == ({ phys[q].end : q \in F..(F + K - 1) } \cup { phys[q].last : q \in { x \in F..(F + K - 1) : inp.v = 2 \/ InPlace(x) } } \cup Restart) \cap present
Known0 == Named \cup (({ recs[r].prev : r \in Named } \cup { recs[r].undo : r \in Named }) \cap present)
Known == Undo(Back(Forward(Known0)))
Points == UNION { { recs[r].pts[i] : i \in 1..Len(recs[r].pts) } : r \in { x \in Known : recs[x].t = 2 /\ Decodable(x) /\ ~Stale(x) } } \cap present
RECURSIVE Until(_, _)
Until(r, S) == IF (r + 1) \in present \ S THEN {r} \cup Until(r + 1, S) ELSE {r}
Must == { r \in Known \cup UNION { Until(x, Known \cup Back({ y \in Points : y # x }) \cup Undo({ y \in Points : y # x })) : x \in Points } : Decodable(r) }
May == { r \in present : Decodable(r) }

Ordered(S) == LET RECURSIVE Sort(_) 
                  Sort(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Sort(X \ {m})
              IN Sort(S)
Obs == [must |-> Ordered(Must), may |-> LET q == Ordered(May) IN [i \in 1..Len(q) |-> <<q[i], IF Stale(q[i]) THEN -1 ELSE Avail(q[i])>>]]
\* The machine may stop anywhere, but the records not yet durable are simply not there.
Report == Finished /\ N > 0 => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* A record that is complete when the machine stops is found, unless it was overwritten or damaged: here, the last durable ones.
Overwritten(r) == \E x \in (r + 1)..N : \E i \in 0..recs[x].e : Hop(recs[x].p, i) = recs[r].p /\ (recs[x].s > recs[r].s \/ Wraps(recs[x].p, i))
Durable == bad = {} /\ inp.rec => \A r \in 1..synced : (~Overwritten(r) => r \in present)
LastDurable == bad = {} /\ inp.rec /\ synced > 0 /\ synced = N => (synced \in Must \/ ~Decodable(synced) \/ Overwritten(synced))
Sound == Must \subseteq May
\* Data never come from a page that was reused, unless the record was still being written.
NotReused == bad = {} /\ inp.rec => \A r \in 1..synced : r \in present => ~Stale(r)
=============================================================================
