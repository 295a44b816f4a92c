---------------------------- MODULE VssCatalogue ----------------------------
(* The catalogue of the shadow copies of a volume. A start block names the first of a chain  *)
(* of control blocks; their items describe stores (type 2) and say where they lie (type 3).   *)
(* Every store in turn has chains of blocks: its table, two bitmaps, where it is, and some    *)
(* information. When another volume holds the stores, it has the type 3 items. A walk along a *)
(* chain ends at a block that is not where it says it is, rejects what is no such block, and  *)
(* never visits a block twice.                                                               *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, mode, at, seen, items, ans
vars == <<cid, inp, mode, at, seen, items, ans>>
\* inp   [two, start, cats, stores, probes]; see the harness
\* mode  the catalogue being walked ("1", "2"), "ask" (probes are answered one by one), "over", "rejected"
\* at, seen   the block to be visited, those visited
\* items what was found, per catalogue; ans the answers so far

B(k, self, nxt, its) == [k |-> k, self |-> self, nxt |-> nxt, its |-> its]
D(g, p) == [t |-> 2, g |-> g, p |-> p]
L(g) == [t |-> 3, g |-> g, p |-> 0]
F == [t |-> 1, g |-> 0, p |-> 0]
E == [t |-> 0, g |-> 0, p |-> 0]
X == [t |-> 9, g |-> 0, p |-> 0]
Z(g, p) == [t |-> 20, g |-> g, p |-> p]                             \* a description of a volume without size
One(its) == <<B("ok", TRUE, 0, its)>>
Store == [diff |-> <<B("ok", TRUE, 0, <<"ok">>)>>, bm |-> <<B("ok", TRUE, 0, <<>>)>>, prev |-> <<>>, loc |-> <<B("ok", TRUE, 0, <<"ok">>)>>, app |-> <<B("ok", TRUE, 0, <<>>)>>]
Probes(n) == [i \in 1..(2 * n) |-> IF i <= n THEN [by |-> "pos", v |-> i] ELSE [by |-> "guid", v |-> i - n]] \o <<[by |-> "pos", v |-> 9], [by |-> "guid", v |-> 8]>>
Whole(two, its) == IF two THEN <<One(SelectSeq(its, LAMBDA x : x.t # 3)), One(SelectSeq(its, LAMBDA x : x.t # 2))>> ELSE <<One(its)>>
Make(two, start, cats, stores) == [two |-> two, start |-> start, cats |-> cats, stores |-> stores, probes |-> Probes(Len(stores))]
Three == [i \in 1..3 |-> Store]

(* ---- inputs that are enumerated ---- *)
Nexts == 0..3
AnyChain == { <<B("ok", TRUE, a, <<D(1, 1), L(1)>>), B(k, s, b, <<D(2, 2), L(2)>>), B("ok", TRUE, c, <<D(3, 3), L(3)>>)>> :
              a \in 0..4, b \in Nexts, c \in Nexts, k \in {"ok", "type", "guid"}, s \in BOOLEAN }
Parts(ch) == <<[i \in 1..3 |-> [ch[i] EXCEPT !.its = <<ch[i].its[1]>>]], [i \in 1..3 |-> [ch[i] EXCEPT !.its = <<ch[i].its[2]>>]]>>
ItemPool == {D(1, 1), D(2, 2), D(3, 5), L(1), L(2), L(3), F, E, X, Z(3, 4)}
ItemSeqs(n) == UNION { [1..i -> ItemPool] : i \in 0..n }
\* No two stores claim one position.
Chains2 == { <<B("ok", TRUE, a, x), B(k, s, b, x)>> : a \in 0..3, b \in 0..2, k \in {"ok", "type"}, s \in BOOLEAN, x \in {<<"ok">>, <<"ok", "ok">>, <<"ign", "ok">>, <<"end", "ok">>, <<"bad">>, <<>>} }
BitChains == { <<B(h, TRUE, a, <<>>), B(k, s, b, <<>>)>> : a \in 0..3, b \in 0..2, h \in {"ok", "guid"}, k \in {"ok", "type"}, s \in BOOLEAN }
Base3 == <<D(1, 1), D(2, 2), D(3, 3), L(1), L(2), L(3)>>
Small ==
  CASE Scope = "none" -> FALSE
    [] Family = "start" -> \E two \in BOOLEAN, s \in {"ok", "fs", "guid", "type", "off1", "off2", "off3", "unaligned", "none", "short", "other"} : inp = Make(two, s, Whole(two, Base3), Three)
    [] Family = "chain" -> \E ch \in AnyChain : \/ inp = Make(FALSE, "ok", <<ch>>, Three)
                                                \/ inp = Make(TRUE, "ok", <<Parts(ch)[1], One(<<L(3), L(2), L(1)>>)>>, Three)
                                                \/ inp = Make(TRUE, "ok", <<One(<<D(2, 2), D(1, 1), D(3, 3)>>), Parts(ch)[2]>>, Three)
    [] Family = "items" -> \E two \in BOOLEAN, q \in ItemSeqs(IF Scope = "quick" THEN 3 ELSE 4) :
                             /\ (two => Len(q) <= 3)
                             /\ inp = Make(two, "ok", IF two THEN <<One(q), One(<<L(1), L(2), L(3)>>)>> ELSE <<One(q)>>, Three)
    [] Family = "stores" -> \E two \in BOOLEAN, g \in 1..2 :
                             \/ \E c \in Chains2 : \/ inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g].diff = c])
                                                   \/ c[1].its # <<"ign", "ok">> /\ inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g].loc = c])
                             \/ \E c \in BitChains : \/ inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g].bm = c])
                                                     \/ inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g].prev = c])
                             \/ \E k \in {"ok", "type", "guid"}, s \in BOOLEAN : inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g].app = <<B(k, s, 0, <<>>)>>])
                             \/ inp = Make(two, "ok", Whole(two, Base3), [Three EXCEPT ![g] = [diff |-> <<>>, bm |-> <<>>, prev |-> <<>>, loc |-> <<>>, app |-> <<>>]])

Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ mode = CASE inp.start \in {"ok", "none"} -> "1" [] inp.start = "other" -> "over" [] OTHER -> "rejected"
        /\ at = IF inp.start = "none" \/ inp.cats[1] = <<>> THEN 0 ELSE 1
        /\ seen = {} /\ items = <<<<>>, <<>>>> /\ ans = <<>>

(* ---- walking the catalogue(s) ---- *)
Which == IF mode = "1" THEN 1 ELSE 2
Cat == inp.cats[Which]
\* What one block holds: up to the end mark, or to what is no item (t = 99: the reader reports an error there).
RECURSIVE Read(_, _)
Read(its, i) == IF i > Len(its) \/ its[i].t = 0 THEN <<>>
                ELSE IF its[i].t \in {9, 20} THEN <<[t |-> 99, g |-> 0, p |-> 0]>>
                ELSE (IF its[i].t = 1 THEN <<>> ELSE <<its[i]>>) \o Read(its, i + 1)
EndOfChain == \/ at = 0 \/ at \in seen
              \/ at <= Len(Cat) /\ Cat[at].k = "ok" /\ ~Cat[at].self
Broken == at # 0 /\ at \notin seen /\ (at > Len(Cat) \/ Cat[at].k # "ok")
Visit == /\ mode \in {"1", "2"}
         /\ IF Broken THEN mode' = "rejected" /\ UNCHANGED <<at, seen, items>>
            ELSE IF EndOfChain
            THEN /\ mode' = IF mode = "1" /\ inp.two THEN "2" ELSE "ask"
                 /\ at' = IF mode = "1" /\ inp.two /\ inp.cats[2] # <<>> THEN 1 ELSE 0
                 /\ seen' = {} /\ UNCHANGED items
            ELSE /\ items' = [items EXCEPT ![Which] = @ \o Read(Cat[at].its, 1)]
                 /\ seen' = seen \cup {at} /\ at' = Cat[at].nxt /\ UNCHANGED mode
         /\ UNCHANGED <<cid, inp, ans>>

(* ---- the chains of a store ---- *)
\* The content of a chain, as <<block, place>> pairs; <<0, 0>> last: rejected.
RECURSIVE Ents(_, _, _)
Ents(b, its, i) == IF i > Len(its) \/ its[i] = "end" THEN <<>>
                   ELSE IF its[i] = "bad" THEN <<<<0, 0>>>>
                   ELSE (IF its[i] = "ok" THEN <<<<b, i>>>> ELSE <<>>) \o Ents(b, its, i + 1)
RECURSIVE Chain(_, _, _)
Chain(c, x, been) ==
  IF x = 0 \/ x \in been THEN <<>>
  ELSE IF x > Len(c) THEN <<<<0, 0>>>>
  ELSE IF c[x].k # "ok" THEN <<<<0, 0>>>>
  ELSE IF ~c[x].self THEN <<>>
  ELSE Ents(x, c[x].its, 1) \o Chain(c, c[x].nxt, been \cup {x})
RECURSIVE Loops(_, _, _)
Loops(c, x, been) == x # 0 /\ (x \in been \/ (x <= Len(c) /\ c[x].k = "ok" /\ c[x].self /\ Loops(c, c[x].nxt, been \cup {x})))
All(c) == Chain(c, IF c = <<>> THEN 0 ELSE 1, {})
Bad(q) == \E i \in 1..Len(q) : q[i] = <<0, 0>>
Usable(s) == ~Bad(All(s.diff)) /\ ~Bad(All(s.bm)) /\ ~Bad(All(s.prev)) /\ ~Bad(All(s.loc)) /\ (s.app = <<>> \/ s.app[1].k = "ok")
HasLoop(c) == c # <<>> /\ Loops(c, 1, {})
AnyLoop(s) == HasLoop(s.diff) \/ HasLoop(s.bm) \/ HasLoop(s.prev) \/ HasLoop(s.loc)

(* ---- choosing a store ---- *)
Descr == items[1]
Places == IF inp.two THEN items[2] ELSE items[1]
Of(q, t, g) == { i \in 1..Len(q) : q[i].t = t /\ q[i].g = g }
Damaged == \E q \in {Descr, Places} : \E i \in 1..Len(q) : q[i].t = 99
At(p) == { Descr[i].g : i \in { j \in 1..Len(Descr) : Descr[j].t = 2 /\ Descr[j].p = p } }
PosOf(g) == Descr[CHOOSE i \in Of(Descr, 2, g) : TRUE].p
RECURSIVE Choose(_, _)
\* <<"ok", the store and those that follow it>>, <<"missing">> or <<"rejected">>
Choose(g, n) ==
  LET a == Cardinality(Of(Descr, 2, g))
      b == Cardinality(Of(Places, 3, g))
      next == At(PosOf(g) + 1)
      more == IF next = {} THEN [st |-> "missing", gs |-> <<>>] ELSE Choose(CHOOSE x \in next : TRUE, n + 1)
  IN IF Damaged \/ a # b \/ a > 1 THEN [st |-> "rejected", gs |-> <<>>]
     ELSE IF a = 0 THEN [st |-> "missing", gs |-> <<>>]
     ELSE IF ~Usable(inp.stores[g]) THEN [st |-> "rejected", gs |-> <<>>]
     ELSE IF more.st = "rejected" THEN more
     ELSE [st |-> "ok", gs |-> <<g>> \o more.gs]
Probe(q) == IF q.by = "guid" THEN Choose(q.v, 0)
            ELSE IF At(q.v) = {} THEN [st |-> IF Damaged THEN "rejected" ELSE "missing", gs |-> <<>>]
            ELSE Choose(CHOOSE g \in At(q.v) : TRUE, 0)
Saved(gs) == UNION { { <<gs[i], All(inp.stores[gs[i]].diff)[j][1], All(inp.stores[gs[i]].diff)[j][2]>> : j \in 1..Len(All(inp.stores[gs[i]].diff)) } : i \in 1..Len(gs) }
Answer(q) == LET c == Probe(q) IN
  [st |-> c.st, gs |-> c.gs, loop |-> \E i \in 1..Len(c.gs) : AnyLoop(inp.stores[c.gs[i]]),
   saved |-> Saved(c.gs), loc |-> IF c.gs = <<>> THEN <<>> ELSE All(inp.stores[c.gs[1]].loc),
   app |-> c.gs # <<>> /\ inp.stores[c.gs[1]].app # <<>> /\ inp.stores[c.gs[1]].app[1].self]
Ask == /\ mode = "ask" /\ Len(ans) < Len(inp.probes)
       /\ ans' = Append(ans, Answer(inp.probes[Len(ans) + 1]))
       /\ mode' = IF Len(ans) + 1 = Len(inp.probes) THEN "over" ELSE "ask"
       /\ UNCHANGED <<cid, inp, at, seen, items>>
Over == mode \in {"over", "rejected"}
Done == Over /\ UNCHANGED vars
Next == Visit \/ Ask \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what is observed ---- *)
RECURSIVE Listed(_, _)
Listed(q, i) == IF i > Len(q) THEN <<>>
                ELSE IF q[i].t = 99 THEN <<<<0, 0>>>>
                ELSE (IF q[i].t = 2 THEN <<<<q[i].g, q[i].p>>>> ELSE <<>>) \o Listed(q, i + 1)
CatLoops == inp.start = "ok" /\ \E c \in 1..Len(inp.cats) : HasLoop(inp.cats[c])
Obs == [st |-> IF mode = "rejected" THEN "rejected" ELSE IF inp.start = "other" THEN "other" ELSE "ok",
        loop |-> CatLoops, listed |-> Listed(items[1], 1), ans |-> ans]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
TypeOK == mode \in {"1", "2", "ask", "over", "rejected"} /\ seen \subseteq 1..9
\* A selection that succeeds serves the store asked for, and then those with the positions after it.
Serves == \A i \in 1..Len(ans) : ans[i].st = "ok" =>
            /\ IF inp.probes[i].by = "guid" THEN ans[i].gs[1] = inp.probes[i].v ELSE PosOf(ans[i].gs[1]) = inp.probes[i].v
            /\ \A j \in 1..(Len(ans[i].gs) - 1) : PosOf(ans[i].gs[j + 1]) = PosOf(ans[i].gs[j]) + 1
\* Every store that is described and placed once, and whose newer ones are usable, can be selected.
Complete == \A i \in 1..Len(ans) : LET q == inp.probes[i] IN
              (q.by = "guid" /\ ans[i].st # "ok") => \/ Damaged \/ Cardinality(Of(Descr, 2, q.v)) # 1 \/ Cardinality(Of(Places, 3, q.v)) # 1
                                                     \/ \E g \in 1..Len(inp.stores) : ~Usable(inp.stores[g]) \/ Cardinality(Of(Descr, 2, g)) # Cardinality(Of(Places, 3, g)) \/ Cardinality(Of(Descr, 2, g)) > 1
\* The walk ends.
Ends == <>(mode \in {"over", "rejected"})
=============================================================================
