----------------------------- MODULE Partitions -----------------------------
(* Partition tables. A GUID table has a header in the second sector and a copy somewhere near *)
(* the end: the first one is used if it is valid, then the copy it names (if it can be          *)
(* recognised at all), then the copy in the last sector. A classic table has four entries; an   *)
(* extended one starts a chain of sectors, each describing one partition and the next link.     *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, mode, at, tried, out, how
vars == <<cid, inp, mode, at, tried, out, how>>
\* inp   a GUID table: [k "gpt", ss sector size, n sectors, hs headers, arr the entries (by header)]
\*       a classic one: [k "mbr", ss, n, tab the entries, ebrs the chain]
\* mode  what is tried: "primary", "named", "last"; or "table", "chain"; "over", "rejected"
\* at    the sector looked at      tried  the sectors of chains looked at      out  what is listed
\* how   which header is used: 0 the first one, 1 the one in the last sector, 2 the one that the first one names

(* ---- GUID tables ---- *)
H(lba, alt) == [at |-> lba, sig |-> TRUE, rev |-> 65536, hsz |-> 92, crc |-> TRUE, my |-> lba, alt |-> alt, fu |-> 34, pel |-> IF lba = 1 THEN 2 ELSE lba - 33, cnt |-> 128, es |-> 128, acrc |-> TRUE]
Min512 == 3 + 64
Ents == <<[i |-> 0, a |-> 40, b |-> 90, nm |-> <<65, 66, 0, 67>>], [i |-> 5, a |-> 100, b |-> 99, nm |-> <<>>], [i |-> 127, a |-> 7, b |-> 7, nm |-> <<55296, 65>>]>>
Gpt(n, hs, es) == [k |-> "gpt", ss |-> 512, n |-> n, hs |-> hs, arr |-> es]
Dev(h) == {h} \cup { [h EXCEPT !.sig = FALSE], [h EXCEPT !.rev = 0], [h EXCEPT !.rev = 1], [h EXCEPT !.hsz = 91], [h EXCEPT !.hsz = 512], [h EXCEPT !.hsz = 513], [h EXCEPT !.hsz = 100],
                     [h EXCEPT !.crc = FALSE], [h EXCEPT !.my = @ + 1], [h EXCEPT !.alt = 0], [h EXCEPT !.alt = h.at], [h EXCEPT !.alt = 999999], [h EXCEPT !.alt = 150], [h EXCEPT !.fu = 33], [h EXCEPT !.fu = 34], [h EXCEPT !.fu = 1000],
                     [h EXCEPT !.pel = 1], [h EXCEPT !.pel = 0], [h EXCEPT !.pel = 199], [h EXCEPT !.pel = 198, !.cnt = 4], [h EXCEPT !.pel = 198, !.cnt = 9], [h EXCEPT !.cnt = 0], [h EXCEPT !.cnt = 1], [h EXCEPT !.cnt = 6], [h EXCEPT !.cnt = 1000000],
                     [h EXCEPT !.es = 64], [h EXCEPT !.es = 0], [h EXCEPT !.es = 192], [h EXCEPT !.es = 256, !.cnt = 20], [h EXCEPT !.es = 256, !.cnt = 1000], [h EXCEPT !.acrc = FALSE] }
Bad(h) == [h EXCEPT !.crc = FALSE]
SmallGpt == \/ \E a \in Dev(H(1, 199)), b \in {H(199, 1), Bad(H(199, 1)), [H(199, 1) EXCEPT !.sig = FALSE]} : inp = Gpt(200, <<a, b>>, Ents)
            \/ \E a \in {Bad(H(1, 150)), [H(1, 150) EXCEPT !.sig = FALSE]}, b \in Dev(H(150, 1)), c \in Dev(H(199, 1)) : inp = Gpt(200, <<a, b, c>>, Ents)
            \* entries in odd places, with nothing in the way
            \/ \E h \in {H(1, 199)}, e \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<198, 4>>, <<198, 8>>, <<198, 9>>, <<199, 0>>, <<199, 1>>, <<199, 4>>, <<199, 5>>, <<200, 0>>, <<200, 1>>, <<197, 12>>, <<197, 13>>} :
                 inp = Gpt(200, <<[h EXCEPT !.pel = e[1], !.cnt = e[2]]>>, Ents)
            \/ \E x \in {0, 256, 511, 513, 768, 1000, 1024} : inp = [Gpt(200, <<H(1, 199)>>, Ents) EXCEPT !.ss = x]
            \/ \E n \in {66, 67, 68} : inp = Gpt(n, <<H(1, n - 1)>>, Ents)

(* ---- classic tables ---- *)
Ext == {5, 15, 133}
P(t, s) == [t |-> t, s |-> s, z |-> s + 7, f |-> 128]
R(lba, sig, t, rel, nxt) == [at |-> lba, sig |-> sig, t |-> t, rel |-> rel, z |-> lba + rel, f |-> 0, nxt |-> nxt]
\* (a table of a protective kind is nothing special to this reader)
Tabs == { <<P(a, 1), P(b, 10), P(c, d), P(7, 60)>> : a \in {0, 238}, b \in {15, 133, 6, 0}, c \in {5}, d \in {0, 10, 30, 90} }
        \cup { <<P(7, 1), P(b, 10), P(c, 30), P(e, 12)>> : b \in {5}, c \in {0, 131}, e \in {0, 7, 15} }
Chains == { <<R(10, TRUE, t, 1, x), R(12, s, 7, 1, y), R(14, TRUE, 131, 2, z), R(30, TRUE, 11, 1, w)>> :
            t \in {0, 7}, s \in BOOLEAN, x \in {0, 2, 4, 20}, y \in {0, 2, 4, 90}, z \in {0, 2, 4, 20}, w \in {0, 20, 2} }
OneTab == <<P(7, 1), P(0, 10), P(5, 10), P(7, 60)>>
OneChain == <<R(10, TRUE, 7, 1, 2), R(12, TRUE, 7, 1, 0)>>
SmallMbr == \/ \E x \in {0, 256, 511, 513, 768, 1000, 1024} : inp = [k |-> "mbr", ss |-> x, n |-> 80, tab |-> OneTab, ebrs |-> OneChain]
            \/ \E t \in Tabs, c \in { x \in Chains : Scope # "quick" \/ x[1].t = 7 } : inp = [k |-> "mbr", ss |-> 512, n |-> 80, tab |-> t, ebrs |-> c]

Small == CASE Scope = "none" -> FALSE [] Family = "gpt" -> SmallGpt [] Family = "mbr" -> SmallMbr
Sectors == inp.ss >= 512 /\ inp.ss % 512 = 0
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ mode = IF inp.k = "gpt" THEN IF ~Sectors \/ inp.n * inp.ss < 3 * inp.ss + 32768 THEN "rejected" ELSE "primary"
                  ELSE IF ~Sectors \/ inp.n < 2 THEN "rejected" ELSE "table"
        /\ at = IF inp.k = "gpt" THEN 1 ELSE 0
        /\ tried = {} /\ out = <<>> /\ how = 0

(* ---- the reader of a GUID table ---- *)
Found == { i \in 1..Len(inp.hs) : inp.hs[i].at = at /\ inp.hs[i].sig }
Head1 == inp.hs[CHOOSE i \in Found : TRUE]
Bytes1(h) == h.cnt * h.es
Valid(h) == /\ h.rev # 0 /\ h.hsz >= 92 /\ h.hsz <= inp.ss /\ h.crc
            /\ h.my = h.at /\ h.alt # h.my /\ h.alt # 0
            /\ h.fu >= ((2 * inp.ss) + 16384) \div inp.ss
            /\ h.pel > 1 /\ h.pel < inp.n - 1
            /\ h.es >= 128 /\ h.es % 128 = 0
            /\ (h.pel * inp.ss) + Bytes1(h) <= inp.n * inp.ss
            /\ h.acrc
\* Units of a name up to the first null; nothing if they are not text.
Hi(u) == u >= 55296 /\ u <= 56319
Lo(u) == u >= 56320 /\ u <= 57343
Text(q) == \A i \in 1..Len(q) : (Hi(q[i]) => i < Len(q) /\ Lo(q[IF i < Len(q) THEN i + 1 ELSE i])) /\ (Lo(q[i]) => i > 1 /\ Hi(q[IF i > 1 THEN i - 1 ELSE i]))
Nulls(q) == { i \in 1..Len(q) : q[i] = 0 }
Cut(q) == IF Nulls(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Nulls(q) : \A j \in Nulls(q) : i <= j) - 1)
Name(q) == IF Text(q) THEN Cut(q) ELSE <<>>
Listed(h) == LET q == SelectSeq(inp.arr, LAMBDA e : e.i < h.cnt) IN [j \in 1..Len(q) |-> [i |-> q[j].i, a |-> q[j].a, b |-> q[j].b, nm |-> Name(q[j].nm)]]
Try == /\ mode \in {"primary", "named", "last"}
       /\ IF Found # {} /\ Valid(Head1)
          THEN /\ out' = Listed(Head1) /\ mode' = "over" /\ UNCHANGED at
               /\ how' = CASE mode = "primary" -> 0 [] mode = "last" -> 1 [] mode = "named" -> 2
          ELSE /\ mode' = CASE mode = "primary" /\ Found # {} -> "named" [] mode = "last" -> "rejected" [] OTHER -> "last"
               /\ at' = IF mode = "primary" /\ Found # {} THEN Head1.alt ELSE inp.n - 1
               /\ UNCHANGED <<out, how>>
       /\ tried' = tried \cup {at} /\ UNCHANGED <<cid, inp>>

(* ---- the reader of a classic table ---- *)
\* out: the primary ones [lg FALSE], then those of the chains. at: 4 * (entry of the table) while no chain is followed.
Entry(t) == [t |-> t.t, s |-> t.s, z |-> t.z, f |-> t.f, lg |-> FALSE]
Used == SelectSeq(inp.tab, LAMBDA t : t.t # 0)
Table == /\ mode = "table" /\ out' = [i \in 1..Len(Used) |-> Entry(Used[i])] /\ mode' = "pick" /\ at' = 0 /\ UNCHANGED <<cid, inp, tried, how>>
\* tried holds pairs: <<"e", i>> an entry of the table followed, and sectors.
Todo == { i \in 1..Len(Used) : Used[i].t \in Ext /\ Used[i].s # 0 /\ <<"e", i>> \notin tried }
Pick == /\ mode = "pick"
        /\ IF Todo = {} THEN mode' = "over" /\ UNCHANGED <<at, tried>>
           ELSE LET i == CHOOSE x \in Todo : \A y \in Todo : x <= y IN
                tried' = tried \cup {<<"e", i>>} /\ at' = [first |-> Used[i].s, now |-> Used[i].s] /\ mode' = "chain"
        /\ UNCHANGED <<cid, inp, out, how>>
Here == { i \in 1..Len(inp.ebrs) : inp.ebrs[i].at = at.now /\ inp.ebrs[i].sig /\ at.now < inp.n }
Follow == /\ mode = "chain"
          /\ IF <<"s", at.now>> \in tried \/ Here = {}
             THEN mode' = "pick" /\ at' = 0 /\ tried' = tried \cup {<<"s", at.now>>} /\ UNCHANGED out
             ELSE LET r == inp.ebrs[CHOOSE i \in Here : TRUE] IN
                  /\ out' = IF r.t = 0 THEN out ELSE Append(out, [t |-> r.t, s |-> at.now + r.rel, z |-> r.z, f |-> r.f, lg |-> TRUE])
                  /\ tried' = tried \cup {<<"s", at.now>>}
                  /\ IF r.nxt = 0 THEN mode' = "pick" /\ at' = 0 ELSE mode' = "chain" /\ at' = [at EXCEPT !.now = at.first + r.nxt]
          /\ UNCHANGED <<cid, inp, how>>

Over == mode \in {"over", "rejected"}
Done == Over /\ UNCHANGED vars
Next == Try \/ Table \/ Pick \/ Follow \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [st |-> mode, backup |-> how, parts |-> out]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(mode \in {"over", "rejected"})
\* A table that is used is valid, and a valid primary one is never passed over.
Trusted == (inp.k = "gpt" /\ mode = "over") => \E i \in 1..Len(inp.hs) : inp.hs[i].at = at /\ inp.hs[i].sig /\ Valid(inp.hs[i])
Primary == (inp.k = "gpt" /\ mode \in {"named", "last", "rejected"}) => ~ \E i \in 1..Len(inp.hs) : inp.hs[i].at = 1 /\ inp.hs[i].sig /\ Valid(inp.hs[i]) /\ inp.n * inp.ss >= 3 * inp.ss + 32768 /\ Sectors
\* No sector gives two logical partitions, and every extended entry is followed.
Once == inp.k = "mbr" => \A i, j \in 1..Len(out) : (i # j /\ out[i].lg /\ out[j].lg) => out[i] # out[j]
Each == (inp.k = "mbr" /\ mode = "over") => \A i \in 1..Len(Used) : (Used[i].t \in Ext /\ Used[i].s # 0) => <<"s", Used[i].s>> \in tried
=============================================================================
