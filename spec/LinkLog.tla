------------------------------ MODULE LinkLog ------------------------------
(* The log of the link tracking service (tracking.log): a header sector and log sectors, each a   *)
(* row of entries of 124 bytes with a footer at its end. It is read sector by sector, entry by     *)
(* entry; entries not in use are left out, an entry of another type ends the reading.              *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Family

VARIABLES cid, inp, size, sec, ent, st, out, foots
vars == <<cid, inp, size, sec, ent, st, out, foots>>
\* inp   [size of sectors, ask: the size given (0: not told), sig: is the header signed, head: its bytes 17..132, sectors: [e: entries, f: 16 bytes], tail: bytes after the last whole sector]
\* size  the sector size in effect
None == <<-1>>
Rep(v, n) == [i \in 1..n |-> v]
Fits(z) == IF z = 512 THEN 4 ELSE 32

(* ---- inputs that are enumerated ---- *)
Ent(t, k) == <<1, 0, 0, 0, 2, 0, 0, 0, t, 0, 0, 0, k, 0, 0, 0, 9, 0, 0, 0>> \o [i \in 1..16 |-> i + k] \o [i \in 1..16 |-> 20 + i] \o [i \in 1..16 |-> 40 + k] \o <<72, 79, 83, 84, 48 + k, 0>> \o Rep(120, 10) \o Rep(3, 16) \o Rep(17, 16) \o <<k, 2, 212, 1, 7, 0, 0, 0>>
Wide(t, k, n) == LET z == n IN [i \in 1..z |-> Ent(IF i = k THEN t ELSE 1, i)]
HeadBytes == [i \in 1..116 |-> (i * 7) % 251]
Foot(k) == <<k, 0, 0, 0, k + 1>> \o Rep(0, 11)
Log(z, a, s, t) == [size |-> z, ask |-> a, sig |-> TRUE, head |-> HeadBytes, sectors |-> s, tail |-> t]
Row(ts) == [i \in 1..Len(ts) |-> Ent(ts[i], i)]
Set(i, j, v, e) == [e EXCEPT ![j] = v]
Small == CASE Scope = "none" -> FALSE
           \* Every filling of a sector, one or two of them, with and without a tail.
           [] Family = "types" -> \/ \E ts \in [1..4 -> {0, 1, 2, 3}], n \in 0..1, a \in {0, 512}, t \in {0, 1, 124, 511} : (Scope = "quick" => t \in {0, 124} /\ (a = 0 => ts[1] # 0)) /\ (a = 0 /\ ts[1] = 0 => n = 1)
                                        /\ inp = Log(512, a, IF n = 0 THEN <<[e |-> Row(ts), f |-> Foot(3)]>> ELSE <<[e |-> Row(<<2, 1, 2, 2>>), f |-> Foot(1)], [e |-> Row(ts), f |-> Foot(7)], [e |-> Row(<<1, 1, 2, 1>>), f |-> Foot(9)]>>, t)
           [] Family = "wide" -> \E k \in {1, 2, 31, 32}, t \in {1, 2, 3}, a \in {0, 4096}, n \in {0, 1, 2}, x \in {0, 16, 4095} : inp = Log(4096, a, [i \in 1..n |-> [e |-> Wide(t, k, 32), f |-> Foot(i)]], x)
           [] Family = "odd" -> \E z \in {512, 4096}, a \in {0, 1024, 256, 4096, 512}, s \in BOOLEAN : (a \in {0, z, 256} \/ (a = 1024 /\ z = 4096)) /\ inp = [Log(z, a, <<>>, 0) EXCEPT !.sig = s]
           \* Every byte of an entry.
           [] Family = "bytes" -> \E j \in (1..8) \cup (13..124), v \in {0, 16, 17, 31, 126, 127, 128, 129, 191, 192, 255} : (Scope = "quick" => j > 20 \/ v \in {0, 255}) /\ inp = Log(512, 512, <<[e |-> <<Set(1, j, v, Ent(2, 1)), Ent(1, 2), Ent(2, 3), Ent(2, 4)>>, f |-> Foot(1)]>>, 0)
Init == /\ (cid = 0 /\ Small) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ size = 0 /\ sec = 1 /\ ent = 0 /\ st = "open" /\ out = <<>> /\ foots = <<>>

(* ---- an entry ---- *)
Zeros(q) == { i \in 1..Len(q) : q[i] = 0 }
UpToNull(q) == IF Zeros(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Zeros(q) : \A j \in Zeros(q) : i <= j) - 1)
\* A text in an unknown 8-bit encoding: it is plain, or may be read in two ways, or in one only.
Reading(q) == IF \A i \in 1..Len(q) : q[i] < 128 THEN "plain" ELSE IF \E i \in 1..Len(q) : q[i] \in {129, 141, 143, 144, 157} THEN "dos" ELSE "two"
\* The time of an identifier made from time: 60 bits.
Made(g) == IF g[8] \div 16 = 1 /\ g[9] \in 128..191 THEN SubSeq(g, 1, 7) \o <<g[8] % 16>> ELSE None
Decoded(e) == [next |-> SubSeq(e, 1, 4), prev |-> SubSeq(e, 5, 8), type |-> e[9], index |-> SubSeq(e, 13, 16), object |-> SubSeq(e, 21, 36), volume |-> SubSeq(e, 37, 52), droid |-> SubSeq(e, 53, 68), host |-> UpToNull(SubSeq(e, 69, 84)), reading |-> Reading(UpToNull(SubSeq(e, 69, 84))),
              bvolume |-> SubSeq(e, 85, 100), bobject |-> SubSeq(e, 101, 116), from |-> Rep(0, 4) \o SubSeq(e, 117, 120), to |-> Rep(255, 4) \o SubSeq(e, 117, 120), made |-> <<Made(SubSeq(e, 21, 36)), Made(SubSeq(e, 53, 68)), Made(SubSeq(e, 101, 116))>>]
Type(e) == IF e[10] + e[11] + e[12] = 0 THEN e[9] ELSE 255

Sectors == IF size = inp.size THEN Len(inp.sectors) ELSE 0
\* A sector of 4096 bytes is told by what follows the header.
Open == /\ st = "open"
        /\ size' = IF inp.ask # 0 THEN inp.ask ELSE inp.size
        /\ st' = "go" /\ UNCHANGED <<cid, inp, sec, ent, out, foots>>
Enter == /\ st = "go" /\ ent = 0
         /\ IF sec > Sectors THEN st' = "end" /\ UNCHANGED <<ent, foots>> ELSE ent' = 1 /\ foots' = Append(foots, SubSeq(inp.sectors[sec].f, 1, 8)) /\ UNCHANGED st
         /\ UNCHANGED <<cid, inp, size, sec, out>>
Read == /\ st = "go" /\ ent > 0
        /\ IF ent > Fits(size) THEN sec' = sec + 1 /\ ent' = 0 /\ UNCHANGED <<st, out>>
           ELSE LET e == inp.sectors[sec].e[ent] IN
                CASE Type(e) = 2 -> out' = Append(out, Decoded(e)) /\ ent' = ent + 1 /\ UNCHANGED <<sec, st>>
                  [] Type(e) = 1 -> ent' = ent + 1 /\ UNCHANGED <<sec, st, out>>
                  [] OTHER -> st' = "unsupported" /\ UNCHANGED <<sec, ent, out>>
        /\ UNCHANGED <<cid, inp, size, foots>>
Over == st \in {"end", "unsupported"}
Done == Over /\ UNCHANGED vars
Next == Open \/ Enter \/ Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Header == IF ~inp.sig \/ size \notin {512, 4096} THEN [ok |-> FALSE, flags |-> <<>>, span |-> <<>>, host |-> <<>>, volume |-> <<>>]
          ELSE [ok |-> TRUE, flags |-> SubSeq(inp.head, 5, 8), span |-> SubSeq(inp.head, 13, 24), host |-> UpToNull(SubSeq(inp.head, 25, 40)), volume |-> SubSeq(inp.head, 41, 56)]
Obs == [st |-> st, out |-> out, foots |-> foots, head |-> Header]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>(st \in {"end", "unsupported"})
\* Every entry in use is reported once and in order, up to one that is not understood.
RECURSIVE Used(_, _)
Used(i, j) == IF i > Sectors THEN <<>> ELSE IF j > Fits(inp.size) THEN Used(i + 1, 1)
              ELSE LET e == inp.sectors[i].e[j] IN IF Type(e) \notin {1, 2} THEN <<>> ELSE (IF Type(e) = 2 THEN <<Decoded(e)>> ELSE <<>>) \o Used(i, j + 1)
Exact == Over => out = Used(1, 1)
=============================================================================
