------------------------------ MODULE FrsAttrs ------------------------------
(* One file record segment: header validation and the walk over its attribute records.   *)
(* The (already fixed-up) bytes are given as segments over a known background.             *)
EXTENDS Emit, Bytes, Utf16, Pairs, FiniteSets

CONSTANTS Mode      \* "none", "res" or "nonres": which exhaustive family to explore

VARIABLES cid, inp, pos, attrs, st
vars == <<cid, inp, pos, attrs, st>>

(* ---- memory ---- *)
Back(a) == ((a * 7) + (a \div 256)) % 251
Covers(s, a) == a >= s.a /\ a < s.a + Len(s.b)
ByteAt(a) == LET S == { k \in 1..Len(inp.segs) : Covers(inp.segs[k], a) }
           IN IF S = {} THEN Back(a) ELSE LET k == CHOOSE m \in S : \A q \in S : q <= m IN inp.segs[k].b[a - inp.segs[k].a + 1]
BytesAt(a, n) == [k \in 1..n |-> ByteAt(a + k - 1)]
U16(a) == ByteAt(a) + (256 * ByteAt(a + 1))
\* 32-bit fields saturate at 2^30, far beyond any valid value here.
U32(a) == IF ByteAt(a + 3) >= 64 THEN 1073741824 ELSE U16(a) + (65536 * U16(a + 2))
Units(a, n) == [k \in 1..n |-> U16(a + (2 * (k - 1)))]
SignFlip(w) == [w EXCEPT ![Len(w)] = (w[Len(w)] + 128) % 256]
SLess(x, y) == WCmp(SignFlip(x), SignFlip(y)) < 0

(* ---- exhaustive families: one attribute record followed by an end marker ---- *)
LE16(v) == <<v % 256, v \div 256>>
LE32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
LE64(v) == LE32(v) \o <<0, 0, 0, 0>>
NEG1 == <<255, 255, 255, 255, 255, 255, 255, 255>>
Common(rl, form, nl, no) == LE32(128) \o LE32(rl) \o <<form, nl>> \o LE16(no) \o <<0, 0, 3, 0>>
EndMark == <<255, 255, 255, 255, 0, 0, 0, 0>>
Hdr == [size |-> 1024, decl |-> 1024, sig |-> "FILE", uoff |-> 48, fao |-> 56, lsn |-> LE64(77), seq |-> 3, links |-> 1, flags |-> 1, base |-> LE64(0), num |-> <<0, 0, 9, 0, 0, 0>>, sug |-> 4, nexti |-> 5]
Case(rec, rl, d) == Hdr @@ [ffb |-> 56 + rl + d, segs |-> << [a |-> 56, b |-> rec], [a |-> 56 + rl, b |-> EndMark] >>]
SmallRes == { Case(Common(rl, form, nl, no) \o LE32(vl) \o LE16(vo) \o <<0, 0>> \o [k \in 1..24 |-> k], rl, d) :
               rl \in {24, 32, 40, 44}, form \in {0, 2}, nl \in {0, 1, 3}, no \in {0, 22, 24, 25, 26, 32}, vl \in {0, 1, 8, 9, 16, 17}, vo \in {0, 8, 16, 24, 26, 32, 40}, d \in {-1, 0, 8} }
SmallShort == { Hdr @@ [fao |-> f, ffb |-> f + g, decl |-> de, segs |-> << [a |-> f, b |-> s] >>] :
               f \in {40, 52, 56, 60, 64, 992, 1000, 1008, 1016, 1020}, g \in {-1, 0, 1, 4, 8, 16, 24, 100}, de \in {1024, 1023, 4096}, s \in { EndMark, Common(8, 0, 0, 0), Common(0, 0, 0, 0), Common(16, 0, 0, 0) } }
\* a record that leaves just a few bytes of the segment, and a first free byte before the first attribute
SmallTail == { Hdr @@ [ffb |-> f, segs |-> << [a |-> 56, b |-> Common(e - 56, 0, 0, 0) \o LE32(e - 88) \o LE16(24) \o <<0, 0>>], [a |-> e, b |-> s] >>] :
               e \in {1000, 1008, 1016, 1024}, f \in {1008, 1009, 1016, 1017, 1020, 1024}, s \in { EndMark, <<16, 0, 0, 0, 8, 0, 0, 0>>, <<255, 255, 255, 127, 255, 255, 255, 255>>, <<255, 255, 254, 255, 16, 0, 0, 0>> } }
             \cup { Hdr @@ [ffb |-> f, segs |-> << [a |-> 56, b |-> EndMark] >>] : f \in 38..57 }
             \cup { [(Hdr @@ [ffb |-> 64, segs |-> << [a |-> 96, b |-> EndMark] >>]) EXCEPT !.size = z, !.decl = d, !.fao = 96] : z \in {512, 1024, 1536, 2048, 3072, 4096, 8192}, d \in {512, 1024, 2048, 4096, 8192} }
SmallNon == { Case(Common(rl, 1, nl, no) \o lo \o hi \o LE16(mp) \o <<0, 0, 0, 0, 0, 0>> \o al \o fs \o vd \o pr, rl, 8) :
               rl \in {64, 72, 80}, nl \in {0, 2}, no \in {0, 62, 64, 68}, lo \in {LE64(0), LE64(5), NEG1}, hi \in {LE64(0), LE64(7)}, mp \in {0, 63, 64, 67, 68, 71, 72, 79},
               al \in {LE64(8192), LE64(100)}, fs \in {LE64(100), NEG1}, vd \in {LE64(100), LE64(101), NEG1}, pr \in { <<17, 3, 5, 0, 17, 3, 5, 0, 17, 3, 5, 0>> , <<17, 2, 9, 17, 3, 5, 1, 0, 0, 0, 0, 0>> } }
Small == CASE Mode = "res" -> SmallRes \cup SmallShort \cup SmallTail [] Mode = "nonres" -> SmallNon [] OTHER -> {}

Init ==
  /\ \/ cid = 0 /\ inp \in Small
     \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
  /\ pos = 0 /\ attrs = <<>> /\ st = "open"

HeaderOK ==
  /\ inp.sig \in {"FILE", "BAAD", "CHKD"}
  /\ inp.size \in {1024, 4096} /\ inp.decl \in {1024, 4096} /\ inp.decl <= inp.size
  /\ inp.ffb >= 42 /\ inp.ffb <= inp.decl
  /\ inp.fao >= 8 /\ inp.fao % 8 = 0 /\ inp.fao <= inp.decl - 24
  /\ inp.fao >= inp.uoff + 2 * ((inp.size \div 512) + 1)

Open == /\ st = "open"
        /\ IF HeaderOK THEN st' = "walk" /\ pos' = inp.fao ELSE st' = "reject" /\ UNCHANGED pos
        /\ UNCHANGED <<cid, inp, attrs>>

Left == inp.size - pos
IsEnd == Left >= 4 /\ BytesAt(pos, 4) = <<255, 255, 255, 255>>

RL == U32(pos + 4)
Form == ByteAt(pos + 8)
NL == ByteAt(pos + 9)
NO == U16(pos + 10)
NameOK == NL > 0 => /\ NO % 2 = 0 /\ (Form = 1 => NO >= 64) /\ (Form = 0 => NO >= 24)
                    /\ pos + NO + (2 * NL) <= inp.ffb
LenOK == RL >= 8 /\ RL % 8 = 0 /\ pos + RL <= inp.ffb

\* resident: value length and offset
VL == U32(pos + 16)
VO == U16(pos + 20)
ResOK == /\ Left >= 24
         /\ VO >= 8 /\ VO % 8 = 0 /\ VO + VL <= RL
         /\ (NL = 0 => VO >= 24) /\ (NL > 0 => VO >= NO + (2 * NL))
\* nonresident: first and last cluster, mapping pairs, sizes
Lo == BytesAt(pos + 16, 8)
Hi == BytesAt(pos + 24, 8)
MP == U16(pos + 32)
Alloc == BytesAt(pos + 40, 8)
FSize == BytesAt(pos + 48, 8)
Valid == BytesAt(pos + 56, 8)
NonOK == /\ Left >= 64
         /\ WCmp(Lo, Hi) <= 0
         /\ MP < RL /\ (NL = 0 => MP >= 64) /\ (NL > 0 => MP >= NO + (2 * NL))
         /\ ~WNeg(Valid) /\ ~SLess(FSize, Valid) /\ ~SLess(Alloc, FSize)
         /\ PairsOK(BytesAt(pos + MP, RL - MP))

Name == IF NL = 0 THEN <<-1>> ELSE Decode16(Units(pos + NO, NL))
Step ==
  /\ st = "walk"
  /\ IF pos >= inp.ffb THEN st' = "noend" /\ UNCHANGED <<pos, attrs>>
     ELSE IF IsEnd THEN st' = "end" /\ UNCHANGED <<pos, attrs>>
     ELSE IF Left < 16 \/ ~LenOK \/ ~NameOK THEN st' = "err" /\ UNCHANGED <<pos, attrs>>
     ELSE IF Form = 0 /\ ResOK THEN
        /\ attrs' = Append(attrs, [res |-> TRUE, tc |-> BytesAt(pos, 4), name |-> Name, data |-> BytesAt(pos + VO, VL), ext |-> <<>>])
        /\ pos' = pos + RL /\ UNCHANGED st
     ELSE IF Form = 1 /\ NonOK THEN
        /\ attrs' = Append(attrs, [res |-> FALSE, tc |-> BytesAt(pos, 4), name |-> Name, data |-> BytesAt(pos + MP, RL - MP), ext |-> <<Lo, Hi, FSize>>])
        /\ pos' = pos + RL /\ UNCHANGED st
     ELSE st' = "err" /\ UNCHANGED <<pos, attrs>>
  /\ UNCHANGED <<cid, inp>>

Over == st \notin {"open", "walk"}
Done == Over /\ UNCHANGED vars
Next == Open \/ Step \/ Done
Spec == Init /\ [][Next]_vars

HeadObs == IF st = "reject" THEN <<>> ELSE
   << inp.lsn, <<inp.seq, inp.links, inp.flags, inp.fao, inp.nexti>>, inp.base, <<IF inp.sig = "FILE" THEN 0 ELSE 1, IF WIsZero(inp.base) THEN 1 ELSE 0, inp.flags % 2>>,
      IF inp.uoff < 48 THEN <<inp.sug>> ELSE inp.num >>
Obs == [st |-> st, head |-> HeadObs, attrs |-> attrs, slack |-> IF st = "end" THEN inp.size - (pos + 4) ELSE -1]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* The walk stays between the first attribute and the first free byte, moving forward.
InBounds == st # "open" /\ st # "reject" => pos >= inp.fao /\ (attrs # <<>> => pos <= inp.ffb)
Advances == Len(attrs) * 8 <= pos
=============================================================================
