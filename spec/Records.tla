------------------------------ MODULE Records -------------------------------
(* Records with fields at fixed places: the value of a field is the one stored at its own place,    *)
(* whatever the other bytes are, whatever was asked before, and there is none when the record ends    *)
(* before the field does (for those fields which shorter versions of a record do not have).            *)
EXTENDS Emit, Bytes, Utf16, FiniteSets

CONSTANT Scope

VARIABLES cid, inp, at, seen
vars == <<cid, inp, at, seen>>
\* inp   [k: kind of record; b: its bytes; x: what is told along with it (a suggested number, the offset of a part)]
\* at    the next field to be read
\* seen  the values of the fields read so far
None == <<-1>>

F(n, o, w) == [n |-> n, o |-> o, w |-> w, opt |-> FALSE]
O(n, o, w) == [n |-> n, o |-> o, w |-> w, opt |-> TRUE]
Four(o) == << F("ctime", o, 8), F("mtime", o + 8, 8), F("etime", o + 16, 8), F("atime", o + 24, 8) >>
Dup(o) == Four(o) \o << F("alloc", o + 32, 8), F("size", o + 40, 8), F("attributes", o + 48, 4), F("packed", o + 52, 2), F("difference", o + 54, 2) >>
IndexHead(o) == << F("first", o, 4), F("free", o + 4, 4), F("room", o + 8, 4), F("ihflags", o + 12, 1) >>
Flags72 == << F("case", 40, 1), F("reserve", 41, 1), F("folder", 40, 1), F("trust", 40, 1) >>

\* The fields of each kind of record, in the order in which they are read here.
Layout == [
  frs  |-> << F("lsn", 8, 8), F("sequence", 16, 2), F("links", 18, 2), F("attribute", 20, 2), F("flags", 22, 2), F("inuse", 22, 1), F("free", 24, 4), F("size", 28, 4), F("base", 32, 8), F("isbase", 32, 8), F("instance", 40, 2), F("number", 42, 6) >>,
  si   |-> Four(0) \o << F("attributes", 32, 4), F("versions", 36, 4), F("version", 40, 4), F("extra", 40, 4) >> \o Flags72 \o << F("class", 44, 4), O("owner", 48, 4), O("security", 52, 4), O("quota", 56, 8), O("usn", 64, 8) >>,
  sip  |-> << O("ctime", 0, 8), O("mtime", 8, 8), O("etime", 16, 8), O("atime", 24, 8) >>,
  di   |-> Dup(0),
  fn   |-> << F("parent", 0, 8) >> \o Dup(8) \o << F("length", 64, 1), F("flags", 65, 1), F("name", 66, 0) >>,
  oid  |-> << O("id", 0, 16), F("rest", 16, 0) >>,
  vi   |-> << F("major", 8, 1), F("minor", 9, 1), F("flags", 10, 2) >>,
  vn   |-> << F("name", 0, 0) >>,
  al   |-> << F("compacted", 26, 6) >>,
  ir   |-> << F("type", 0, 4), F("rule", 4, 4), F("bytes", 8, 4), F("blocks", 12, 4) >> \o IndexHead(16),
  ib   |-> << F("lsn", 8, 8), F("block", 16, 8) >> \o IndexHead(24),
  ie   |-> << F("reference", 0, 8), F("length", 8, 2), F("alength", 10, 2), F("flags", 12, 2) >>,
  rp   |-> << F("tag", 0, 4), F("microsoft", 3, 1), F("dlength", 4, 2), F("guid", 8, 16), F("buffer", 8, 0) >>,
  eai  |-> << F("packed", 0, 2), F("need", 2, 2), F("unpacked", 4, 4) >>,
  lxb  |-> << F("mode", 4, 4), F("uid", 8, 4), F("gid", 12, 4), F("rdev", 16, 4), F("autime", 20, 20), F("mutime", 24, 24), F("chutime", 28, 28) >>,
  u2   |-> << F("length", 0, 4), F("major", 4, 2), F("minor", 6, 2), F("reference", 8, 8), F("parent", 16, 8), F("usn", 24, 8), F("time", 32, 8), F("reason", 40, 4), F("source", 44, 4), F("security", 48, 4), F("attributes", 52, 4), F("nlength", 56, 2), F("noffset", 58, 2) >>,
  u3   |-> << F("length", 0, 4), F("major", 4, 2), F("minor", 6, 2), F("reference", 8, 16), F("parent", 24, 16), F("usn", 40, 8), F("time", 48, 8), F("reason", 56, 4), F("source", 60, 4), F("security", 64, 4), F("attributes", 68, 4), F("nlength", 72, 2), F("noffset", 74, 2) >>,
  u4   |-> << F("length", 0, 4), F("major", 4, 2), F("minor", 6, 2), F("reference", 8, 16), F("parent", 24, 16), F("usn", 40, 8), F("reason", 48, 4), F("source", 52, 4), F("remaining", 56, 4), F("extents", 60, 2), F("esize", 62, 2) >>,
  lrh  |-> << F("lsn", 0, 8), F("previous", 8, 8), F("undonext", 16, 8), F("length", 24, 4), F("client", 28, 4), F("type", 32, 4), F("transaction", 36, 4), F("flags", 40, 2) >>,
  lp   |-> << F("last", 8, 8), F("offset11", 8, 8), F("flags", 16, 4), F("count", 20, 2), F("position", 22, 2), F("next", 24, 2), F("end", 32, 8), F("offset2x", 60, 4) >>,
  rs   |-> << F("chkdsk", 8, 8), F("syspage", 16, 4), F("logpage", 20, 4), F("roffset", 24, 2), F("minor", 26, 2), F("major", 28, 2) >>,
  ra   |-> << F("current", 0, 8), F("clients", 8, 2), F("freelist", 10, 2), F("uselist", 12, 2), F("flags", 14, 2), F("bits", 16, 4), F("length", 20, 2), F("array", 22, 2), F("fsize", 24, 8), F("lastlength", 32, 4), F("header", 36, 2), F("data", 38, 2), F("revision", 40, 4) >>,
  cr   |-> << F("oldest", 0, 8), F("restart", 8, 8), F("prev", 16, 2), F("next", 18, 2), F("sequence", 20, 2), F("nlength", 28, 4), F("name", 32, 0) >>,
  nra  |-> << F("major", 0, 4), F("minor", 4, 4), F("start", 8, 8), F("oatlsn", 16, 8), F("anlsn", 24, 8), F("dplsn", 32, 8), F("ttlsn", 40, 8), F("oatlen", 48, 4), F("anlen", 52, 4), F("dplen", 56, 4), F("ttlen", 60, 4),
             O("usnstart", 64, 8), O("lastlsn", 72, 8), O("cluster", 80, 4), O("journal", 88, 8), O("usnbase", 96, 8), O("oldest", 104, 8) >>,
  nlr  |-> << F("redo", 0, 2), F("undo", 2, 2), F("redooff", 4, 2), F("redolen", 6, 2), F("undooff", 8, 2), F("undolen", 10, 2), F("target", 12, 2), F("lcns", 14, 2), F("recoff", 16, 2), F("attroff", 18, 2), F("cbo", 20, 2), F("tbs", 22, 2), F("vcn", 24, 8), F("lcnlist", 32, 0), F("redodata", 32, 0), F("undodata", 32, 0) >>,
  oa1  |-> << F("free", 0, 4), F("ibuffer", 4, 4), F("type", 8, 4), F("reference", 16, 8), F("lsn", 24, 8) >>,
  oa0  |-> << F("free", 0, 4), F("index", 4, 4), F("reference", 8, 8), F("lsn", 16, 8), F("type", 28, 4), F("ibuffer", 40, 4) >>,
  an   |-> << F("index", 0, 2), F("length", 2, 2), F("name", 4, 0) >>
]
Kinds == DOMAIN Layout

B(o, w) == SubSeq(inp.b, o + 1, Min(o + w, Len(inp.b)))
W16(o) == inp.b[o + 1] + (256 * inp.b[o + 2])
Units(s) == Decode16([i \in 1..(Len(s) \div 2) |-> s[2 * i - 1] + (256 * s[2 * i])])
Bit(x, n) == (x \div (2 ^ n)) % 2
Microsoft == inp.b[4] >= 128
\* Seconds and nanoseconds lie apart: 3 numbers of nanoseconds, then 3 of seconds.
Unix(i) == B(32 + (8 * i), 8) \o B(20 + (4 * i), 4)

\* The value of field f of the record.
Value(k, f) ==
  CASE f.opt /\ (f.o + f.w > Len(inp.b) \/ (k = "sip" /\ f.o < inp.x)) -> None
    [] k = "frs" /\ f.n = "inuse" -> << Bit(inp.b[23], 0) >>
    [] k = "frs" /\ f.n = "isbase" -> << IF WIsZero(B(32, 8)) THEN 1 ELSE 0 >>
    [] k = "frs" /\ f.n = "number" -> IF W16(4) < 48 THEN WZext(<<inp.x % 256, inp.x \div 256>>, 6) ELSE B(44, 4) \o B(42, 2)
    [] k = "si" /\ f.n = "case" -> << Bit(inp.b[41], 0) >>
    [] k = "si" /\ f.n = "folder" -> << (inp.b[41] \div 2) % 8 >>
    [] k = "si" /\ f.n = "trust" -> << (inp.b[41] \div 16) % 4 >>
    [] k = "si" /\ f.n = "reserve" -> << inp.b[42] % 16 >>
    [] k = "fn" /\ f.n = "name" -> Units(B(66, 2 * inp.b[65]))
    [] k = "vn" /\ f.n = "name" -> Units(inp.b)
    [] k = "cr" /\ f.n = "name" -> Units(B(32, inp.b[29]))
    [] k = "an" /\ f.n = "name" -> Units(B(4, W16(2)))
    [] k = "oid" /\ f.n = "rest" -> B(16, Len(inp.b))
    [] k = "al" /\ f.n = "compacted" -> IF B(26, 2) = <<68, 67>> /\ Len(inp.b) >= 32 THEN B(28, 4) ELSE None
    [] k = "rp" /\ f.n = "microsoft" -> << IF Microsoft THEN 1 ELSE 0 >>
    [] k = "rp" /\ f.n = "guid" -> IF Microsoft THEN None ELSE B(8, 16)
    [] k = "rp" /\ f.n = "buffer" -> B(IF Microsoft THEN 8 ELSE 24, W16(4))
    [] k = "lxb" /\ f.n = "autime" -> Unix(0)
    [] k = "lxb" /\ f.n = "mutime" -> Unix(1)
    [] k = "lxb" /\ f.n = "chutime" -> Unix(2)
    [] k = "lp" /\ f.n = "offset2x" -> IF W16(4) + (2 * W16(6)) <= 60 THEN B(60, 4) ELSE None
    [] k = "nlr" /\ f.n = "lcnlist" -> IF 32 + (8 * W16(14)) > Len(inp.b) THEN <<-2>> ELSE B(32, 8 * W16(14))
    [] k = "nlr" /\ f.n = "redooff" /\ W16(4) \in 1..31 -> <<-2>>
    [] k = "nlr" /\ f.n = "undooff" /\ W16(8) \in 1..31 -> <<-2>>
    [] k = "nlr" /\ f.n = "redodata" -> IF W16(6) = 0 THEN <<>> ELSE IF W16(4) \in 1..31 THEN <<-2>> ELSE B(W16(4), W16(6))
    [] k = "nlr" /\ f.n = "undodata" -> IF W16(10) = 0 THEN <<>> ELSE IF W16(8) \in 1..31 THEN <<-2>> ELSE B(W16(8), W16(10))
    [] OTHER -> B(f.o, f.w)

(* ---- inputs that are enumerated: one byte of a record differs from all others ---- *)
Size == [ frs |-> 48, si |-> 72, sip |-> 32, di |-> 56, fn |-> 70, oid |-> 64, vi |-> 12, vn |-> 8, al |-> 32, ir |-> 32, ib |-> 40, ie |-> 16, rp |-> 40, eai |-> 8, lxb |-> 56, u2 |-> 64, u3 |-> 80, u4 |-> 80,
          lrh |-> 48, lp |-> 64, rs |-> 30, ra |-> 44, cr |-> 40, nra |-> 112, nlr |-> 48, oa1 |-> 40, oa0 |-> 44, an |-> 12 ]
\* What must stand in a record for it to be one.
Fixed == [k \in Kinds |->
  CASE k = "frs" -> (4 :> 48) @@ (5 :> 0) @@ (6 :> 3) @@ (7 :> 0) @@ (20 :> 56) @@ (21 :> 0) @@ (24 :> 200) @@ (25 :> 0) @@ (26 :> 0) @@ (27 :> 0) @@ (28 :> 0) @@ (29 :> 4) @@ (30 :> 0) @@ (31 :> 0)
    [] k = "fn" -> (64 :> 2)
    [] k = "lxb" -> (0 :> 0) @@ (1 :> 0) @@ (2 :> 1) @@ (3 :> 0)
    [] k = "u2" -> (0 :> 64) @@ (1 :> 0) @@ (2 :> 0) @@ (3 :> 0) @@ (4 :> 2) @@ (5 :> 0)
    [] k = "u3" -> (0 :> 80) @@ (1 :> 0) @@ (2 :> 0) @@ (3 :> 0) @@ (4 :> 3) @@ (5 :> 0)
    [] k = "u4" -> (0 :> 80) @@ (1 :> 0) @@ (2 :> 0) @@ (3 :> 0) @@ (4 :> 4) @@ (5 :> 0)
    [] k = "lp" -> (4 :> 40) @@ (5 :> 0) @@ (6 :> 9) @@ (7 :> 0)
    [] k = "rs" -> (4 :> 30) @@ (5 :> 0) @@ (6 :> 9) @@ (7 :> 0) @@ (16 :> 0) @@ (17 :> 16) @@ (18 :> 0) @@ (19 :> 0) @@ (20 :> 0) @@ (21 :> 16) @@ (22 :> 0) @@ (23 :> 0) @@ (24 :> 64) @@ (25 :> 0) @@ (26 :> 0) @@ (27 :> 0) @@ (28 :> 2) @@ (29 :> 0)
    [] k = "ra" -> (10 :> 255) @@ (11 :> 255) @@ (12 :> 255) @@ (13 :> 255) @@ (22 :> 48) @@ (23 :> 0)
    [] k = "an" -> (2 :> 6) @@ (3 :> 0)
    [] k = "cr" -> (28 :> 4) @@ (29 :> 0) @@ (30 :> 0) @@ (31 :> 0)
    [] k = "nlr" -> (4 :> 32) @@ (5 :> 0) @@ (6 :> 8) @@ (7 :> 0) @@ (8 :> 40) @@ (9 :> 0) @@ (10 :> 8) @@ (11 :> 0) @@ (14 :> 1) @@ (15 :> 0)
    [] OTHER -> << >>]
Shown(k, p, v, all) == [i \in 1..Size[k] |-> IF i - 1 \in DOMAIN Fixed[k] /\ i - 1 # p THEN Fixed[k][i - 1] ELSE IF i - 1 = p THEN v ELSE all]
\* Fixed places that may still differ, within the record being one.
Free(k) == (0..(Size[k] - 1)) \ (DOMAIN Fixed[k] \cup (IF k \in {"frs", "ib", "lp", "rs"} THEN 0..3 ELSE {}) \cup (IF k \in {"lp", "rs"} THEN 0..7 ELSE {}))
Lens(k) == CASE k = "si" -> 48..72 [] k = "nra" -> 64..112 [] k = "oid" -> 0..20 [] OTHER -> {Size[k]}
Bytes1 == IF Scope = "quick" THEN {1, 128, 255} ELSE {1, 2, 4, 8, 16, 32, 64, 128, 254, 255}
Ramp(k, s) == [i \in 1..Size[k] |-> IF i - 1 \in DOMAIN Fixed[k] THEN Fixed[k][i - 1] ELSE ((i * 7) + s) % 251]
Small == /\ Scope # "none"
         /\ \E k \in Kinds : \E p \in Free(k), v \in Bytes1, all \in {0, 255} :
              /\ (k = "al") => all = 0
              /\ inp = [k |-> k, b |-> Shown(k, p, v, all), x |-> 0]
Cut == /\ Scope # "none"
       /\ \E k \in Kinds, s \in {0, 100} : \E n \in Lens(k) : inp = [k |-> k, b |-> SubSeq(Ramp(k, s), 1, n), x |-> 0]
\* Parts of times: from an offset on, so many bytes.
Partial == /\ Scope # "none"
           /\ \E o \in {0, 8, 16, 24}, n \in 0..40 : o <= n /\ inp = [k |-> "sip", b |-> [i \in 1..n |-> IF i <= o THEN 0 ELSE (i * 5) % 200], x |-> o]
Compacted == /\ Scope # "none"
             /\ \E a \in {68, 67, 0}, c \in {67, 68, 0}, v \in {0, 1, 255} : inp = [k |-> "al", b |-> [i \in 1..32 |-> IF i = 27 THEN a ELSE IF i = 28 THEN c ELSE IF i > 28 THEN v ELSE i], x |-> 0]
Init == /\ (cid = 0 /\ (Small \/ Cut \/ Partial \/ Compacted)) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ at = 1 /\ seen = <<>>
Fields == Layout[inp.k]
Read == /\ at <= Len(Fields)
        /\ seen' = Append(seen, [n |-> Fields[at].n, v |-> Value(inp.k, Fields[at])])
        /\ at' = at + 1 /\ UNCHANGED <<cid, inp>>
Over == at > Len(Fields)
Done == Over /\ UNCHANGED vars
Next == Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [f |-> seen]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>Over
\* Every field is answered once, in order.
Each == Len(seen) = at - 1 /\ \A i \in 1..Len(seen) : seen[i].n = Fields[i].n
\* A value has as many bytes as its place, or there is none, or it is derived.
Whole == \A i \in 1..Len(seen) : Fields[i].opt => (seen[i].v = None \/ Len(seen[i].v) = Fields[i].w)
\* Two fields share bytes only where one is a reading of the other.
Alias == {"inuse", "flags", "isbase", "base", "version", "extra", "case", "folder", "trust", "reserve", "tag", "microsoft", "guid", "buffer", "rest", "name", "last", "offset11", "autime", "mutime", "chutime", "lcnlist", "redodata", "undodata"}
Apart == \A k \in Kinds : \A i, j \in 1..Len(Layout[k]) :
  (i < j /\ ~({Layout[k][i].n, Layout[k][j].n} \subseteq Alias)) => (Layout[k][i].o + Layout[k][i].w <= Layout[k][j].o \/ Layout[k][j].o + Layout[k][j].w <= Layout[k][i].o)
\* With one byte set in a record of zeros, only the fields over it show something.
Local == (Over /\ cid = 0 /\ inp.k \in {"si", "di", "ir", "lrh", "oa0", "oa1", "eai", "u2", "u3", "u4", "nra"} /\ Cardinality({p \in 1..Len(inp.b) : inp.b[p] # 0}) = 1) =>
           \A i \in 1..Len(seen) : (\E j \in 1..Len(seen[i].v) : seen[i].v[j] > 0) => inp.b[(CHOOSE p \in 1..Len(inp.b) : inp.b[p] # 0)] # 0 /\ (CHOOSE p \in 1..Len(inp.b) : inp.b[p] # 0) - 1 \in Fields[i].o..(Fields[i].o + Fields[i].w - 1)
ASSUME Apart
=============================================================================
