---------------------------- MODULE VolumeFields -----------------------------
(* What a volume says of itself in fixed places: boot sectors of FAT, exFAT and NTFS, the sector of  *)
(* free space hints and the first elements of a FAT, the blocks that describe shadow copies. A field  *)
(* is the one stored at its place; a value that cannot stand there is rejected when it is asked for,    *)
(* a part that this version of a structure does not have is absent, a block of another kind is no block.  *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANT Scope

VARIABLES cid, inp, at, seen
vars == <<cid, inp, at, seen>>
\* inp   [k: kind; b: bytes of the structure from its start (where it is long: those of interest)]
None == <<-1>>
Bad == <<-2>>

F(n, o, w) == [n |-> n, o |-> o, w |-> w]
Shadow == << F("guid", 0, 16), F("version", 16, 4), F("type", 20, 4), F("offset1", 24, 8), F("offset2", 32, 8), F("offset3", 40, 8) >>
FatCommon == << F("jump", 0, 3), F("oem", 3, 8), F("sector", 11, 2), F("cluster", 13, 2), F("reserved", 14, 2), F("fats", 16, 1), F("root", 17, 2), F("total16", 19, 2), F("media", 21, 1), F("size16", 22, 2), F("track", 24, 2), F("heads", 26, 2), F("hidden", 28, 4), F("total32", 32, 4) >>
FatTail(o) == << F("drive", o, 1), F("dirtyflags", o + 1, 1), F("dirty", o + 1, 1), F("surface", o + 1, 1), F("extended", o + 2, 1), F("id", o + 3, 4), F("label", o + 7, 11), F("fstype", o + 18, 8), F("total64", o + 18, 8) >>
Layout == [
  f16  |-> FatCommon \o << F("size32", 36, 4), F("active", 40, 1), F("unmirrored", 40, 1), F("fsversion", 42, 2), F("rootcluster", 44, 4), F("fsinfo", 48, 2), F("backup", 50, 2), F("area", 52, 12) >> \o FatTail(36),
  f32  |-> FatCommon \o << F("size32", 36, 4), F("active", 40, 1), F("unmirrored", 40, 1), F("fsversion", 42, 2), F("rootcluster", 44, 4), F("fsinfo", 48, 2), F("backup", 50, 2), F("area", 52, 12) >> \o FatTail(64),
  fsi  |-> << F("lead", 0, 4), F("struc", 4, 4), F("trail", 28, 4), F("count", 8, 4), F("next", 12, 4), F("rest", 16, 12) >>,
  t12  |-> << F("media", 0, 1), F("dirty", 0, 0), F("errors", 0, 0) >>,
  t16  |-> << F("media", 0, 1), F("dirty", 2, 2), F("errors", 2, 2) >>,
  t32  |-> << F("media", 0, 1), F("dirty", 4, 4), F("errors", 4, 4) >>,
  xb   |-> << F("jump", 0, 3), F("partition", 64, 8), F("length", 72, 8), F("fatoffset", 80, 4), F("fatlength", 84, 4), F("heap", 88, 4), F("clusters", 92, 4), F("root", 96, 4), F("serial", 100, 4), F("minor", 104, 1), F("major", 105, 1),
             F("second", 106, 2), F("dirty", 106, 2), F("failure", 106, 2), F("clear", 106, 2), F("sector", 108, 2), F("cluster", 109, 4), F("fats", 110, 1), F("drive", 111, 1), F("percent", 112, 1), F("area", 113, 7) >>,
  xo   |-> << F("guid", 0, 16), F("erase", 16, 4), F("page", 20, 4), F("spare", 24, 4), F("access", 28, 4), F("program", 32, 4), F("rcycle", 36, 4), F("wcycle", 40, 4) >>,
  nb   |-> << F("oem", 3, 8), F("total", 40, 8), F("mft", 48, 8), F("mirror", 56, 8), F("serial", 72, 8), F("code", 0, 2) >>,
  vs   |-> Shadow \o << F("first", 48, 8), F("maximum", 56, 8), F("volume", 64, 16), F("storage", 80, 16), F("local", 64, 32), F("appflags", 96, 8), F("freepre", 104, 8), F("hotpre", 112, 8), F("days", 120, 4), F("protection", 124, 4) >>,
  vc   |-> Shadow \o << F("relative", 24, 8), F("here", 32, 8), F("next", 40, 8) >>,
  v2   |-> << F("type", 0, 4), F("priority", 4, 1), F("size", 8, 8), F("store", 16, 16), F("position", 32, 8), F("flags", 40, 8), F("time", 48, 8), F("unknown", 56, 2) >>,
  v3   |-> << F("type", 0, 4), F("diff", 8, 8), F("store", 16, 16), F("application", 32, 8), F("location", 40, 8), F("bitmap", 48, 8), F("reference", 56, 8), F("allocation", 64, 8), F("previous", 72, 8), F("unknown", 80, 4) >>,
  va   |-> Shadow \o << F("here", 32, 8), F("body", 128, 0) >>,
  vb   |-> Shadow \o << F("here", 32, 8), F("next", 40, 8), F("body", 128, 0) >>,
  vd   |-> Shadow \o << F("here", 32, 8), F("next", 40, 8), F("entries", 128, 0) >>,
  vl   |-> Shadow \o << F("here", 32, 8), F("next", 40, 8), F("places", 128, 0) >>
]
Kinds == DOMAIN Layout
Blocks == {"vs", "vc", "va", "vb", "vd", "vl"}
Code == [vs |-> 1, vc |-> 2, vd |-> 3, va |-> 4, vl |-> 5, vb |-> 6]
Guid == <<107, 135, 8, 56, 118, 193, 72, 78, 183, 174, 4, 4, 110, 108, 199, 82>>
Flash == <<70, 126, 12, 10, 153, 51, 33, 64, 144, 200, 250, 109, 56, 156, 75, 162>>

B(o, w) == SubSeq(inp.b, o + 1, Min(o + w, Len(inp.b)))
Y(o) == inp.b[o + 1]
Bit(x, n) == (x \div (2 ^ n)) % 2
Is(p) == << IF p THEN 1 ELSE 0 >>
\* A multiple of 16384.
Aligned(s) == s[1] = 0 /\ s[2] % 64 = 0
Small4(n) == <<n % 256, n \div 256, 0, 0>>

\* Is there such a structure at all? A structure that is none is not read.
Valid ==
  CASE inp.k \in Blocks -> /\ B(0, 16) = Guid /\ B(20, 4) = Small4(Code[inp.k])
                           /\ inp.k = "vs" => B(24, 8) = <<0, 30, 0, 0, 0, 0, 0, 0>> /\ B(32, 8) = B(24, 8) /\ WIsZero(B(40, 8))
                           /\ inp.k = "vc" => Aligned(B(24, 8))
    [] inp.k = "v2" -> B(0, 4) = Small4(2) /\ ~WIsZero(B(8, 8))
    [] inp.k = "v3" -> B(0, 4) = Small4(3)
    [] inp.k = "fsi" -> B(0, 4) = <<82, 82, 97, 65>> /\ B(4, 4) = <<114, 114, 65, 97>> /\ B(28, 4) = <<0, 0, 85, 170>>
    [] inp.k = "nb" -> B(3, 8) = <<78, 84, 70, 83, 32, 32, 32, 32>>
    [] OTHER -> TRUE

\* Entries of 32 bytes, up to an empty one; those to be ignored are left out.
RECURSIVE Entries(_)
Entries(s) ==
  IF Len(s) < 32 THEN <<>>
  ELSE LET e == SubSeq(s, 1, 32)
           from == SubSeq(e, 1, 8)  to == SubSeq(e, 17, 24)  flag == e[25]
           rest == Entries(SubSeq(s, 33, Len(s)))
       IN IF ~Aligned(from) \/ ~Aligned(to) \/ e[26] # 0 \/ e[27] # 0 \/ e[28] # 0 \/ (Bit(flag, 0) = 1 /\ Bit(flag, 1) = 1) THEN Bad
          ELSE IF WIsZero(to) /\ flag = 0 THEN <<>>
          ELSE IF rest = Bad THEN Bad
          ELSE IF Bit(flag, 2) = 1 THEN rest ELSE e \o rest
\* Places of 24 bytes, up to one that is nowhere.
RECURSIVE Places(_)
Places(s) ==
  IF Len(s) < 24 \/ WIsZero(SubSeq(s, 1, 8)) THEN <<>>
  ELSE LET rest == Places(SubSeq(s, 25, Len(s)))
       IN IF WIsZero(SubSeq(s, 17, 24)) \/ rest = Bad THEN Bad ELSE SubSeq(s, 1, 24) \o rest

NonZero(s) == IF WIsZero(s) THEN Bad ELSE s
Only32 == {"size32", "active", "unmirrored", "fsversion", "rootcluster", "fsinfo", "backup", "area"}
Sig(f) == Y(IF inp.k = "f32" THEN 66 ELSE 38)
Fat(f) ==
  LET v == B(f.o, f.w) IN
  CASE inp.k = "f16" /\ f.n \in Only32 -> None
    [] f.n = "cluster" -> IF v[1] = 0 THEN <<0, 1>> ELSE <<v[1], 0>>          \* 0 stands for 256
    [] f.n = "media" -> IF v[1] \in {240} \cup 248..255 THEN v ELSE Bad
    [] f.n = "active" -> << v[1] % 16 >>
    [] f.n = "unmirrored" -> << Bit(v[1], 7) >>
    [] f.n = "rootcluster" -> IF v \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>} THEN Bad ELSE v
    [] f.n \in {"fsinfo", "backup"} -> NonZero(v)
    [] f.n = "dirty" -> << Bit(v[1], 0) >>
    [] f.n = "surface" -> << Bit(v[1], 1) >>
    [] f.n = "id" -> IF Sig(f) \in {40, 41} THEN v ELSE None
    [] f.n \in {"label", "fstype"} -> IF Sig(f) = 41 THEN v ELSE None
    [] f.n = "total64" -> IF inp.k = "f32" /\ Sig(f) = 41 /\ WIsZero(B(19, 2)) /\ WIsZero(B(32, 4)) THEN v ELSE None
    [] OTHER -> v
Value(f) ==
  LET v == B(f.o, f.w) IN
  CASE inp.k \in {"f16", "f32"} -> Fat(f)
    [] inp.k = "t12" /\ f.n # "media" -> None
    [] inp.k = "t16" /\ f.n = "dirty" -> << 1 - Bit(v[2], 7) >>
    [] inp.k = "t16" /\ f.n = "errors" -> << 1 - Bit(v[2], 6) >>
    [] inp.k = "t32" /\ f.n = "dirty" -> << 1 - Bit(v[4], 3) >>
    [] inp.k = "t32" /\ f.n = "errors" -> << 1 - Bit(v[4], 2) >>
    [] inp.k = "xb" /\ f.n = "second" -> << Bit(v[1], 0) >>
    [] inp.k = "xb" /\ f.n = "dirty" -> << Bit(v[1], 1) >>
    [] inp.k = "xb" /\ f.n = "failure" -> << Bit(v[1], 2) >>
    [] inp.k = "xb" /\ f.n = "clear" -> << Bit(v[1], 3) >>
    [] inp.k = "xb" /\ f.n = "percent" -> IF v[1] <= 100 THEN v ELSE None
    [] inp.k = "xb" /\ f.n \in {"sector", "cluster"} -> LET n == 2 ^ v[1] IN << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
    [] inp.k = "xo" /\ f.n # "guid" -> IF B(0, 16) = Flash THEN v ELSE None
    [] inp.k = "nb" /\ f.n = "code" -> Is(~WIsZero(v) /\ B(80, 2) = <<85, 170>>)
    [] inp.k = "nb" /\ f.n \in {"total", "mft", "mirror"} -> NonZero(v)
    [] inp.k = "vs" /\ f.n = "first" -> IF Aligned(v) THEN v ELSE Bad
    [] inp.k = "vs" /\ f.n = "local" -> Is(B(64, 16) = B(80, 16))
    [] f.n = "body" -> SubSeq(inp.b, 129, Len(inp.b))
    [] f.n = "entries" -> Entries(SubSeq(inp.b, 129, Len(inp.b)))
    [] f.n = "places" -> Places(SubSeq(inp.b, 129, Len(inp.b)))
    [] OTHER -> v

(* ---- inputs that are enumerated: one byte of a structure differs from all others ---- *)
\* A sound structure of each kind, as far as its bytes depend on each other.
HeadOf(k) == Guid \o <<1, 0, 0, 0>> \o Small4(Code[k])
Text == [i \in 1..8 |-> <<78, 84, 70, 83, 32, 32, 32, 32>>[i]]
At(o, s) == [p \in o..(o + Len(s) - 1) |-> s[p - o + 1]]
Fixed == [k \in Kinds |->
  CASE k = "f16" -> At(11, <<0, 2, 4, 1, 0, 2, 0, 2, 64, 156, 248, 200, 0>>)
    [] k = "f32" -> At(11, <<0, 2, 1, 32, 0, 2, 0, 0, 0, 0, 248, 0, 0>>) @@ At(32, <<64, 22, 1, 0, 88, 2, 0, 0>>) @@ At(42, <<0, 0>>)
    [] k = "fsi" -> At(0, <<82, 82, 97, 65, 114, 114, 65, 97>>) @@ At(28, <<0, 0, 85, 170>>)
    [] k = "xb" -> At(3, <<69, 88, 70, 65, 84, 32, 32, 32>>) @@ At(11, [i \in 1..53 |-> 0]) @@ At(72, <<0, 64, 0>>) @@ At(80, <<128, 0, 0, 0, 32, 0, 0, 0, 0, 1, 0, 0, 208, 7, 0, 0, 5, 0, 0, 0>>) @@ At(104, <<0, 1>>) @@ At(108, <<9, 3, 2>>)
    [] k = "xo" -> At(0, Flash)
    [] k = "nb" -> At(3, Text) @@ At(80, <<85, 170>>)
    [] k = "vs" -> At(0, HeadOf(k)) @@ At(24, <<0, 30, 0, 0, 0, 0, 0, 0, 0, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 64>>)
    [] k = "vc" -> At(0, HeadOf(k)) @@ At(24, <<0, 64>>)
    [] k \in {"va", "vb", "vd", "vl"} -> At(0, HeadOf(k))
    [] k = "v2" -> At(0, Small4(2))
    [] k = "v3" -> At(0, Small4(3))
    [] OTHER -> << >>]
\* Where the bytes decide on the geometry, they are another property's.
Held(k) == CASE k = "f16" -> 11..20 \cup {22, 23} [] k = "f32" -> 11..20 \cup {22, 23} \cup 32..39 \cup {42, 43} [] k = "xb" -> 3..63 \cup 72..74 \cup 80..99 \cup {104, 105} \cup 108..110 [] OTHER -> {}
Size == [ f16 |-> 62, f32 |-> 90, fsi |-> 32, t12 |-> 8, t16 |-> 8, t32 |-> 8, xb |-> 120, xo |-> 44, nb |-> 82, vs |-> 128, vc |-> 128, v2 |-> 128, v3 |-> 128, va |-> 136, vb |-> 136, vd |-> 128, vl |-> 128 ]
Shown(k, p, v, all) == [i \in 1..Size[k] |-> IF i - 1 = p THEN v ELSE IF i - 1 \in DOMAIN Fixed[k] THEN Fixed[k][i - 1] ELSE all]
Bytes1 == IF Scope = "quick" THEN {0, 1, 40, 41, 128, 255} ELSE {0, 1, 2, 4, 8, 16, 32, 40, 41, 64, 100, 101, 128, 240, 248, 254, 255}
One == /\ Scope # "none"
       /\ \E k \in Kinds : \E p \in (0..(Size[k] - 1)) \ Held(k), v \in Bytes1, all \in {0, 255} : inp = [k |-> k, b |-> Shown(k, p, v, all)]
\* Two entries of a table of saved blocks, or places of a store.
Num(a, b) == <<a, b, 0, 0, 0, 0, 0, 0>>
EntriesIn == { Num(0, a) \o Num(7, 9) \o Num(c, d) \o <<f, 0, g, 0>> \o <<1, 2, 3, 4>> : a \in {0, 32, 64}, c \in {0, 1}, d \in {0, 32, 128}, f \in {0, 1, 2, 3, 4, 6, 8, 128}, g \in {0, 1} }
PlacesIn == { Num(a, b) \o Num(3, 4) \o Num(0, c) : a \in {0, 1}, b \in {0, 64}, c \in {0, 64} }
Two == /\ Scope # "none"
       /\ \/ \E e \in EntriesIn, f \in {q \in EntriesIn : Scope # "quick" \/ (q[2] = 64 /\ q[17] = 0 /\ q[27] = 0)} : inp = [k |-> "vd", b |-> Shown("vd", -1, 0, 0) \o e \o f]
          \/ \E e, f, g \in PlacesIn : inp = [k |-> "vl", b |-> Shown("vl", -1, 0, 0) \o e \o f \o g]
Init == /\ (cid = 0 /\ (One \/ Two)) \/ (cid \in 1..Len(Cases) /\ inp = Cases[cid])
        /\ at = 1 /\ seen = <<>>
Fields == Layout[inp.k]
Read == /\ Valid /\ at <= Len(Fields)
        /\ seen' = Append(seen, [n |-> Fields[at].n, v |-> Value(Fields[at])])
        /\ at' = at + 1 /\ UNCHANGED <<cid, inp>>
Over == ~Valid \/ at > Len(Fields)
Done == Over /\ UNCHANGED vars
Next == Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs == [ok |-> Valid, f |-> seen]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
Ends == <>Over
Each == Len(seen) = at - 1 /\ \A i \in 1..Len(seen) : seen[i].n = Fields[i].n
\* Nothing is told of what is no such structure.
Silent == ~Valid => seen = <<>>
\* A plain field has its own bytes, or is absent or rejected.
Derived == {"cluster", "active", "unmirrored", "dirty", "surface", "errors", "second", "failure", "clear", "sector", "local", "code", "body", "entries", "places", "media"}
Own == \A i \in 1..Len(seen) : seen[i].n \notin Derived => seen[i].v \in {None, Bad, B(Fields[i].o, Fields[i].w)}
\* What is listed of a table is made of whole entries.
Whole == \A i \in 1..Len(seen) : seen[i].n = "entries" /\ seen[i].v # Bad => Len(seen[i].v) % 32 = 0
=============================================================================
