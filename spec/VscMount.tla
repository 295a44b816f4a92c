------------------------------ MODULE VscMount ------------------------------
(* vsc_mount: a volume with a history of snapshots, a command, and the file system it serves. *)
(* The file system has one directory with one file, the volume as it was when the snapshot      *)
(* was made. It is asked by a kernel: any calls, in any order, also with identifiers that were   *)
(* never given out and with requests to change something.                                        *)
EXTENDS Emit, Bytes, FiniteSets

CONSTANTS Scope, Setups, Commands, Calls, MaxCalls

VARIABLES cid, inp, vol, made, ph, k, file, ans, out
vars == <<cid, inp, vol, made, ph, k, file, ans, out>>
\* inp   [where: positions of the blocks that change, size: bytes of the volume, u: those unused in all snapshots, nul: whether these are shown as null,
\*        pos0: stack position of the oldest snapshot, ops: the history, cmd: the command, calls: what the kernel asks]
\* made  snapshots, oldest first: [v: the volume then, s: blocks saved since (and so not those of the volume of today)]
\* ph    write, command, serve, over;  k: steps made in this phase
\* file  what is served: position (0-based block) -> value of the blocks that changed; out: what became of the command
BS == 16384
Own == -1       \* the content the volume has there (never changed)
Empty == -2     \* marked as empty
Original == -3  \* marked as being of the volume
N == Len(inp.where)
ToSet(q) == { q[i] : i \in 1..Len(q) }

Init == /\ \/ cid = 0 /\ Scope # "none" /\ \E x \in Setups, c \in Commands : inp = [where |-> x.where, size |-> x.size, u |-> x.u, nul |-> x.nul, pos0 |-> x.pos0, ops |-> x.ops, cmd |-> c, calls |-> <<>>]
           \/ cid \in 1..Len(Cases) /\ inp = Cases[cid]
        /\ vol = [b \in 1..N |-> 1000 + b] /\ made = <<>> /\ ph = "write" /\ k = 0 /\ file = <<>> /\ ans = <<>> /\ out = [st |-> "none", rows |-> <<>>]

(* ---- the volume ---- *)
Write == /\ ph = "write" /\ k < Len(inp.ops)
         /\ LET op == inp.ops[k + 1] IN
            IF op.o = "snap" THEN made' = Append(made, [v |-> vol, s |-> {}]) /\ vol' = vol
            ELSE /\ vol' = [vol EXCEPT ![op.b] = k + 1]
                 /\ made' = [i \in DOMAIN made |-> [made[i] EXCEPT !.s = @ \cup {op.b}]]
         /\ k' = k + 1 /\ UNCHANGED <<cid, inp, ph, file, ans, out>>
Written == ph = "write" /\ k = Len(inp.ops) /\ ph' = "command" /\ k' = 0 /\ UNCHANGED <<cid, inp, vol, made, file, ans, out>>

(* ---- the command: [mode, at: stack position minus pos0 plus 1, kind: what the image is, wrong: what is wrong with the command line] ---- *)
Lists == inp.cmd.mode = "list"
Two == inp.cmd.mode = "two"
Marks == inp.cmd.mode = "alt"
Chosen == made[inp.cmd.at]
Fits == inp.cmd.at \in DOMAIN made
Shown(b) == IF b \in ToSet(inp.u) /\ inp.nul THEN (IF Marks THEN Empty ELSE 0)
            ELSE IF Marks /\ b \notin Chosen.s THEN Original ELSE Chosen.v[b]
Answer(st) == [st |-> st, rows |-> IF st = "listed" THEN [i \in DOMAIN made |-> inp.pos0 + i - 1] ELSE <<>>]
Command ==
  /\ ph = "command" /\ k' = 0 /\ UNCHANGED <<cid, inp, vol, made, ans>>
  /\ LET w == inp.cmd.wrong
         st == CASE w \in {"words", "number", "mode"} -> "usage"
                 [] w = "dir" /\ ~Lists -> "refused"
                 [] w = "image" -> "refused"
                 [] Lists /\ inp.cmd.kind = "other" -> "not a volume"
                 [] Lists /\ inp.cmd.kind = "off" -> "disabled"
                 [] Lists -> "listed"
                 [] inp.cmd.kind # "on" \/ ~Fits -> "refused"
                 [] OTHER -> "served"
     IN /\ out' = Answer(st)
        /\ ph' = IF st = "served" THEN "serve" ELSE "over"
        /\ file' = IF st = "served" THEN [b \in 1..N |-> Shown(b)] ELSE <<>>

(* ---- the file system ---- *)
Root == "root"
Image == "image"
Stat(i) == IF i = Root THEN [e |-> "ok", i |-> Root, k |-> "dir", size |-> 0] ELSE [e |-> "ok", i |-> Image, k |-> "file", size |-> inp.size]
Err(e) == [e |-> e]
BlockAt(p) == LET S == { b \in 1..N : inp.where[b] = p } IN IF S # {} THEN file[CHOOSE b \in S : TRUE] ELSE IF Marks THEN Original ELSE Own
\* What a read gives: the length, and what each block of it is.
Data(off, size) == LET n == IF off >= inp.size THEN 0 ELSE Min(size, inp.size - off)
                       first == off \div BS
                   IN [e |-> "ok", n |-> n, d |-> IF n = 0 THEN <<>> ELSE [j \in 1..((((off + n - 1) \div BS) - first) + 1) |-> <<first + j - 1, BlockAt(first + j - 1)>>]]
Changing == {"create", "link", "mkdir", "mknod", "rename", "rmdir", "setattr", "symlink", "unlink", "write"}
\* i: the inode (root, image, none), h: the handle (dir, file, none), f: whether writing is asked for, n: the name is the right one
Reply(c) ==
  CASE c.c = "lookup" -> IF c.i = Root /\ c.n THEN Stat(Image) ELSE Err("ENOENT")
    [] c.c = "getattr" -> IF c.i \in {Root, Image} THEN Stat(c.i) ELSE Err("EBADF")
    [] c.c = "open" -> IF c.f THEN Err("EROFS") ELSE IF c.i = Image THEN [e |-> "ok", h |-> "file"] ELSE Err("ENOENT")
    [] c.c = "opendir" -> IF c.i = Root THEN [e |-> "ok", h |-> "dir"] ELSE Err("ENOENT")
    [] c.c = "readdir" -> IF c.i # "dir" THEN Err("EBADF") ELSE [e |-> "ok", l |-> IF c.a = 0 THEN <<Stat(Image)>> ELSE <<>>]
    [] c.c = "read" -> IF c.i # "file" THEN Err("EBADF") ELSE Data(c.a, c.b)
    [] c.c \in {"release", "releasedir"} -> [e |-> "ok"]
    [] c.c \in Changing -> Err("EROFS")
Serve(c) == /\ ph = "serve" /\ ans' = Append(ans, Reply(c)) /\ k' = k + 1 /\ UNCHANGED <<cid, vol, made, ph, file, out>>
Ask == cid = 0 /\ k < MaxCalls /\ \E c \in Calls : Serve(c) /\ inp' = [inp EXCEPT !.calls = Append(@, c)]
Given == cid > 0 /\ k < Len(inp.calls) /\ Serve(inp.calls[k + 1]) /\ inp' = inp
Leave == ph = "serve" /\ k = (IF cid = 0 THEN MaxCalls ELSE Len(inp.calls)) /\ ph' = "over" /\ UNCHANGED <<cid, inp, vol, made, k, file, ans, out>>

Over == ph = "over"
Done == Over /\ UNCHANGED vars
Next == Write \/ Written \/ Command \/ Ask \/ Given \/ Leave \/ Done
Spec == Init /\ [][Next]_vars

Obs == [out |-> out, ans |-> ans, left |-> 0]
Report == Over => Out(cid, inp, Obs)

(* ---- what a user relies on ---- *)
\* No call changes anything.
Fixed == [][ph = "serve" => file' = file /\ vol' = vol /\ made' = made]_vars
\* Every used block of the served file is what the volume held when the snapshot was made, or marked as still being there.
AsThen == file # <<>> => \A b \in (1..N) \ ToSet(inp.u) : (file[b] = Chosen.v[b]) \/ (Marks /\ file[b] = Original /\ vol[b] = Chosen.v[b])
\* A call that asks for a change is refused; and what was read is within the file.
Refused == \A i \in DOMAIN ans : inp.calls[i].c \in Changing => ans[i].e = "EROFS"
Within == \A i \in DOMAIN ans : (inp.calls[i].c = "read" /\ ans[i].e = "ok") => /\ ans[i].n <= inp.calls[i].b
                                                                                 /\ (ans[i].n < inp.calls[i].b => inp.calls[i].a + ans[i].n >= inp.size)
=============================================================================
