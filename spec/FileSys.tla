-------------------------------- MODULE FileSys --------------------------------
(* The file-system interface (file_io/fs_interface.py) on top of a POSIX tree.  *)
(* State: fs, a function from existing paths (sequences of names below the      *)
(* root) to [kind |-> "dir"] or [kind |-> "file", data |-> ...].                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dir == [kind |-> "dir", data |-> ""]
File(d) == [kind |-> "file", data |-> d]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Exists(fs, p) == p = <<>> \/ p \in DOMAIN fs
IsDir(fs, p) == p = <<>> \/ (p \in DOMAIN fs /\ fs[p].kind = "dir")
IsFile(fs, p) == p \in DOMAIN fs /\ fs[p].kind = "file"
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(fs, p) == {q \in DOMAIN fs : IsPrefix(p, q) /\ q # p}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropTree(fs, p) == [q \in {x \in DOMAIN fs : ~IsPrefix(p, x)} |-> fs[q]]
Moved(fs, a, b) ==
  LET sub == {q \in DOMAIN fs : IsPrefix(a, q)}
      new(q) == b \o SubSeq(q, Len(a) + 1, Len(q))
      rest == {q \in DOMAIN fs : ~IsPrefix(a, q) /\ ~IsPrefix(b, q)}
  IN [x \in rest \cup {new(q) : q \in sub} |->
        IF x \in rest THEN fs[x] ELSE fs[CHOOSE q \in sub : new(q) = x]]
S0 == <<>>
R(s, r) == [s |-> s, r |-> r]
Err == "error"
Names(S) == {p[Len(p)] : p \in S}

\* Replacing rename, the POSIX rules.
CanReplace(fs, a, b) ==
  /\ Exists(fs, a) /\ a # <<>> /\ b # <<>> /\ IsDir(fs, Parent(b))
  /\ ~(IsPrefix(a, b) /\ a # b)                                  \* not into itself
  /\ ~(IsPrefix(b, a) /\ a # b)
  /\ (Exists(fs, b) /\ a # b =>
        IF IsDir(fs, a) THEN IsDir(fs, b) /\ Below(fs, b) = {} ELSE IsFile(fs, b))

Do(fs, o) ==
  CASE o.op = "exists" -> R(fs, IF Exists(fs, o.p) THEN "T" ELSE "F")
    [] o.op = "is_dir" -> R(fs, IF IsDir(fs, o.p) THEN "T" ELSE "F")
    [] o.op = "remove" -> IF IsFile(fs, o.p) THEN R(DropTree(fs, o.p), "ok") ELSE R(fs, Err)
    [] o.op = "write" -> IF IsDir(fs, Parent(o.p)) /\ ~IsDir(fs, o.p) THEN R(Put(fs, o.p, File(o.d)), "ok") ELSE R(fs, Err)
    [] o.op = "append" -> IF IsDir(fs, Parent(o.p)) /\ ~IsDir(fs, o.p)
                          THEN R(Put(fs, o.p, File((IF IsFile(fs, o.p) THEN fs[o.p].data ELSE "") \o o.d)), "ok") ELSE R(fs, Err)
    [] o.op = "read" -> IF IsFile(fs, o.p) THEN R(fs, "=" \o fs[o.p].data) ELSE R(fs, Err)
    \* creates missing parents; succeeds when the directory is already there
    [] o.op = "make_dirs" ->
         IF \A i \in 1..Len(o.p) : ~IsFile(fs, SubSeq(o.p, 1, i))
         THEN R([x \in DOMAIN fs \cup {SubSeq(o.p, 1, i) : i \in 1..Len(o.p)} |->
                   IF x \in DOMAIN fs THEN fs[x] ELSE Dir], "ok")
         ELSE R([x \in DOMAIN fs \cup {} |-> fs[x]], Err)
    [] o.op = "rename" ->
         IF ~o.ow /\ Exists(fs, o.q) THEN R(fs, Err)             \* never clobbers unasked
         ELSE IF CanReplace(fs, o.p, o.q)
              THEN R(IF o.p = o.q THEN fs ELSE Moved(fs, o.p, o.q), "ok")
         ELSE R(fs, Err)
    [] o.op = "glob" -> R(fs, Names({q \in DOMAIN fs : Len(q) = Len(o.p) + 1 /\ IsPrefix(o.p, q)}))
    \* observation of the whole tree by other means than the interface
    [] o.op = "tree" -> R(fs, {<<q, fs[q].kind, fs[q].data>> : q \in DOMAIN fs})

\* No call that fails changes anything; only write/append/remove/rename-with-overwrite
\* can ever change or remove the contents of an existing file.
FailsCleanly(fs, o) == Do(fs, o).r = Err => Do(fs, o).s = fs
KeepsFiles(fs, o) ==
  (o.op = "rename" /\ ~o.ow) =>
     LET d == Do(fs, o).s IN \A q \in DOMAIN fs : IsFile(fs, q) =>
        \/ q \in DOMAIN d /\ d[q] = fs[q]
        \/ IsPrefix(o.p, q) /\ LET n == o.q \o SubSeq(q, Len(o.p) + 1, Len(q)) IN n \in DOMAIN d /\ d[n] = fs[q]
===============================================================================
