------------------------------- MODULE PosixFs -------------------------------
(***************************************************************************)
(* The namespace seen through the POSIX environment: a tree of directories *)
(* files and symbolic links.  st.tree: path (sequence of names) ->         *)
(* [k, c, t] with k "d", "f" or "l", c the contents and t what a link      *)
(* stands for (a path from the root); the root is <<>>.  st.ro: directories*)
(* without write permission; st.un: files without read permission.         *)
(* Effect(st, e) decides an operation: ok is whether its results are       *)
(* allowed, st the next state.  Names that are too long are written        *)
(* "LONG".                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Dir == [k |-> "d", c |-> <<>>, t |-> <<>>]
File(c) == [k |-> "f", c |-> c, t |-> <<>>]
Link(t) == [k |-> "l", c |-> <<>>, t |-> t]
EmptyFs == [tree |-> [x \in {<<>>} |-> Dir], ro |-> {}, un |-> {}]
Has(st, p) == p \in DOMAIN st.tree
IsDir(st, p) == Has(st, p) /\ st.tree[p].k = "d"
IsFile(st, p) == Has(st, p) /\ st.tree[p].k # "d"
IsLink(st, p) == Has(st, p) /\ st.tree[p].k = "l"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(q, p) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p      \* q is below p
Kids(st, p) == {q \in DOMAIN st.tree : Under(q, p)}
Names(st, p) == {q[Len(p) + 1] : q \in Kids(st, p)}
Put(st, p, x) == [st EXCEPT !.tree = [q \in DOMAIN st.tree \cup {p} |-> IF q = p THEN x ELSE st.tree[q]]]
Drop(st, p) == [st EXCEPT !.tree = [q \in DOMAIN st.tree \ {p} |-> st.tree[q]], !.ro = @ \ {p}, !.un = @ \ {p}]

\* resolving a path: [e |-> "ok", p |-> path without links in it], or what the
\* first failing component reports
RECURSIVE Walk(_, _, _, _, _)
Walk(st, b, rest, follow, n) ==
  IF n = 0 THEN [e |-> "io", p |-> <<>>]                          \* too many links
  ELSE IF rest = <<>> THEN [e |-> "ok", p |-> b]
  ELSE LET q == b \o <<rest[1]>>
           more == SubSeq(rest, 2, Len(rest))
       IN IF rest[1] = "LONG" THEN [e |-> "io", p |-> <<>>]
          ELSE IF ~Has(st, q) THEN [e |-> IF more = <<>> THEN "ok" ELSE "nf", p |-> q]
          ELSE IF IsLink(st, q) /\ (more # <<>> \/ follow) THEN Walk(st, <<>>, st.tree[q].t \o more, follow, n - 1)
          ELSE IF more = <<>> THEN [e |-> "ok", p |-> q]
          ELSE IF IsFile(st, q) THEN [e |-> "io", p |-> <<>>]
          ELSE Walk(st, q, more, follow, n)
Res(st, p, follow) == IF p = <<>> THEN [e |-> "nf", p |-> <<>>]   \* the empty name
                      ELSE Walk(st, <<>>, p, follow, 12)
\* these work on the name itself, the others on what it stands for
Follows(o) == o \notin {"remove", "rename", "mkdir", "rmdir", "symlink"}
Locked(st, p) == Parent(p) \in st.ro                             \* entries of the parent cannot change

\* the kinds of error that apply; the operation succeeds iff there is none
Opt(c, x) == IF c THEN {x} ELSE {}
Errs(st, e) ==
  LET rp == Res(st, e.p, Follows(e.o))
      r == rp.e
      p == rp.p
  IN IF e.o = "rename"
     THEN LET rq == Res(st, e.to, FALSE)
              s == rq.e
              q == rq.p
          IN IF r = "ok" /\ s = "ok" /\ Has(st, p)
             THEN IF p = q THEN {}
                  ELSE Opt(Locked(st, p) \/ Locked(st, q), "io")
                       \cup Opt(IsDir(st, p) /\ p \in st.ro /\ Parent(p) # Parent(q), "io")
                       \cup Opt(IsDir(st, p) /\ (IsFile(st, q) \/ Under(q, p) \/ Kids(st, q) # {}), "io")
                       \cup Opt(IsFile(st, p) /\ IsDir(st, q), "io")
             ELSE Opt(r # "ok", r) \cup Opt(s # "ok", s) \cup Opt(r = "ok" /\ ~Has(st, p), "nf")
                  \* the system may notice these first
                  \cup Opt((r = "ok" /\ Locked(st, p)) \/ (s = "ok" /\ Locked(st, q)), "io")
     ELSE IF r # "ok" THEN {r}
     ELSE CASE e.o \in {"create", "append", "logger", "lock"} ->
                 Opt(IsDir(st, p), "io") \cup Opt(~Has(st, p) /\ Locked(st, p), "io") \cup Opt(e.o = "lock" /\ p \in st.un, "io")
            [] e.o \in {"seq", "rand", "size", "list"} ->
                 Opt(~Has(st, p), "nf") \cup Opt(e.o = "list" /\ IsFile(st, p), "io") \cup Opt(e.o \in {"seq", "rand"} /\ p \in st.un, "io")
            [] e.o = "remove" -> Opt(~Has(st, p), "nf") \cup Opt(IsDir(st, p), "io") \cup Opt(Has(st, p) /\ Locked(st, p), "io")
            [] e.o = "mkdir" -> Opt(Has(st, p), "io") \cup Opt(~Has(st, p) /\ Locked(st, p), "io")
            [] e.o = "symlink" -> Opt(Has(st, p) \/ Locked(st, p), "io")
            [] e.o = "rmdir" -> Opt(~Has(st, p), "nf") \cup Opt(IsFile(st, p), "io") \cup Opt(Kids(st, p) # {}, "io")
                                \cup Opt(Has(st, p) /\ Locked(st, p), "io")
            [] OTHER -> {}

Moved(st, p, q) ==
  LET old == {x \in DOMAIN st.tree : x = p \/ Under(x, p)}
      new == {q \o SubSeq(x, Len(p) + 1, Len(x)) : x \in old}
      back(y) == p \o SubSeq(y, Len(q) + 1, Len(y))
      keep == (DOMAIN st.tree \ old) \ {q}
  IN [tree |-> [y \in keep \cup new |-> IF y \in new THEN st.tree[back(y)] ELSE st.tree[y]],
      ro |-> ((st.ro \ old) \ {q}) \cup {q \o SubSeq(x, Len(p) + 1, Len(x)) : x \in st.ro \cap old},
      un |-> ((st.un \ old) \ {q}) \cup {q \o SubSeq(x, Len(p) + 1, Len(x)) : x \in st.un \cap old}]

\* what a successful operation changes
After(st, e) ==
  LET p == Res(st, e.p, Follows(e.o)).p IN
  CASE e.o = "create" -> Put(st, p, File(e.d))
    [] e.o = "append" -> Put(st, p, File((IF Has(st, p) THEN st.tree[p].c ELSE <<>>) \o e.d))
    [] e.o \in {"logger", "lock"} -> IF Has(st, p) THEN st ELSE Put(st, p, File(<<>>))
    [] e.o = "remove" -> Drop(st, p)
    [] e.o = "mkdir" -> Put(st, p, Dir)
    [] e.o = "rmdir" -> Drop(st, p)
    [] e.o = "rename" -> LET q == Res(st, e.to, FALSE).p IN IF p = q THEN st ELSE Moved(st, p, q)
    [] e.o = "symlink" -> Put(st, p, Link(e.to))
    [] OTHER -> st
R(okay, st2) == [ok |-> okay, st |-> st2]
\* opening a directory for reading, or asking for its size, may succeed or fail
DirRead(st, e) == LET r == Res(st, e.p, TRUE) IN e.o \in {"seq", "rand", "size"} /\ r.e = "ok" /\ IsDir(st, r.p)
\* e.inj: the system was made to fail ("nf" or "io"), "" otherwise
Effect(st, e) ==
  LET r == Res(st, e.p, Follows(e.o))
      p == r.p
      errs == Errs(st, e)
      want == IF e.inj # "" THEN {e.inj} ELSE IF errs = {} THEN {"ok"} ELSE errs
  IN CASE e.o = "exists" -> R(e.r = (e.inj = "" /\ r.e = "ok" /\ Has(st, p)), st)
       \* done by the driver
       [] e.o = "chmod" -> R(TRUE, [st EXCEPT !.ro = IF e.w THEN @ \ {p} ELSE @ \cup {p}, !.un = IF e.w THEN @ \ {p} ELSE @])
       [] e.o = "chread" -> R(TRUE, [st EXCEPT !.un = IF e.w THEN @ \ {p} ELSE @ \cup {p}])
       [] DirRead(st, e) -> R(TRUE, st)
       [] OTHER ->
            IF e.st \notin want THEN R(FALSE, st)
            ELSE IF e.st # "ok" THEN R(e.null /\ e.named, st)
            ELSE R(CASE e.o = "size" -> e.r = Len(st.tree[p].c)
                     [] e.o \in {"seq", "rand"} -> ~e.null /\ e.d = st.tree[p].c
                     [] e.o = "list" -> /\ {e.r[i] : i \in 1..Len(e.r)} \ {".", ".."} = Names(st, p)
                                        /\ \A i, j \in 1..Len(e.r) : i # j => e.r[i] # e.r[j]
                     [] e.o \in {"create", "append", "logger", "lock"} -> ~e.null
                     [] OTHER -> TRUE,
                   After(st, e))
=============================================================================
