------------------------------- MODULE MemEnv -------------------------------
(***************************************************************************)
(* The in-memory environment (helpers/memenv): a map from names to files,  *)
(* files with contents, open handles.  Effect(st, e) gives for an observed *)
(* operation e (arguments and results) whether its results are the ones    *)
(* the specification allows, and the next state.  It is used by the design *)
(* model, by the sequential trace specification and, one linearization     *)
(* step per operation, by the concurrent one.                              *)
(*                                                                         *)
(*   st.names  name -> file id          st.files  file id -> contents      *)
(*   st.han    handle -> [k, f, pos]    k in {"w", "s", "r"}               *)
(***************************************************************************)
EXTENDS Rle, FiniteSets

EmptyEnv == [names |-> [x \in {} |-> 0], files |-> [x \in {} |-> 0], han |-> [x \in {} |-> 0], nf |-> 0]
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Has(st, n) == n \in DOMAIN st.names

\* a file is gone with its last name and last handle
Live(st) == {st.names[n] : n \in DOMAIN st.names} \cup {st.han[h].f : h \in DOMAIN st.han}
Gc(st) == [st EXCEPT !.files = [f \in Live(st) |-> st.files[f]]]

NewFile(st, n) == [st EXCEPT !.nf = @ + 1, !.names = Upd(@, n, st.nf + 1), !.files = Upd(@, st.nf + 1, <<>>)]
Open(st, h, k, n) == [st EXCEPT !.han = Upd(@, h, [k |-> k, f |-> st.names[n], pos |-> 0])]

R(okay, st2) == [ok |-> okay, st |-> st2]
\* names below a directory, without the directory and the slash (47)
Below(n, d) == Len(n) > Len(d) /\ SubSeq(n, 1, Len(d)) = d /\ n[Len(d) + 1] = 47
Rest(n, d) == SubSeq(n, Len(d) + 2, Len(n))
Children(st, d) == {Rest(n, d) : n \in {m \in DOMAIN st.names : Below(m, d)}}

\* reading: exactly the bytes, clipped; beyond the end nothing (or an error)
ReadOK(c, off, n, e) ==
  IF off > Size(c) THEN e.st # "ok" \/ e.d = <<>>
  ELSE e.st = "ok" /\ e.d = Slice(c, off, n)

Create(st, e) == LET s1 == IF Has(st, e.n) THEN [st EXCEPT !.files[st.names[e.n]] = <<>>] ELSE NewFile(st, e.n)
  IN R(e.st = "ok" /\ ~e.null, Open(s1, e.h, "w", e.n))
AppendOpen(st, e) == LET s1 == IF Has(st, e.n) THEN st ELSE NewFile(st, e.n)
  IN R(e.st = "ok" /\ ~e.null, Open(s1, e.h, "w", e.n))
OpenRead(st, e, k) ==
  IF Has(st, e.n) THEN R(e.st = "ok" /\ ~e.null, Open(st, e.h, k, e.n))
  ELSE R(e.st = "nf" /\ e.null, st)
Exists(st, e) == R(e.r = Has(st, e.n), st)
SizeOf(st, e) == IF Has(st, e.n) THEN R(e.st = "ok" /\ e.r = Size(st.files[st.names[e.n]]), st)
                 ELSE R(e.st # "ok", st)
Remove(st, e) == IF Has(st, e.n) THEN R(e.st = "ok", Gc([st EXCEPT !.names = Del(@, e.n)]))
                 ELSE R(e.st # "ok", st)
Rename(st, e) ==
  IF ~Has(st, e.n) THEN R(e.st # "ok", st)
  ELSE IF e.n = e.to THEN R(e.st = "ok", st)
  ELSE R(e.st = "ok", Gc([st EXCEPT !.names = Del(Upd(@, e.to, st.names[e.n]), e.n)]))
List(st, e) == R(/\ e.st = "ok"
                 /\ {e.r[i] : i \in 1..Len(e.r)} = Children(st, e.n)
                 /\ Len(e.r) = Cardinality(Children(st, e.n)), st)
Append_(st, e) == LET f == st.han[e.h].f IN R(e.st = "ok", [st EXCEPT !.files[f] = Cat(@, e.d)])
Nop(st, e) == R(e.st = "ok", st)
RandRead(st, e) == R(ReadOK(st.files[st.han[e.h].f], e.off, e.len, e), st)
SeqRead(st, e) == LET x == st.han[e.h] IN
  R(ReadOK(st.files[x.f], x.pos, e.len, e),
    IF e.st = "ok" THEN [st EXCEPT !.han[e.h].pos = @ + Size(e.d)] ELSE st)
SeqSkip(st, e) == LET x == st.han[e.h]  sz == Size(st.files[x.f]) IN
  IF x.pos > sz THEN R(TRUE, st)
  ELSE R(e.st = "ok", [st EXCEPT !.han[e.h].pos = IF e.len > sz - x.pos THEN sz ELSE @ + e.len])
Close(st, e) == R(TRUE, Gc([st EXCEPT !.han = Del(@, e.h)]))

Ops == {"create", "append", "seq", "rand", "exists", "size", "remove", "rename", "list",
        "app", "nop", "rread", "sread", "skip", "close"}
Effect(st, e) ==
  CASE e.o = "create" -> Create(st, e)
    [] e.o = "append" -> AppendOpen(st, e)
    [] e.o = "seq"    -> OpenRead(st, e, "s")
    [] e.o = "rand"   -> OpenRead(st, e, "r")
    [] e.o = "exists" -> Exists(st, e)
    [] e.o = "size"   -> SizeOf(st, e)
    [] e.o = "remove" -> Remove(st, e)
    [] e.o = "rename" -> Rename(st, e)
    [] e.o = "list"   -> List(st, e)
    [] e.o = "app"    -> Append_(st, e)
    [] e.o = "nop"    -> Nop(st, e)
    [] e.o = "rread"  -> RandRead(st, e)
    [] e.o = "sread"  -> SeqRead(st, e)
    [] e.o = "skip"   -> SeqSkip(st, e)
    [] e.o = "close"  -> Close(st, e)
=============================================================================
