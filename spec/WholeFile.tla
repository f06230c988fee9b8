------------------------------ MODULE WholeFile ------------------------------
(***************************************************************************)
(* The whole-file helpers (util/env.cc) as a protocol between the helper   *)
(* and an environment whose every call may fail.  A step of the helper is  *)
(* a call e with its outcome (e.st = "" for success, else the error's      *)
(* text); Can says whether the helper may make that call now, Next what    *)
(* the protocol state is afterwards, Done whether it may return e.st.      *)
(***************************************************************************)
EXTENDS Rle
Start(kind, d, sync) == [kind |-> kind, d |-> d, sync |-> sync, err |-> "", made |-> FALSE, acc |-> <<>>,
                         synced |-> FALSE, closed |-> FALSE, dead |-> FALSE, removed |-> FALSE, eof |-> FALSE]
Working(s) == s.err = "" /\ s.made /\ ~s.dead
Can(s, e) ==
  IF s.kind = "write"
  THEN CASE e.o = "new" -> ~s.made /\ s.err = ""
         [] e.o = "append" -> Working(s) /\ ~s.closed /\ IsPrefix(Cat(s.acc, e.d), s.d)
         [] e.o = "flush" -> Working(s) /\ ~s.closed
         [] e.o = "sync" -> Working(s) /\ ~s.closed
         [] e.o = "close" -> Working(s) /\ ~s.closed /\ s.acc = s.d /\ (s.sync => s.synced)
         [] e.o = "delete" -> s.made /\ ~s.dead /\ (s.err # "" \/ s.closed)
         [] e.o = "remove" -> s.made /\ s.err # "" /\ ~s.removed /\ e.same
         [] OTHER -> FALSE
  ELSE CASE e.o = "new" -> ~s.made /\ s.err = ""
         [] e.o = "read" -> Working(s) /\ e.n > 0
         [] e.o = "delete" -> s.made /\ ~s.dead /\ (s.err # "" \/ s.eof)
         [] OTHER -> FALSE
Fail(s, e) == IF e.st = "" \/ s.err # "" THEN s.err ELSE e.st
Next_(s, e) ==
  CASE e.o = "new" -> [s EXCEPT !.made = (e.st = ""), !.err = e.st]
    [] e.o = "append" -> [s EXCEPT !.acc = IF e.st = "" THEN Cat(s.acc, e.d) ELSE @, !.err = Fail(s, e), !.synced = FALSE]
    [] e.o = "flush" -> [s EXCEPT !.err = Fail(s, e)]
    [] e.o = "sync" -> [s EXCEPT !.synced = (e.st = ""), !.err = Fail(s, e)]
    [] e.o = "close" -> [s EXCEPT !.closed = (e.st = ""), !.err = Fail(s, e)]
    [] e.o = "read" -> [s EXCEPT !.acc = IF e.st = "" THEN Cat(s.acc, e.d) ELSE @, !.eof = (e.st = "" /\ e.d = <<>>), !.err = Fail(s, e)]
    [] e.o = "delete" -> [s EXCEPT !.dead = TRUE]
    [] e.o = "remove" -> [s EXCEPT !.removed = TRUE]
\* e: the return, with the string read for a read
Done(s, e) ==
  /\ e.st = s.err
  /\ s.made => s.dead
  /\ IF s.kind = "write"
     THEN IF s.err = "" THEN s.closed /\ s.acc = s.d ELSE s.made => s.removed
     ELSE s.err = "" => s.eof /\ e.d = s.acc /\ s.acc = s.d
=============================================================================
