------------------------------ MODULE MemEnvMC ------------------------------
(* Design model: clients perform any operation on a few names; the results  *)
(* are computed independently of Effect from a history-level definition and *)
(* must be accepted by it.  Also the source of the transition tours.        *)
EXTENDS MemEnv, TLC, Json
CONSTANTS Names, MaxH, MaxLen, MaxSteps, Kinds
N2 == {<<97>>, <<98>>}
VARIABLES st, nh, steps, last,
          ghost     \* file id -> all bytes appended since its last truncation, in order
vars == <<st, nh, steps, last, ghost>>
View == <<st, nh, steps, ghost>>
Init == st = EmptyEnv /\ nh = 0 /\ steps = 0 /\ last = "init" /\ ghost = [x \in {} |-> 0]

Seg(k) == <<<<k, 1>>>>           \* one byte with value k
Act(e) == /\ steps < MaxSteps /\ steps' = steps + 1
          /\ LET r == Effect(st, e) IN r.ok /\ st' = r.st
          /\ last' = ToJson([x \in DOMAIN e \ {"st", "null", "d", "r"} |-> e[x]])
CanOpen == nh < MaxH
DoCreate(n) == CanOpen /\ Act([o |-> "create", n |-> n, h |-> nh + 1, st |-> "ok", null |-> FALSE]) /\ nh' = nh + 1
   /\ ghost' = Upd(ghost, st'.names[n], <<>>)
DoAppendOpen(n) == CanOpen /\ Act([o |-> "append", n |-> n, h |-> nh + 1, st |-> "ok", null |-> FALSE]) /\ nh' = nh + 1
   /\ ghost' = IF Has(st, n) THEN ghost ELSE Upd(ghost, st'.names[n], <<>>)
DoOpen(n, k) == CanOpen /\ k \in Kinds /\
   LET ok == Has(st, n) IN
   /\ Act([o |-> IF k = "s" THEN "seq" ELSE "rand", n |-> n, h |-> nh + 1, st |-> IF ok THEN "ok" ELSE "nf", null |-> ~ok])
   /\ nh' = (IF ok THEN nh + 1 ELSE nh) /\ UNCHANGED ghost
DoRemove(n) == Act([o |-> "remove", n |-> n, st |-> IF Has(st, n) THEN "ok" ELSE "io"]) /\ UNCHANGED <<nh, ghost>>
DoRename(n, m) == Act([o |-> "rename", n |-> n, to |-> m, st |-> IF Has(st, n) THEN "ok" ELSE "io"]) /\ UNCHANGED <<nh, ghost>>
DoApp(h) ==
   /\ h \in DOMAIN st.han /\ st.han[h].k = "w"
   /\ LET f == st.han[h].f IN
      /\ Size(st.files[f]) < MaxLen
      /\ Act([o |-> "app", h |-> h, d |-> Seg(h), st |-> "ok"])
      /\ ghost' = [ghost EXCEPT ![f] = Append(@, h)]
   /\ UNCHANGED nh
Bytes(f) == ghost[f]
RECURSIVE ToRle(_)
ToRle(q) == IF q = <<>> THEN <<>> ELSE Cat(Seg(Head(q)), ToRle(Tail(q)))
DoSRead(h, n) ==
   /\ h \in DOMAIN st.han /\ st.han[h].k = "s"
   /\ LET x == st.han[h]  g == Bytes(x.f)
          d == IF x.pos >= Len(g) THEN <<>> ELSE SubSeq(g, x.pos + 1, Min2(Len(g), x.pos + n)) IN
      Act([o |-> "sread", h |-> h, len |-> n, st |-> "ok", d |-> ToRle(d)])
   /\ UNCHANGED <<nh, ghost>>
DoSkip(h, n) ==
   /\ h \in DOMAIN st.han /\ st.han[h].k = "s"
   /\ Act([o |-> "skip", h |-> h, len |-> n, st |-> "ok"]) /\ UNCHANGED <<nh, ghost>>
DoRRead(h, off, n) ==
   /\ h \in DOMAIN st.han /\ st.han[h].k = "r"
   /\ LET g == Bytes(st.han[h].f)
          d == IF off >= Len(g) THEN <<>> ELSE SubSeq(g, off + 1, Min2(Len(g), off + n)) IN
      Act([o |-> "rread", h |-> h, off |-> off, len |-> n, st |-> "ok", d |-> ToRle(d)])
   /\ UNCHANGED <<nh, ghost>>
DoClose(h) == h \in DOMAIN st.han /\ Act([o |-> "close", h |-> h]) /\ UNCHANGED <<nh, ghost>>
Next == \/ \E n \in Names : DoCreate(n) \/ DoAppendOpen(n) \/ DoRemove(n)
        \/ \E n \in Names, k \in {"s", "r"} : DoOpen(n, k)
        \/ \E n, m \in Names : DoRename(n, m)
        \/ \E h \in 1..MaxH : DoApp(h) \/ DoClose(h)
        \/ \E h \in 1..MaxH, n \in {1, 2} : DoSRead(h, n) \/ DoSkip(h, n)
        \/ \E h \in 1..MaxH, off \in {0, 1} : DoRRead(h, off, 2)
Spec == Init /\ [][Next]_vars

ContentsExact == \A f \in DOMAIN st.files : st.files[f] = ToRle(ghost[f])
NoDangling == /\ \A n \in DOMAIN st.names : st.names[n] \in DOMAIN st.files
              /\ \A h \in DOMAIN st.han : st.han[h].f \in DOMAIN st.files
              /\ DOMAIN st.files = Live(st)
OneFilePerName == \A n, m \in DOMAIN st.names : n # m => st.names[n] # st.names[m]
HandleStable == [][\A h \in DOMAIN st.han : h \in DOMAIN st'.han => st'.han[h].f = st.han[h].f]_vars
NamesStay == [][\A n \in DOMAIN st.names : n \in DOMAIN st'.names =>
   \/ st'.names[n] = st.names[n]
   \/ \E m \in DOMAIN st.names : m # n /\ m \notin DOMAIN st'.names /\ st'.names[n] = st.names[m]]_vars
(* --------- wrong variants: each must violate one of the properties ------- *)
CreateKeeps(x, e) == LET s1 == IF Has(x, e.n) THEN x ELSE NewFile(x, e.n) IN R(e.st = "ok" /\ ~e.null, Open(s1, e.h, "w", e.n))
CreateNew(x, e) == R(e.st = "ok" /\ ~e.null, Gc(Open(NewFile(x, e.n), e.h, "w", e.n)))
RenameLinks(x, e) == IF ~Has(x, e.n) THEN R(e.st # "ok", x) ELSE R(e.st = "ok", Gc([x EXCEPT !.names = Upd(@, e.to, x.names[e.n])]))
GcByName(x) == LET keep == {x.names[n] : n \in DOMAIN x.names} IN [x EXCEPT !.files = [f \in keep |-> x.files[f]]]
GcNever(x) == x
AppendFront(x, e) == LET f == x.han[e.h].f IN R(e.st = "ok", [x EXCEPT !.files[f] = Cat(e.d, @)])
=============================================================================
