------------------------------ MODULE StatusMC ------------------------------
(* include/lsmdb/status.h: each slot is a Status object owning at most one   *)
(* heap state; the abstract value of every slot is carried along.            *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS Slots, Vals, MaxSteps
VARIABLES ptr,    \* slot -> heap id, 0 = no state (success), -1 = no object
          heap,   \* heap id -> value
          val,    \* slot -> value ("ok", v), or "moved" (any)
          nh, steps, last
vars == <<ptr, heap, val, nh, steps, last>>
View == <<ptr, heap, val, steps>>
Init == /\ ptr = [s \in Slots |-> -1] /\ heap = [x \in {} |-> 0] /\ val = [s \in Slots |-> "none"]
        /\ nh = 0 /\ steps = 0 /\ last = "init"
Free(h, p) == IF p > 0 THEN [x \in DOMAIN h \ {p} |-> h[x]] ELSE h
New(h, id, v) == [x \in DOMAIN h \cup {id} |-> IF x = id THEN v ELSE h[x]]
\* the smallest unused heap id keeps the state space small
Fresh(h) == CHOOSE i \in 1..(Cardinality(DOMAIN h) + 1) : i \notin DOMAIN h
Op(r) == steps < MaxSteps /\ steps' = steps + 1 /\ last' = ToJson(r) /\ nh' = 0
Alive(s) == ptr[s] # -1
Copy(h, p) == IF p = 0 THEN [p |-> 0, h |-> h] ELSE LET i == Fresh(h) IN [p |-> i, h |-> New(h, i, heap[p])]

Make(s, v) ==
  /\ ~Alive(s) /\ Op([o |-> "make", s |-> s, v |-> v])
  /\ IF v = "ok" THEN ptr' = [ptr EXCEPT ![s] = 0] /\ heap' = heap
     ELSE LET i == Fresh(heap) IN ptr' = [ptr EXCEPT ![s] = i] /\ heap' = New(heap, i, v)
  /\ val' = [val EXCEPT ![s] = v]
CopyCtor(s, t) ==
  /\ ~Alive(s) /\ Alive(t) /\ Op([o |-> "cctor", s |-> s, t |-> t])
  /\ LET c == Copy(heap, ptr[t]) IN ptr' = [ptr EXCEPT ![s] = c.p] /\ heap' = c.h
  /\ val' = [val EXCEPT ![s] = val[t]]
MoveCtor(s, t) ==
  /\ ~Alive(s) /\ Alive(t) /\ Op([o |-> "mctor", s |-> s, t |-> t])
  /\ ptr' = [ptr EXCEPT ![s] = ptr[t], ![t] = 0] /\ heap' = heap
  /\ val' = [val EXCEPT ![s] = val[t], ![t] = "moved"]
CopyAssign(s, t) ==
  /\ Alive(s) /\ Alive(t) /\ Op([o |-> "cass", s |-> s, t |-> t])
  /\ IF ptr[s] = ptr[t] THEN UNCHANGED <<ptr, heap>>
     ELSE LET h1 == Free(heap, ptr[s])
              c == IF ptr[t] = 0 THEN [p |-> 0, h |-> h1]
                   ELSE LET i == Fresh(h1) IN [p |-> i, h |-> New(h1, i, heap[ptr[t]])]
          IN ptr' = [ptr EXCEPT ![s] = c.p] /\ heap' = c.h
  /\ val' = [val EXCEPT ![s] = val[t]]
MoveAssign(s, t) ==
  /\ Alive(s) /\ Alive(t) /\ Op([o |-> "mass", s |-> s, t |-> t])
  /\ ptr' = [ptr EXCEPT ![s] = ptr[t], ![t] = ptr[s]] /\ heap' = heap
  /\ val' = IF s = t THEN val ELSE [val EXCEPT ![s] = val[t], ![t] = "moved"]
Destroy(s) ==
  /\ Alive(s) /\ Op([o |-> "kill", s |-> s])
  /\ heap' = Free(heap, ptr[s]) /\ ptr' = [ptr EXCEPT ![s] = -1] /\ val' = [val EXCEPT ![s] = "none"]
Next == \/ \E s \in Slots, v \in Vals \cup {"ok"} : Make(s, v)
        \/ \E s, t \in Slots : CopyCtor(s, t) \/ MoveCtor(s, t) \/ CopyAssign(s, t) \/ MoveAssign(s, t)
        \/ \E s \in Slots : Destroy(s)
Spec == Init /\ [][Next]_vars
Owned == {ptr[s] : s \in Slots} \ {0, -1}
NoDangling == Owned \subseteq DOMAIN heap
NoLeak == DOMAIN heap \subseteq Owned
NoSharing == \A s, t \in Slots : s # t /\ ptr[s] > 0 => ptr[s] # ptr[t]
ValueRight == \A s \in Slots : val[s] \notin {"none", "moved"} =>
   IF val[s] = "ok" THEN ptr[s] = 0 ELSE ptr[s] > 0 /\ heap[ptr[s]] = val[s]
(* --------- wrong variants: each must violate one of the invariants ------- *)
CopyShares(h, p) == [p |-> p, h |-> h]
FreeNever(h, p) == h
=============================================================================
