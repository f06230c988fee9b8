------------------------------- MODULE UsageMC -------------------------------
(***************************************************************************)
(* One thread allocates blocks and accounts for them in a counter that     *)
(* other threads read without a lock.  The counter's values, in the order  *)
(* they were written, are `hist`; a reader may get any that is not older   *)
(* than what it knows (relaxed atomics).  A block's memory and its entry   *)
(* in the block table are accounted together (Update = "add").             *)
(*   Update  "add": one atomic addition; "load-store": the same for a      *)
(*           single writer; "recount": the counter is cleared and computed *)
(*           again; "estimate": a rounded amount first, corrected after    *)
(*   When    "before" the memory is handed out, or "later": with the next  *)
(*           block                                                         *)
(*   Atomic  FALSE: the two halves of the counter are written separately   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Sizes, MaxBlocks, MaxReads, Update, When, Atomic, Ptr
VARIABLES pc, blocks, hist, owed, out, done, pub, know, reads, ok
vars == <<pc, blocks, hist, owed, out, done, pub, know, reads, ok>>
\* hist: values of the counter; done: index in hist when the last allocation
\* was complete; know: reader -> index in hist
Idle == [busy |-> FALSE, v |-> <<>>]
Half == 16
Now == hist[Len(hist)]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Ptr + Sum(Tail(q))
Init == /\ pc = Idle /\ blocks = <<>> /\ hist = <<0>> /\ owed = 0 /\ out = 0 /\ done = 1 /\ pub = 1
        /\ know = [r \in Readers |-> 1] /\ reads = [r \in Readers |-> <<>>] /\ ok = TRUE
Values(n) ==      \* what is written to the counter to account for n bytes
  CASE Update = "add" -> <<Now + n>>
    [] Update = "load-store" -> <<Now + n>>
    [] Update = "recount" -> <<0, Now + n>>
    [] Update = "estimate" -> <<Now + 2 * n, Now + n>>
Torn(old, new) == IF Atomic THEN <<new>> ELSE <<(old \div Half) * Half + (new % Half), new>>
Obtain == /\ ~pc.busy /\ Len(blocks) < MaxBlocks
          /\ \E n \in Sizes : LET acc == IF When = "before" THEN n + Ptr ELSE owed IN
               /\ blocks' = Append(blocks, n) /\ owed' = (IF When = "before" THEN 0 ELSE n + Ptr)
               /\ pc' = [busy |-> TRUE, v |-> IF acc = 0 THEN <<>> ELSE IF Atomic THEN Values(acc) ELSE Torn(Now, Now + acc)]
          /\ UNCHANGED <<hist, out, done, pub, know, reads, ok>>
Write == /\ pc.busy /\ pc.v # <<>> /\ hist' = Append(hist, pc.v[1]) /\ pc' = [busy |-> TRUE, v |-> Tail(pc.v)]
         /\ UNCHANGED <<blocks, owed, out, done, pub, know, reads, ok>>
HandOut == /\ pc.busy /\ pc.v = <<>> /\ pc' = Idle /\ out' = out + blocks[Len(blocks)] /\ done' = Len(hist)
           /\ UNCHANGED <<blocks, hist, owed, pub, know, reads, ok>>
Publish == /\ ~pc.busy /\ pub # done /\ pub' = done /\ UNCHANGED <<pc, blocks, hist, owed, out, done, know, reads, ok>>
Observe(r) == /\ know[r] < pub /\ know' = [know EXCEPT ![r] = pub] /\ UNCHANGED <<pc, blocks, hist, owed, out, done, pub, reads, ok>>
\* ok: the answer is between the usage the reader knows of and the usage after
\* the allocation going on
Read(r) == /\ Len(reads[r]) < MaxReads
           /\ \E i \in know[r]..Len(hist) :
                /\ know' = [know EXCEPT ![r] = i] /\ reads' = [reads EXCEPT ![r] = Append(@, hist[i])]
                /\ ok' = (ok /\ hist[i] <= Sum(blocks))
           /\ UNCHANGED <<pc, blocks, hist, owed, out, done, pub>>
Next == Obtain \/ Write \/ HandOut \/ Publish \/ \E r \in Readers : Observe(r) \/ Read(r)
Spec == Init /\ [][Next]_vars
Exact == ~pc.busy => Now = Sum(blocks)
Covered == ~pc.busy => Now >= out
NeverMore == ok
Grows == \A r \in Readers : \A i \in 1..Len(reads[r]) - 1 : reads[r][i] <= reads[r][i + 1]
=============================================================================
