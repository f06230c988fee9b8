------------------------------ MODULE OwnTrace ------------------------------
(***************************************************************************)
(* Decides recorded executions of threads that share nothing but immutable *)
(* values and the code (C31).  Every thread is a separate instance of the  *)
(* sequential specifications: an ordered set with a position, a generator, *)
(* an arena's usage, an LRU cache, an in-memory file system, and the       *)
(* definitions of the functions; no step of one thread appears in the      *)
(* state of another.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
O == INSTANCE OrderedSet
R == INSTANCE Lehmer WITH M <- 2147483647, A <- 16807
C == INSTANCE LRUCache
T == INSTANCE TextForms
V == INSTANCE Coding
B == INSTANCE ByteOrder
MulReal == <<147, 167, 164, 198>>
H == INSTANCE Hash WITH LB <- 8, NL <- 4, Mul <- MulReal, XorShift <- 16, LastShift <- 24, Base <- 256

Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, w, sh      \* w: thread -> what it owns; sh: the shared values
tvars == <<l, w, sh>>
NoFcn == [x \in {} |-> 0]
SeedOf(p) == LET s == (p[1] % 32768) * 65536 + p[2] IN IF s = 0 \/ s = 2147483647 THEN 1 ELSE s
Fresh(cap, seed) == [set |-> <<>>, at |-> -1, x |-> SeedOf(seed), usage |-> 0, out |-> 0, c |-> C!EmptyCache, cap |-> C!PerShard(cap), fs |-> NoFcn]
Ascii(c) == CASE c = 0 -> <<79, 75>>
   [] c = 1 -> <<78,111,116,70,111,117,110,100,58,32>>
   [] c = 2 -> <<67,111,114,114,117,112,116,105,111,110,58,32>>
   [] c = 3 -> <<78,111,116,32,105,109,112,108,101,109,101,110,116,101,100,58,32>>
   [] c = 4 -> <<73,110,118,97,108,105,100,32,97,114,103,117,109,101,110,116,58,32>>
   [] c = 5 -> <<73,79,32,101,114,114,111,114,58,32>>
Printed(c, m1, m2) == IF c = 0 THEN Ascii(0) ELSE Ascii(c) \o m1 \o (IF m2 = <<>> THEN <<>> ELSE <<58, 32>> \o m2)
Bits(v) == V!BitsOf(v, 8, 8 * Len(v))
Enc(e) == V!Varint(Bits(e.v), 7) \o SubSeq(e.v, 1, 4) \o <<Len(e.s)>> \o e.s
Decimal(v) == LET d == T!InBase(T!Rev(v), 256, 10) IN [i \in 1..Len(d) |-> 48 + d[i]]
MaxDigits == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
ParseOK(e) ==
  LET n == T!LeadLen(e.v, 1, 48, 10)
      ds == T!Strip([i \in 1..n |-> e.v[i] - 48])
  IN IF n = 0 \/ ~T!NumLE(ds, MaxDigits) THEN ~e.ok
     ELSE e.ok /\ e.rest = SubSeq(e.v, n + 1, Len(e.v)) /\ T!Strip(T!Rev(e.r)) = T!Strip(T!InBase(ds, 10, 256))
Dead(e) == {e.del[i] : i \in 1..Len(e.del)}
DelOK(e, c) == Dead(e) = c.dead /\ Len(e.del) = Cardinality(c.dead)
\* what thread e.t owns after the operation, given what it owns now; the
\* operation's answer is right
Stays(x, y) == y = x
After(e, x, y) ==
  CASE e.o = "ins" -> /\ e.r = O!HasIn(x.set, e.k) /\ y = [x EXCEPT !.set = IF e.r THEN @ ELSE O!InsIn(@, e.k)]
    [] e.o = "has" -> e.r = O!HasIn(x.set, e.k) /\ Stays(x, y)
    [] e.o = "seek" -> e.r = O!SeekIn(x.set, e.k) /\ y = [x EXCEPT !.at = e.r]
    [] e.o = "next" -> e.r = (IF x.at = -1 THEN O!FirstIn(x.set) ELSE O!NextIn(x.set, x.at)) /\ y = [x EXCEPT !.at = e.r]
    [] e.o = "walk" -> e.r = x.set /\ y = [x EXCEPT !.at = -1]
    [] e.o = "rnd" -> e.r = R!NextOf(x.x) /\ y = [x EXCEPT !.x = e.r]
    [] e.o = "uni" -> LET z == R!NextOf(x.x) IN e.r = z % e.n /\ y = [x EXCEPT !.x = z]
    [] e.o = "one" -> LET z == R!NextOf(x.x) IN e.r = (z % e.n = 0) /\ y = [x EXCEPT !.x = z]
    [] e.o = "alloc" -> e.u >= x.usage /\ e.u >= x.out + e.n /\ y = [x EXCEPT !.usage = e.u, !.out = @ + e.n]
    [] e.o = "cins" -> LET c == C!DoInsert(x.c, x.cap, e.id, e.k, e.s, e.c) IN DelOK(e, c) /\ y = [x EXCEPT !.c = c]
    [] e.o = "clook" -> LET c == C!DoLookup(x.c, e.k) IN e.r = C!LookupResult(x.c, e.k) /\ DelOK(e, c) /\ y = [x EXCEPT !.c = c]
    [] e.o = "cerase" -> LET c == C!DoErase(x.c, e.k) IN DelOK(e, c) /\ y = [x EXCEPT !.c = c]
    [] e.o = "crel" -> LET c == C!DoRelease(x.c, e.id) IN DelOK(e, c) /\ y = [x EXCEPT !.c = c]
    [] e.o = "ctotal" -> e.r = C!TotalCharge(x.c) /\ e.del = <<>> /\ Stays(x, y)
    [] e.o = "fmt" -> e.r = Decimal(e.v) /\ Stays(x, y)
    [] e.o = "esc" -> e.r = T!Escape(e.v) /\ Stays(x, y)
    [] e.o = "parse" -> ParseOK(e) /\ Stays(x, y)
    [] e.o = "enc" -> e.r = Enc(e) /\ Stays(x, y)
    [] e.o = "dec" -> e.ok /\ e.r = e.v /\ e.rs = e.s /\ Stays(x, y)
    [] e.o = "hash" -> e.r = H!HashOf(e.v, e.seed) /\ Stays(x, y)
    [] e.o = "stat" -> e.r = Printed(e.c, e.m1, e.m2) /\ e.p = <<e.c>> /\ Stays(x, y)
    [] e.o = "shst" -> /\ e.r = Printed(sh.c, sh.m1, sh.m2) /\ e.r2 = e.r /\ e.p = <<sh.c>> /\ Stays(x, y)
    [] e.o = "shsl" -> /\ e.c = B!Cmp(sh.s1, sh.s2) /\ e.eq = (sh.s1 = sh.s2) /\ e.sw = B!Prefix(sh.s2, sh.s1)
                       /\ e.r = sh.s1 /\ e.r2 = sh.s2 /\ e.last = sh.s1[Len(sh.s1)] /\ Stays(x, y)
    [] e.o = "mem" -> /\ e.ok /\ e.r = e.v /\ e.size = Len(e.v)
                      /\ y = [x EXCEPT !.fs = (e.f :> e.v) @@ @]
                      /\ {e.kids[i] : i \in 1..Len(e.kids)} = DOMAIN y.fs /\ Len(e.kids) = Cardinality(DOMAIN y.fs)
    [] e.o = "file" -> e.ok /\ e.r = e.v /\ e.tail = e.m /\ e.size = Len(e.v) /\ Stays(x, y)
    [] OTHER -> FALSE
Right(e, y) == After(e, w[e.t], y)
\* the only thread whose state an operation may change is the one that calls it
Result(e) ==       \* what the thread owns afterwards, if the answer is right
  LET x == w[e.t] IN
  CASE e.o = "ins" -> [x EXCEPT !.set = IF e.r \/ O!HasIn(x.set, e.k) THEN @ ELSE O!InsIn(@, e.k)]
    [] e.o \in {"seek", "next"} -> [x EXCEPT !.at = e.r]
    [] e.o = "walk" -> [x EXCEPT !.at = -1]
    [] e.o = "rnd" -> [x EXCEPT !.x = e.r]
    [] e.o \in {"uni", "one"} -> [x EXCEPT !.x = R!NextOf(@)]
    [] e.o = "alloc" -> [x EXCEPT !.usage = e.u, !.out = @ + e.n]
    [] e.o = "cins" -> [x EXCEPT !.c = C!DoInsert(@, x.cap, e.id, e.k, e.s, e.c)]
    [] e.o = "clook" -> [x EXCEPT !.c = C!DoLookup(@, e.k)]
    [] e.o = "cerase" -> [x EXCEPT !.c = C!DoErase(@, e.k)]
    [] e.o = "crel" -> [x EXCEPT !.c = C!DoRelease(@, e.id)]
    [] e.o = "mem" -> [x EXCEPT !.fs = (e.f :> e.v) @@ @]
    [] OTHER -> x
Step(e) ==
  CASE e.e = "Reset" ->
         /\ w' = [t \in 1..e.n |-> Fresh(e.caps[t], e.seeds[t])]
         /\ sh' = [c |-> e.c, m1 |-> e.m1, m2 |-> e.m2, s1 |-> e.s1, s2 |-> e.s2]
    [] e.e = "Op" -> LET y == Result(e) IN Right(e, y) /\ w' = [w EXCEPT ![e.t] = y] /\ UNCHANGED sh
    [] e.e = "Intact" -> e.r /\ UNCHANGED <<w, sh>>
    [] e.e = "CGone" -> LET c == C!DoDestroy(w[e.t].c) IN
         /\ \A i \in DOMAIN w[e.t].c.ent : w[e.t].c.ent[i].refs = 0
         /\ DelOK(e, c) /\ w' = [w EXCEPT ![e.t].c = c] /\ UNCHANGED sh
    [] OTHER -> FALSE
TraceInit == l = 1 /\ w = <<>> /\ sh = [c |-> 0]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
