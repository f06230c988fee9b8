------------------------------ MODULE PosixFsMC ------------------------------
(* Exhaustive exploration of the namespace specification, also the source of *)
(* the programs the driver runs.                                             *)
EXTENDS PosixFs, TLC, Json
CONSTANTS Paths, MaxSteps, MaxData, MaxLinks
VARIABLES st, steps, last
vars == <<st, steps, last>>
View == <<st, steps>>
PathsDef == {<<"a">>, <<"b">>, <<"d">>, <<"d", "x">>, <<"d", "e">>, <<"d", "e", "z">>}
Init == st = EmptyFs /\ steps = 0 /\ last = "\"\""
E0(o, p) == [o |-> o, p |-> p, to |-> <<>>, inj |-> ""]
Do(e) ==
  /\ steps < MaxSteps /\ steps' = steps + 1
  /\ st' = (IF Errs(st, e) = {} THEN After(st, e) ELSE st)
  /\ last' = ToJson([o |-> e.o, p |-> e.p, to |-> e.to])
WithData(o, p) == [o |-> o, p |-> p, to |-> <<>>, inj |-> "", d |-> <<steps + 1>>]
Create(p) == (\A q \in DOMAIN st.tree : Len(st.tree[q].c) <= MaxData) /\ Do(WithData("create", p))
AppendTo(p) == (IsFile(st, p) => Len(st.tree[p].c) < MaxData) /\ Do(WithData("append", p))
Remove(p) == Do(E0("remove", p))
Mkdir(p) == Do(E0("mkdir", p))
Rmdir(p) == Do(E0("rmdir", p))
Links == {q \in DOMAIN st.tree : IsLink(st, q)}
Symlink(p, q) == Cardinality(Links) < MaxLinks /\ p # q /\ Do([o |-> "symlink", p |-> p, to |-> q, inj |-> ""])
Rename(p, q) == Do([o |-> "rename", p |-> p, to |-> q, inj |-> ""])
Next == \/ \E p \in Paths : Create(p) \/ AppendTo(p) \/ Remove(p) \/ Mkdir(p) \/ Rmdir(p)
        \/ \E p, q \in Paths : Rename(p, q) \/ Symlink(p, q)
Spec == Init /\ [][Next]_vars
\* every object lives in a directory
TreeOK == \A p \in DOMAIN st.tree : p = <<>> \/ IsDir(st, Parent(p))
\* a renamed subtree arrives unchanged, and nothing else moves
Step(o) == last' # last /\ \E p, q \in Paths : last' = ToJson([o |-> o, p |-> p, to |-> q])
RenameMoves == [][\A p0, q0 \in Paths :
   (last' = ToJson([o |-> "rename", p |-> p0, to |-> q0]) /\ steps' = steps + 1 /\ st' # st) =>
      LET p == Res(st, p0, FALSE).p
          q == Res(st, q0, FALSE).p
      IN /\ {SubSeq(x, Len(q) + 1, Len(x)) : x \in Kids(st', q)} = {SubSeq(x, Len(p) + 1, Len(x)) : x \in Kids(st, p)}
         /\ st'.tree[q] = st.tree[p] /\ p \notin DOMAIN st'.tree
         /\ \A x \in DOMAIN st.tree : (x # p /\ x # q /\ ~Under(x, p)) => (x \in DOMAIN st'.tree /\ st'.tree[x] = st.tree[x])]_vars
OnlyNamed == [][\A x \in DOMAIN st.tree \cap DOMAIN st'.tree :
   st.tree[x] # st'.tree[x] => \/ \E o \in {"create", "append"}, p \in Paths : last' = ToJson([o |-> o, p |-> p, to |-> <<>>]) /\ Res(st, p, TRUE).p = x
                               \/ \E p, q \in Paths : last' = ToJson([o |-> "rename", p |-> p, to |-> q]) /\ Res(st, q, FALSE).p = x]_vars
\* removing, renaming or making a name never touches what a link stands for
LinksStay == [][\A p \in Paths : (last' = ToJson([o |-> "remove", p |-> p, to |-> <<>>]) /\ steps' = steps + 1) =>
   DOMAIN st.tree \ DOMAIN st'.tree \subseteq {Res(st, p, FALSE).p}]_vars
(* --------- wrong variants: each must violate one of the properties ------- *)
MovedAlone(x, p, q) == [x EXCEPT !.tree = [y \in (DOMAIN x.tree \ {p}) \cup {q} |-> IF y = q THEN x.tree[p] ELSE x.tree[y]]]
Copied(x, p, q) ==
  LET new == {q \o SubSeq(y, Len(p) + 1, Len(y)) : y \in {z \in DOMAIN x.tree : z = p \/ Under(z, p)}}
      back(y) == p \o SubSeq(y, Len(q) + 1, Len(y))
  IN [x EXCEPT !.tree = [y \in DOMAIN x.tree \cup new |-> IF y \in new THEN x.tree[back(y)] ELSE x.tree[y]]]
FollowsAll(o) == TRUE
NoKids(x, p) == {}
=============================================================================
