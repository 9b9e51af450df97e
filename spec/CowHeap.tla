------------------------------ MODULE CowHeap ------------------------------
(***************************************************************************)
(* Reference-counted nodes with copy on write: what std::sync::Arc gives   *)
(* the collections.  A heap is a record [n |-> nodes by id, cp |-> number  *)
(* of elements copied].  A node carries its count in `rc`; id 0 is null.   *)
(* Operators take the heap and return <<heap, result>>.  A reference that  *)
(* is passed in is owned by the operator, and so is one it returns, so     *)
(* that counts are exact at every point.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS KidsOf(_),     \* sequence of ids a node refers to (0 allowed)
          MapKids(_, _), \* the node with every kid k replaced by f[k]
          ElemsOf(_)     \* number of elements in a node

Empty == [n |-> <<>>, cp |-> 0]
Ids(S) == DOMAIN S.n
FreeId(S) == CHOOSE i \in 1 .. Cardinality(Ids(S)) + 1 : i \notin Ids(S)

\* a new node, referred to once
Alloc(S, nd) == LET i == FreeId(S)
                IN <<[S EXCEPT !.n = TLCEval((i :> [nd EXCEPT !.rc = 1]) @@ @)], i>>

Inc(S, id) == IF id = 0 THEN S ELSE [S EXCEPT !.n[id].rc = @ + 1]
RECURSIVE IncAll(_, _)
IncAll(S, ks) == IF ks = <<>> THEN S ELSE IncAll(Inc(S, Head(ks)), Tail(ks))

Remove(S, id) == [S EXCEPT !.n = TLCEval([i \in Ids(S) \ {id} |-> S.n[i]])]
\* give up one reference; a node without any is freed, with its references
RECURSIVE Dec(_, _)
RECURSIVE DecAll(_, _)
Dec(S, id) == IF id = 0 THEN S
              ELSE IF S.n[id].rc > 1 THEN [S EXCEPT !.n[id].rc = @ - 1]
              ELSE DecAll(Remove(S, id), KidsOf(S.n[id]))
DecAll(S, ks) == IF ks = <<>> THEN S ELSE DecAll(Dec(S, Head(ks)), Tail(ks))

Shared(S, id) == S.n[id].rc > 1
CopyCost(S, nd) == [S EXCEPT !.cp = @ + ElemsOf(nd)]

\* Arc::make_mut: the node itself if this is its only reference, else a copy
MakeMut(S, id) ==
    IF ~Shared(S, id) THEN <<S, id>>
    ELSE LET nd == S.n[id]
             a == Alloc(IncAll(CopyCost(Dec(S, id), nd), KidsOf(nd)), nd)
         IN a

\* Arc::try_unwrap or else clone: the contents, with their references
Take(S, id) ==
    LET nd == S.n[id]
    IN IF ~Shared(S, id) THEN <<Remove(S, id), nd>>
       ELSE <<IncAll(CopyCost(Dec(S, id), nd), KidsOf(nd)), nd>>

(***************************************************************************)
(* Well-formedness: counts are exact and nothing is left behind.           *)
(***************************************************************************)
RECURSIVE RefsFrom(_, _, _)
RefsFrom(S, l, acc) == \* how often each node is referred to by another
    IF l = <<>> THEN acc
    ELSE RefsFrom(S, Tail(l), [acc EXCEPT ![Head(l)] = @ + 1])
RECURSIVE AllKids(_, _)
AllKids(S, todo) == IF todo = {} THEN <<>>
                    ELSE LET i == CHOOSE i \in todo : TRUE IN KidsOf(S.n[i]) \o AllKids(S, todo \ {i})
CountsOK(S, roots) == \* roots: sequence of owned references
    LET held == RefsFrom(S, AllKids(S, Ids(S)) \o roots, TLCEval([i \in Ids(S) \cup {0} |-> 0]))
    IN \A id \in Ids(S) : S.n[id].rc >= 1 /\ S.n[id].rc = held[id]

(***************************************************************************)
(* Renaming nodes in preorder, so that equal shapes are equal states.      *)
(***************************************************************************)
RECURSIVE Pre(_, _, _)
RECURSIVE PreAll(_, _, _)
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
Pre(S, id, acc) == IF id = 0 \/ InSeq(id, acc) THEN acc ELSE PreAll(S, KidsOf(S.n[id]), Append(acc, id))
PreAll(S, ks, acc) == IF ks = <<>> THEN acc ELSE PreAll(S, Tail(ks), Pre(S, Head(ks), acc))
Order(S, roots) == PreAll(S, roots, <<>>)
RECURSIVE NumberAll(_, _, _)
NumberAll(o, i, f) == IF i > Len(o) THEN f ELSE NumberAll(o, i + 1, (o[i] :> i) @@ f)
Renaming(S, roots) == NumberAll(Order(S, roots), 1, 0 :> 0)
\* nodes not reached have no number (a leak: the order is then too short)
RECURSIVE RenameFrom(_, _, _, _, _)
RenameFrom(S, o, f, i, acc) == IF i > Len(o) THEN acc ELSE RenameFrom(S, o, f, i + 1, Append(acc, MapKids(S.n[o[i]], f)))
Rename(S, o, f) == RenameFrom(S, o, f, 1, <<>>)
=============================================================================
