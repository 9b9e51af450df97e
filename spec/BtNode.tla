------------------------------- MODULE BtNode -------------------------------
(***************************************************************************)
(* The algorithms of src/btree.rs on a copy-on-write heap.  A node is      *)
(* [e, k, rc]: entries <<key, value>> in order, and children (none in a    *)
(* leaf, one more than entries otherwise).  Every node but the root holds  *)
(* Occ .. 2*Occ+1 entries.  Entry i (from 1) lies between children i, i+1. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Occ

BKids(n) == n.k
BMap(n, f) == [n EXCEPT !.k = [i \in DOMAIN @ |-> f[@[i]]]]
BElems(n) == Len(n.e)
INSTANCE CowHeap WITH KidsOf <- BKids, MapKids <- BMap, ElemsOf <- BElems

MaxOcc == 2 * Occ + 1
Put1(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s)) \* x becomes s[i]
Cut1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
From(s, i) == SubSeq(s, i, Len(s))
IsLeaf(n) == n.k = <<>>

\* first entry whose key is not less than k
RECURSIVE FindB(_, _, _)
FindB(e, k, i) == IF i > Len(e) \/ e[i][1] >= k THEN i ELSE FindB(e, k, i + 1)
Find(e, k) == FindB(e, k, 1)
AtKey(e, i, k) == i <= Len(e) /\ e[i][1] = k

(***************************************************************************)
(* Insertion into a node that is its owner's alone.  Result: heap, old     *)
(* value or <<>>, and <<lhs id, entry>> if the node was split: the node    *)
(* itself keeps the upper part.                                            *)
(***************************************************************************)
SplitNode(S, id) ==
    LET n == S.n[id]
        a == Alloc(S, [e |-> SubSeq(n.e, 1, Occ), k |-> SubSeq(n.k, 1, IF IsLeaf(n) THEN 0 ELSE Occ + 1), rc |-> 1])
        up == [n EXCEPT !.e = From(@, Occ + 2), !.k = IF IsLeaf(n) THEN <<>> ELSE From(@, Occ + 2)]
    IN <<[a[1] EXCEPT !.n[id] = up], a[2], n.e[Occ + 1]>>
RECURSIVE InsN(_, _, _, _)
InsN(S, id, k, v) ==
    LET n == S.n[id]
        i == Find(n.e, k)
    IN IF AtKey(n.e, i, k) THEN <<[S EXCEPT !.n[id].e[i] = <<k, v>>], <<n.e[i][2]>>, <<>> >>
       ELSE
       LET r == IF IsLeaf(n) THEN <<S, <<>>, <<0, <<k, v>> >> >>
                ELSE LET m == MakeMut(S, n.k[i])
                     IN InsN([m[1] EXCEPT !.n[id].k[i] = m[2]], m[2], k, v)
       IN IF r[3] = <<>> THEN r
          ELSE LET S1 == [r[1] EXCEPT !.n[id].e = Put1(@, i, r[3][2]),
                                      !.n[id].k = IF r[3][1] = 0 THEN @ ELSE Put1(@, i, r[3][1])]
               IN IF Len(S1.n[id].e) <= MaxOcc THEN <<S1, r[2], <<>> >>
                  ELSE LET q == SplitNode(S1, id) IN <<q[1], r[2], <<q[2], q[3]>> >>
\* <<heap, root, old value or <<>>>>
Ins(S, root, k, v) ==
    IF root = 0 THEN LET a == Alloc(S, [e |-> << <<k, v>> >>, k |-> <<>>, rc |-> 1]) IN <<a[1], a[2], <<>> >>
    ELSE LET m == MakeMut(S, root)
             r == InsN(m[1], m[2], k, v)
         IN IF r[3] = <<>> THEN <<r[1], m[2], r[2]>>
            ELSE LET a == Alloc(r[1], [e |-> <<r[3][2]>>, k |-> <<r[3][1], m[2]>>, rc |-> 1])
                 IN <<a[1], a[2], r[2]>>
RECURSIVE InsAll(_, _, _)
InsAll(S, root, l) == IF l = <<>> THEN <<S, root>>
                      ELSE LET q == Ins(S, root, l[1][1], l[1][2]) IN InsAll(q[1], q[2], Tail(l))

(***************************************************************************)
(* Rebalancing: child `at` of id is short of entries.                      *)
(***************************************************************************)
Own1(S, id, i) == LET m == MakeMut(S, S.n[id].k[i]) IN <<[m[1] EXCEPT !.n[id].k[i] = m[2]], m[2]>>
RotLf(S, id, i) == \* entry i goes down to child i, child i+1 gives one up
    LET r == Own1(S, id, i + 1)
        l == Own1(r[1], id, i)
        T == l[1]
        rn == T.n[r[2]]
    IN [T EXCEPT !.n[id].e[i] = rn.e[1],
                 !.n[r[2]].e = Tail(@), !.n[r[2]].k = IF @ = <<>> THEN @ ELSE Tail(@),
                 !.n[l[2]].e = Append(@, T.n[id].e[i]),
                 !.n[l[2]].k = IF rn.k = <<>> THEN @ ELSE Append(@, rn.k[1])]
RotRt(S, id, i) == \* entry i goes down to child i+1, child i gives one up
    LET l == Own1(S, id, i)
        r == Own1(l[1], id, i + 1)
        T == r[1]
        ln == T.n[l[2]]
    IN [T EXCEPT !.n[id].e[i] = ln.e[Len(ln.e)],
                 !.n[l[2]].e = SubSeq(@, 1, Len(@) - 1),
                 !.n[l[2]].k = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1),
                 !.n[r[2]].e = <<T.n[id].e[i]>> \o @,
                 !.n[r[2]].k = IF ln.k = <<>> THEN @ ELSE <<ln.k[Len(ln.k)]>> \o @]
MergeKids(S, id, i) == \* child i, entry i and child i+1 become one
    LET n == S.n[id]
        S1 == [S EXCEPT !.n[id].e = Cut1(@, i), !.n[id].k = Cut1(@, i)]
        t == Take(S1, n.k[i])
        r == Own1(t[1], id, i)
    IN [r[1] EXCEPT !.n[r[2]].e = (t[2].e \o <<n.e[i]>>) \o @, !.n[r[2]].k = t[2].k \o @]
Rebal(S, id, at) ==
    LET n == S.n[id]
        T == IF at > 1
             THEN IF Len(S.n[n.k[at - 1]].e) > MaxOcc - Occ THEN RotRt(S, id, at - 1) ELSE MergeKids(S, id, at - 1)
             ELSE IF Len(S.n[n.k[at + 1]].e) > MaxOcc - Occ THEN RotLf(S, id, at) ELSE MergeKids(S, id, at)
    IN <<T, Len(T.n[id].e) < Occ>>

\* <<heap, removed entry, short?>>, in a node that is its owner's alone
After(q, id, at) == IF q[3] THEN LET b == Rebal(q[1], id, at) IN <<b[1], q[2], b[2]>> ELSE q
RECURSIVE PopFN(_, _)
PopFN(S, id) ==
    LET n == S.n[id]
    IN IF IsLeaf(n) THEN <<[S EXCEPT !.n[id].e = Tail(@)], n.e[1], Len(n.e) - 1 < Occ>>
       ELSE LET m == Own1(S, id, 1) IN After(PopFN(m[1], m[2]), id, 1)
RECURSIVE PopLN(_, _)
PopLN(S, id) ==
    LET n == S.n[id]
        z == Len(n.k)
    IN IF IsLeaf(n) THEN <<[S EXCEPT !.n[id].e = SubSeq(@, 1, Len(@) - 1)], n.e[Len(n.e)], Len(n.e) - 1 < Occ>>
       ELSE LET m == Own1(S, id, z) IN After(PopLN(m[1], m[2]), id, z)
RECURSIVE RmN(_, _, _) \* the key is there
RmN(S, id, k) ==
    LET n == S.n[id]
        i == Find(n.e, k)
    IN IF AtKey(n.e, i, k)
       THEN IF IsLeaf(n) THEN <<[S EXCEPT !.n[id].e = Cut1(@, i)], n.e[i], Len(n.e) - 1 < Occ>>
            ELSE LET m == Own1(S, id, i)
                     p == PopLN(m[1], m[2])
                 IN After(<<[p[1] EXCEPT !.n[id].e[i] = p[2]], n.e[i], p[3]>>, id, i)
       ELSE LET m == Own1(S, id, i) IN After(RmN(m[1], m[2], k), id, i)
\* <<heap, root, removed entry or <<>>>>
AtRoot(q, root) == IF q[1].n[root].e = <<>>
                   THEN <<Remove(q[1], root), IF q[1].n[root].k = <<>> THEN 0 ELSE q[1].n[root].k[1], q[2]>>
                   ELSE <<q[1], root, q[2]>>
RmFirst(S, root) == IF root = 0 THEN <<S, 0, <<>> >>
                    ELSE LET m == MakeMut(S, root) IN AtRoot(PopFN(m[1], m[2]), m[2])
RmLast(S, root) == IF root = 0 THEN <<S, 0, <<>> >>
                   ELSE LET m == MakeMut(S, root) IN AtRoot(PopLN(m[1], m[2]), m[2])
RECURSIVE Contains(_, _, _)
Contains(S, id, k) == IF id = 0 THEN FALSE
                      ELSE LET n == S.n[id]
                               i == Find(n.e, k)
                           IN AtKey(n.e, i, k) \/ (~IsLeaf(n) /\ Contains(S, n.k[i], k))
Rm(S, root, k) == IF ~Contains(S, root, k) THEN <<S, root, <<>> >>
                  ELSE LET m == MakeMut(S, root) IN AtRoot(RmN(m[1], m[2], k), m[2])

\* get_mut: copies the path even if the key is not there; d maps values to new ones
RECURSIVE TouchN(_, _, _, _)
TouchN(S, id, k, d) ==
    LET n == S.n[id]
        i == Find(n.e, k)
    IN IF AtKey(n.e, i, k) THEN [S EXCEPT !.n[id].e[i][2] = d[@]]
       ELSE IF IsLeaf(n) THEN S
       ELSE LET m == Own1(S, id, i) IN TouchN(m[1], m[2], k, d)
Touch(S, root, k, d) == IF root = 0 THEN <<S, 0>>
                        ELSE LET m == MakeMut(S, root) IN <<TouchN(m[1], m[2], k, d), m[2]>>
\* iter_mut run to the end
RECURSIVE TouchAllN(_, _, _)
RECURSIVE TouchKids(_, _, _, _)
TouchKids(S, id, i, d) == IF i > Len(S.n[id].k) THEN S
                          ELSE LET m == Own1(S, id, i) IN TouchKids(TouchAllN(m[1], m[2], d), id, i + 1, d)
TouchAllN(S, id, d) == LET T == [S EXCEPT !.n[id].e = [i \in DOMAIN @ |-> <<@[i][1], d[@[i][2]]>>]]
                       IN TouchKids(T, id, 1, d)
TouchAll(S, root, d) == IF root = 0 THEN <<S, 0>>
                        ELSE LET m == MakeMut(S, root) IN <<TouchAllN(m[1], m[2], d), m[2]>>

(***************************************************************************)
(* The entries in order; consuming iteration.                              *)
(***************************************************************************)
RECURSIVE Flat(_, _)
RECURSIVE FlatN(_, _, _)
FlatN(S, n, i) == \* from child i on
    (IF IsLeaf(n) THEN <<>> ELSE Flat(S, n.k[i])) \o
    (IF i > Len(n.e) THEN <<>> ELSE <<n.e[i]>> \o FlatN(S, n, i + 1))
Flat(S, id) == IF id = 0 THEN <<>> ELSE FlatN(S, S.n[id], 1)

\* take everything out: moves what is owned, copies what is shared
RECURSIVE Drain(_, _)
RECURSIVE DrainAll(_, _)
Drain(S, id) == IF id = 0 THEN S
                ELSE IF Shared(S, id) THEN [Dec(S, id) EXCEPT !.cp = @ + Len(Flat(S, id))]
                ELSE DrainAll(Remove(S, id), S.n[id].k)
DrainAll(S, ks) == IF ks = <<>> THEN S ELSE DrainAll(Drain(S, Head(ks)), Tail(ks))

(***************************************************************************)
(* What holds of trees.                                                    *)
(***************************************************************************)
RECURSIVE Depth(_, _)
Depth(S, id) == IF id = 0 THEN 0 ELSE IF IsLeaf(S.n[id]) THEN 1 ELSE 1 + Depth(S, S.n[id].k[1])
Balanced(S, roots) ==
    /\ \A i \in Ids(S) : LET n == S.n[i]
                         IN /\ Len(n.e) <= MaxOcc
                            /\ Len(n.e) >= IF i \in roots THEN 1 ELSE Occ
                            /\ n.k = <<>> \/ (/\ Len(n.k) = Len(n.e) + 1
                                              /\ \A a, b \in DOMAIN n.k : Depth(S, n.k[a]) = Depth(S, n.k[b]))
=============================================================================
