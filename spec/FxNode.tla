------------------------------- MODULE FxNode -------------------------------
(***************************************************************************)
(* The algorithms of src/btree/core.rs and fixed.rs (the fixed-capacity    *)
(* B-tree).  Nodes as in BtNode, from which it differs in two ways: where  *)
(* a full node is split depends on where the new entry goes, and removing  *)
(* a key that is not there copies the shared part of the path to it.       *)
(***************************************************************************)
EXTENDS BtNode

\* the new entry is at `at`; the node has one entry too many
FxSplit(S, id, at) ==
    LET n == S.n[id]
        p == IF at - 1 <= Occ THEN Occ ELSE Occ + 1 \* entries that go to the left
        a == Alloc(S, [e |-> SubSeq(n.e, 1, p), k |-> IF IsLeaf(n) THEN <<>> ELSE SubSeq(n.k, 1, p + 1), rc |-> 1])
        up == [n EXCEPT !.e = From(@, p + 2), !.k = IF IsLeaf(n) THEN <<>> ELSE From(@, p + 2)]
    IN <<[a[1] EXCEPT !.n[id] = up], a[2], n.e[p + 1]>>
RECURSIVE FxInsN(_, _, _, _)
FxInsN(S, id, k, v) ==
    LET n == S.n[id]
        i == Find(n.e, k)
    IN IF AtKey(n.e, i, k) THEN <<[S EXCEPT !.n[id].e[i] = <<k, v>>], <<n.e[i][2]>>, <<>> >>
       ELSE
       LET r == IF IsLeaf(n) THEN <<S, <<>>, <<0, <<k, v>> >> >>
                ELSE LET m == Own1(S, id, i) IN FxInsN(m[1], m[2], k, v)
       IN IF r[3] = <<>> THEN r
          ELSE LET S1 == [r[1] EXCEPT !.n[id].e = Put1(@, i, r[3][2]),
                                      !.n[id].k = IF r[3][1] = 0 THEN @ ELSE Put1(@, i, r[3][1])]
               IN IF Len(S1.n[id].e) <= MaxOcc THEN <<S1, r[2], <<>> >>
                  ELSE LET q == FxSplit(S1, id, i) IN <<q[1], r[2], <<q[2], q[3]>> >>
\* <<heap, root, old value or <<>>>>
FxIns(S, root, k, v) ==
    IF root = 0 THEN LET a == Alloc(S, [e |-> << <<k, v>> >>, k |-> <<>>, rc |-> 1]) IN <<a[1], a[2], <<>> >>
    ELSE LET m == MakeMut(S, root)
             r == FxInsN(m[1], m[2], k, v)
         IN IF r[3] = <<>> THEN <<r[1], m[2], r[2]>>
            ELSE LET a == Alloc(r[1], [e |-> <<r[3][2]>>, k |-> <<r[3][1], m[2]>>, rc |-> 1])
                 IN <<a[1], a[2], r[2]>>

\* <<heap, removed entry or <<>>, short?>>
RECURSIVE FxRmN(_, _, _)
FxRmN(S, id, k) ==
    LET n == S.n[id]
        i == Find(n.e, k)
    IN IF AtKey(n.e, i, k) THEN RmN(S, id, k)
       ELSE IF IsLeaf(n) THEN <<S, <<>>, FALSE>>
       ELSE LET m == Own1(S, id, i) IN After(FxRmN(m[1], m[2], k), id, i)
FxRm(S, root, k) == IF root = 0 THEN <<S, 0, <<>> >>
                    ELSE LET m == MakeMut(S, root)
                             r == FxRmN(m[1], m[2], k)
                         IN IF r[2] = <<>> THEN <<r[1], m[2], <<>> >> ELSE AtRoot(r, m[2])
=============================================================================
