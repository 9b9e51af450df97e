------------------------------- MODULE BtIter -------------------------------
(***************************************************************************)
(* The iterators of src/btree.rs: a double-ended queue of node iterators   *)
(* [t, id, e, k, lf, rt]: the entries and children of a node that are not  *)
(* handed out (or descended into) yet; lf: the child before the first      *)
(* entry is still to be visited, rt: the child after the last entry is.    *)
(*   t = "B" borrowed node id, "A" node kept alive by a reference,         *)
(*       "O" contents taken out of the heap (id = 0)                       *)
(* Results carry an entry <<>> at the end and <<-1>> where the code would  *)
(* fail one of its assertions.                                             *)
(***************************************************************************)
EXTENDS BtNode

Front(w) == SubSeq(w, 1, Len(w) - 1)
Last(w) == w[Len(w)]
NodeIter(t, id, n) == [t |-> t, id |-> id, e |-> n.e, k |-> n.k, lf |-> ~IsLeaf(n), rt |-> ~IsLeaf(n)]
\* try_unwrap
Unwrap(S, id) == IF Shared(S, id) THEN <<S, NodeIter("A", id, S.n[id])>>
                 ELSE <<Remove(S, id), NodeIter("O", 0, S.n[id])>>
Swap(k, a, b) == [i \in DOMAIN k |-> IF k[i] = a THEN b ELSE k[i]]
\* the iterator of a child taken from x
Enter(S, x, kid, mode) ==
    CASE x.t = "O" -> Unwrap(S, kid)
      [] x.t = "A" -> <<Inc(S, kid), NodeIter("A", kid, S.n[kid])>>
      [] OTHER -> IF mode # "mut" THEN <<S, NodeIter("B", kid, S.n[kid])>>
                  ELSE LET m == MakeMut(S, kid)
                       IN <<[m[1] EXCEPT !.n[x.id].k = Swap(@, kid, m[2])], NodeIter("B", m[2], m[1].n[m[2]])>>
Done1(x) == x.e = <<>> /\ x.k = <<>>
Release(S, x) == IF x.t = "A" THEN Dec(S, x.id) ELSE S
Took(S, x) == IF x.t = "A" THEN [S EXCEPT !.cp = @ + 1] ELSE S

RECURSIVE DescF(_, _, _)
DescF(S, w, mode) ==
    LET x == Head(w)
    IN IF x.k = <<>> THEN <<S, <<[x EXCEPT !.lf = FALSE]>> \o Tail(w), TRUE>>
       ELSE IF ~x.lf THEN <<S, w, FALSE>>
       ELSE LET y == [x EXCEPT !.lf = FALSE, !.k = Tail(@)]
                n == Enter(S, x, Head(x.k), mode)
            IN IF Done1(y) THEN DescF(Release(n[1], y), <<n[2]>> \o Tail(w), mode)
               ELSE DescF(n[1], <<n[2], y>> \o Tail(w), mode)
StepF(S, w, mode) ==
    IF w = <<>> THEN <<S, w, <<>> >>
    ELSE LET d == IF Head(w).lf THEN DescF(S, w, mode) ELSE <<S, w, TRUE>>
             x == Head(d[2])
             y == [x EXCEPT !.e = Tail(@), !.lf = x.k # <<>>]
             T == Took(d[1], x)
         IN IF ~d[3] \/ x.lf \/ x.e = <<>> THEN <<S, w, <<-1>> >>
            ELSE IF Done1(y) THEN <<Release(T, y), Tail(d[2]), Head(x.e) \o <<x.id>> >>
            ELSE <<T, <<y>> \o Tail(d[2]), Head(x.e) \o <<x.id>> >>
RECURSIVE DescB(_, _, _)
DescB(S, w, mode) ==
    LET x == Last(w)
    IN IF x.k = <<>> THEN <<S, Append(Front(w), [x EXCEPT !.rt = FALSE]), TRUE>>
       ELSE IF ~x.rt THEN <<S, w, FALSE>>
       ELSE LET y == [x EXCEPT !.rt = FALSE, !.k = Front(@)]
                n == Enter(S, x, Last(x.k), mode)
            IN IF Done1(y) THEN DescB(Release(n[1], y), Append(Front(w), n[2]), mode)
               ELSE DescB(n[1], Front(w) \o <<y, n[2]>>, mode)
StepB(S, w, mode) ==
    IF w = <<>> THEN <<S, w, <<>> >>
    ELSE LET d == IF Last(w).rt THEN DescB(S, w, mode) ELSE <<S, w, TRUE>>
             x == Last(d[2])
             y == [x EXCEPT !.e = Front(@), !.rt = x.k # <<>>]
             T == Took(d[1], x)
         IN IF ~d[3] \/ x.rt \/ x.e = <<>> THEN <<S, w, <<-1>> >>
            ELSE IF Done1(y) THEN <<Release(T, y), Front(d[2]), Last(x.e) \o <<x.id>> >>
            ELSE <<T, Append(Front(d[2]), y), Last(x.e) \o <<x.id>> >>

(***************************************************************************)
(* Ranges.  Bounds as in AvlIter.                                          *)
(***************************************************************************)
InLo(b, k) == b[1] = 0 \/ b[2] < 2 * k \/ (b[1] = 1 /\ b[2] = 2 * k)
InHi(b, k) == b[1] = 0 \/ b[2] > 2 * k \/ (b[1] = 1 /\ b[2] = 2 * k)
Cmp(b, k) == IF b[1] = 0 THEN "unbounded" ELSE IF b[2] < 2 * k THEN "less" ELSE IF b[2] = 2 * k THEN "equal" ELSE "greater"
\* counts from 0, as in the code: <<first entry, first child, prune?>> and the first entry not below the bound
RECURSIVE EdgeL(_, _, _)
EdgeL(e, lo, i) ==
    IF i = Len(e) THEN <<Len(e), Len(e), TRUE, i>>
    ELSE CASE Cmp(lo, e[i + 1][1]) = "unbounded" -> <<0, 0, FALSE, i>>
           [] Cmp(lo, e[i + 1][1]) = "less" -> <<i, i, TRUE, i>>
           [] Cmp(lo, e[i + 1][1]) = "equal" -> <<IF lo[1] = 1 THEN i ELSE i + 1, i + 1, FALSE, i>>
           [] OTHER -> EdgeL(e, lo, i + 1)
RECURSIVE EdgeR(_, _, _)
EdgeR(e, hi, i) ==
    IF i = Len(e) THEN <<Len(e), Len(e) + 1, TRUE>>
    ELSE CASE Cmp(hi, e[i + 1][1]) = "unbounded" -> <<Len(e), Len(e) + 1, FALSE>>
           [] Cmp(hi, e[i + 1][1]) = "less" -> <<i, i + 1, TRUE>>
           [] Cmp(hi, e[i + 1][1]) = "equal" -> <<IF hi[1] = 1 THEN i + 1 ELSE i, i + 1, FALSE>>
           [] OTHER -> EdgeR(e, hi, i + 1)
None == <<0, 0>>
\* <<heap, work list, id of the node, assertions hold>>
RECURSIVE Work(_, _, _, _, _, _)
Work(S0, id0, w, lo, hi, mode) ==
    IF id0 = 0 THEN <<S0, w, 0, TRUE>>
    ELSE
    LET m == IF mode = "mut" THEN MakeMut(S0, id0) ELSE <<S0, id0>>
        S == m[1]
        id == m[2]
        n == S.n[id]
        a == EdgeL(n.e, lo, 0)
        b == EdgeR(n.e, hi, a[4])
        es == SubSeq(n.e, a[1] + 1, b[1])
        ks == IF a[2] > b[2] \/ b[2] > Len(n.k) THEN <<>> ELSE SubSeq(n.k, a[2] + 1, b[2])
        both == Len(ks) = 1 /\ b[3]
        ok1 == a[1] <= b[1] /\ ((a[3] /\ both) => es = <<>>)
        lk == IF a[3] /\ ks # <<>> THEN Head(ks) ELSE 0
        p == IF a[3] THEN Work(S, lk, w, lo, IF both THEN hi ELSE None, mode) ELSE <<S, w, 0, TRUE>>
        S1 == IF lk = 0 THEN p[1] ELSE [p[1] EXCEPT !.n[id].k = Swap(@, lk, p[3])]
        ks1 == IF lk = 0 THEN ks ELSE Tail(ks)
        lo1 == IF a[3] THEN None ELSE lo
        rk == IF b[3] /\ ks1 # <<>> THEN Last(ks1) ELSE 0
        ks2 == IF rk = 0 THEN ks1 ELSE Front(ks1)
        it == [t |-> "B", id |-> id, e |-> es, k |-> ks2, lf |-> ~a[3] /\ a[1] = a[2], rt |-> ~b[3] /\ b[1] < b[2]]
        w1 == IF es # <<>> \/ ks2 # <<>> THEN Append(p[2], it) ELSE p[2]
        q == Work(S1, rk, w1, lo1, hi, mode)
        S2 == IF rk = 0 THEN q[1] ELSE [q[1] EXCEPT !.n[id].k = Swap(@, rk, q[3])]
    IN <<S2, q[2], id, ok1 /\ p[4] /\ q[4]>>

(***************************************************************************)
(* What a queue stands for, and what it refers to.                         *)
(***************************************************************************)
RECURSIVE Weave(_, _, _, _)
Weave(S, e, k, kidfirst) ==
    IF kidfirst /\ k # <<>> THEN Flat(S, Head(k)) \o Weave(S, e, Tail(k), FALSE)
    ELSE IF e # <<>> THEN <<Head(e)>> \o Weave(S, Tail(e), k, k # <<>>)
    ELSE IF k # <<>> THEN << <<-2, 0>> >> \* a child nothing leads to
    ELSE <<>>
RECURSIVE WFlat(_, _)
WFlat(S, w) == IF w = <<>> THEN <<>> ELSE Weave(S, Head(w).e, Head(w).k, Head(w).lf) \o WFlat(S, Tail(w))
RECURSIVE WRefs(_)
WRefs(w) == IF w = <<>> THEN <<>>
            ELSE (CASE Head(w).t = "A" -> <<Head(w).id>> [] Head(w).t = "O" -> Head(w).k [] OTHER -> <<>>) \o WRefs(Tail(w))
RECURSIVE WRename(_, _)
WRename(w, f) == IF w = <<>> THEN <<>>
                 ELSE <<[Head(w) EXCEPT !.id = f[@], !.k = [i \in DOMAIN @ |-> f[@[i]]]]>> \o WRename(Tail(w), f)

(* as the model of the collection uses them *)
WRef(S, root) == IF root = 0 THEN <<>> ELSE <<NodeIter("B", root, S.n[root])>>
WOwn(S, root) == IF root = 0 THEN <<S, <<>> >> ELSE LET u == Unwrap(S, root) IN <<u[1], <<u[2]>> >>
WRange(S, root, lo, hi, mode) == LET q == Work(S, root, <<>>, lo, hi, mode) IN <<q[1], q[2], q[3], q[4]>>
StepCost(n) == 1
Handed(x) == IF x = <<>> THEN <<>> ELSE IF Len(x) = 1 THEN <<-1, -1, 0>> ELSE x
Write(S, x, d) == [S EXCEPT !.n[x[3]].e = [i \in DOMAIN @ |-> IF @[i][1] = x[1] THEN <<@[i][1], d[@[i][2]]>> ELSE @[i]]]
=============================================================================
