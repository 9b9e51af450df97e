------------------------------ MODULE AvlTree ------------------------------
(***************************************************************************)
(* The algorithms of src/avl.rs on a copy-on-write heap.  A node is        *)
(* [k, v, l, lh, r, rh, rc]: key, value, children, and the heights of the  *)
(* children as cached in the node.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AKids(n) == <<n.l, n.r>>
AMap(n, f) == [n EXCEPT !.l = f[@], !.r = f[@]]
AElems(n) == 1
INSTANCE CowHeap WITH KidsOf <- AKids, MapKids <- AMap, ElemsOf <- AElems

Max(a, b) == IF a > b THEN a ELSE b
NHt(n) == 1 + Max(n.lh, n.rh)
Ht(S, id) == IF id = 0 THEN 0 ELSE NHt(S.n[id])
NBal(n) == n.rh - n.lh
Bal(S, id) == NBal(S.n[id])
Leaf(k, v) == [k |-> k, v |-> v, l |-> 0, lh |-> 0, r |-> 0, rh |-> 0, rc |-> 1]
Mk(S, k, v, l, r) == Alloc(S, [k |-> k, v |-> v, l |-> l, lh |-> Ht(S, l), r |-> r, rh |-> Ht(S, r), rc |-> 1])
SetL(S, id, l) == [S EXCEPT !.n[id].l = l, !.n[id].lh = Ht(S, l)]
SetR(S, id, r) == [S EXCEPT !.n[id].r = r, !.n[id].rh = Ht(S, r)]
Num(b) == IF b THEN 1 ELSE 0

(***************************************************************************)
(* Rotations: <<heap, new root, shorter?>>.                                *)
(***************************************************************************)
RotLf(S, root) ==
    LET m1 == MakeMut(S, root)
        a == m1[2]
        m2 == MakeMut(m1[1], m1[1].n[a].r)
        b == m2[2]
        bal == Bal(m2[1], b)
        nb == m2[1].n[b]
        S1 == [m2[1] EXCEPT !.n[a].r = nb.l, !.n[a].rh = nb.lh]
        S2 == [S1 EXCEPT !.n[b].l = a, !.n[b].lh = Ht(S1, a)]
    IN <<S2, b, bal # 0>>
RotRt(S, root) ==
    LET m1 == MakeMut(S, root)
        a == m1[2]
        m2 == MakeMut(m1[1], m1[1].n[a].l)
        b == m2[2]
        bal == Bal(m2[1], b)
        nb == m2[1].n[b]
        S1 == [m2[1] EXCEPT !.n[a].l = nb.r, !.n[a].lh = nb.rh]
        S2 == [S1 EXCEPT !.n[b].r = a, !.n[b].rh = Ht(S1, a)]
    IN <<S2, b, bal # 0>>
RotRtLf(S, root) ==
    LET m1 == MakeMut(S, root)
        a == m1[2]
        m2 == MakeMut(m1[1], m1[1].n[a].r)
        b == m2[2]
        m3 == MakeMut(m2[1], m2[1].n[b].l)
        c == m3[2]
        nc == m3[1].n[c]
        S1 == [m3[1] EXCEPT !.n[a].r = nc.l, !.n[a].rh = nc.lh, !.n[b].l = nc.r, !.n[b].lh = nc.rh]
        S2 == [S1 EXCEPT !.n[c].l = a, !.n[c].lh = Ht(S1, a), !.n[c].r = b, !.n[c].rh = Ht(S1, b)]
    IN <<S2, c, TRUE>>
RotLfRt(S, root) ==
    LET m1 == MakeMut(S, root)
        a == m1[2]
        m2 == MakeMut(m1[1], m1[1].n[a].l)
        b == m2[2]
        m3 == MakeMut(m2[1], m2[1].n[b].r)
        c == m3[2]
        nc == m3[1].n[c]
        S1 == [m3[1] EXCEPT !.n[b].r = nc.l, !.n[b].rh = nc.lh, !.n[a].l = nc.r, !.n[a].lh = nc.rh]
        S2 == [S1 EXCEPT !.n[c].l = b, !.n[c].lh = Ht(S1, b), !.n[c].r = a, !.n[c].rh = Ht(S1, a)]
    IN <<S2, c, TRUE>>
\* shift height from left to right, from right to left
LfToRt(S, root) == IF Bal(S, S.n[root].l) <= 0 THEN RotRt(S, root) ELSE RotLfRt(S, root)
RtToLf(S, root) == IF Bal(S, S.n[root].r) >= 0 THEN RotLf(S, root) ELSE RotRtLf(S, root)

(***************************************************************************)
(* Insertion: <<heap, root, replaced value or <<>>, taller?>>.             *)
(***************************************************************************)
RECURSIVE Ins(_, _, _, _)
Ins(S, id, k, v) ==
    IF id = 0 THEN LET a == Alloc(S, Leaf(k, v)) IN <<a[1], a[2], <<>>, TRUE>>
    ELSE
    LET m == MakeMut(S, id)
        n == m[2]
        nd == m[1].n[n]
    IN IF k = nd.k THEN <<[m[1] EXCEPT !.n[n].v = v], n, <<nd.v>>, FALSE>>
       ELSE IF k < nd.k THEN
         LET r == Ins(m[1], nd.l, k, v)
             S1 == [r[1] EXCEPT !.n[n].l = r[2], !.n[n].lh = @ + Num(r[4])]
             b == Bal(S1, n)
         IN IF r[4] /\ b < -1 THEN LET q == LfToRt(S1, n) IN <<q[1], q[2], r[3], FALSE>>
            ELSE <<S1, n, r[3], r[4] /\ b < 0>>
       ELSE
         LET r == Ins(m[1], nd.r, k, v)
             S1 == [r[1] EXCEPT !.n[n].r = r[2], !.n[n].rh = @ + Num(r[4])]
             b == Bal(S1, n)
         IN IF r[4] /\ b > 1 THEN LET q == RtToLf(S1, n) IN <<q[1], q[2], r[3], FALSE>>
            ELSE <<S1, n, r[3], r[4] /\ b > 0>>

(***************************************************************************)
(* Removal: <<heap, root, removed <<k, v>> or <<>>, shorter?>>.            *)
(***************************************************************************)
\* after the left (right) subtree of n lost height iff sh
AfterL(S, n, kv, sh) ==
    LET S1 == [S EXCEPT !.n[n].lh = @ - Num(sh)]
        b == Bal(S1, n)
    IN IF sh /\ b > 1 THEN LET q == RtToLf(S1, n) IN <<q[1], q[2], kv, q[3]>>
       ELSE <<S1, n, kv, sh /\ b = 0>>
AfterR(S, n, kv, sh) ==
    LET S1 == [S EXCEPT !.n[n].rh = @ - Num(sh)]
        b == Bal(S1, n)
    IN IF sh /\ b < -1 THEN LET q == LfToRt(S1, n) IN <<q[1], q[2], kv, q[3]>>
       ELSE <<S1, n, kv, sh /\ b = 0>>

RECURSIVE RmFirst(_, _)
RmFirst(S, id) ==
    IF id = 0 THEN <<S, 0, <<>>, FALSE>>
    ELSE
    LET m == MakeMut(S, id)
        n == m[2]
        nd == m[1].n[n]
    IN IF nd.l # 0
       THEN LET r == RmFirst(m[1], nd.l)
            IN AfterL([r[1] EXCEPT !.n[n].l = r[2]], n, r[3], r[4])
       ELSE <<Remove(m[1], n), nd.r, <<nd.k, nd.v>>, TRUE>>
RECURSIVE RmLast(_, _)
RmLast(S, id) ==
    IF id = 0 THEN <<S, 0, <<>>, FALSE>>
    ELSE
    LET m == MakeMut(S, id)
        n == m[2]
        nd == m[1].n[n]
    IN IF nd.r # 0
       THEN LET r == RmLast(m[1], nd.r)
            IN AfterR([r[1] EXCEPT !.n[n].r = r[2]], n, r[3], r[4])
       ELSE <<Remove(m[1], n), nd.l, <<nd.k, nd.v>>, TRUE>>

RECURSIVE Rm(_, _, _)
Rm(S, id, k) ==
    IF id = 0 THEN <<S, 0, <<>>, FALSE>>
    ELSE
    LET m == MakeMut(S, id)
        n == m[2]
        nd == m[1].n[n]
    IN IF k < nd.k THEN LET r == Rm(m[1], nd.l, k) IN AfterL([r[1] EXCEPT !.n[n].l = r[2]], n, r[3], r[4])
       ELSE IF k > nd.k THEN LET r == Rm(m[1], nd.r, k) IN AfterR([r[1] EXCEPT !.n[n].r = r[2]], n, r[3], r[4])
       ELSE IF nd.l = 0 \/ nd.r = 0
            THEN <<Remove(m[1], n), IF nd.l = 0 THEN nd.r ELSE nd.l, <<nd.k, nd.v>>, TRUE>>
       ELSE LET r == RmFirst(m[1], nd.r)
            IN AfterR([r[1] EXCEPT !.n[n].r = r[2], !.n[n].k = r[3][1], !.n[n].v = r[3][2]], n, <<nd.k, nd.v>>, r[4])

\* get_mut on a key that may be absent; d maps values to new ones: <<heap, root>>
RECURSIVE Touch(_, _, _, _)
Touch(S, id, k, d) ==
    IF id = 0 THEN <<S, 0>>
    ELSE LET m == MakeMut(S, id)
             n == m[2]
             nd == m[1].n[n]
         IN IF k = nd.k THEN <<[m[1] EXCEPT !.n[n].v = d[@]], n>>
            ELSE IF k < nd.k THEN LET r == Touch(m[1], nd.l, k, d) IN <<[r[1] EXCEPT !.n[n].l = r[2]], n>>
            ELSE LET r == Touch(m[1], nd.r, k, d) IN <<[r[1] EXCEPT !.n[n].r = r[2]], n>>
\* iter_mut and for_each_mut run to the end
RECURSIVE TouchAll(_, _, _)
TouchAll(S, id, d) ==
    IF id = 0 THEN <<S, 0>>
    ELSE LET m == MakeMut(S, id)
             n == m[2]
             a == TouchAll(m[1], m[1].n[n].l, d)
             b == TouchAll(a[1], a[1].n[n].r, d)
         IN <<[b[1] EXCEPT !.n[n].l = a[2], !.n[n].r = b[2], !.n[n].v = d[@]], n>>

(***************************************************************************)
(* Joining trees around a key: <<heap, root>>.                             *)
(***************************************************************************)
RECURSIVE JoinRt(_, _, _, _, _)
JoinRt(S, left, k, v, right) == \* left is the taller one
    LET m == MakeMut(S, left)
        t == m[2]
        c == m[1].n[t].r
    IN IF Ht(m[1], c) <= Ht(m[1], right) + 1
       THEN LET a == Mk(m[1], k, v, c, right)
                S1 == SetR(a[1], t, a[2])
                b == Bal(S1, t)
            IN IF b \in -1 .. 1 THEN <<S1, t>>
               ELSE LET q == RotRt(S1, S1.n[t].r)
                        S2 == [q[1] EXCEPT !.n[t].r = q[2], !.n[t].rh = @ - Num(q[3])]
                        p == RotLf(S2, t)
                    IN <<p[1], p[2]>>
       ELSE LET a == JoinRt(m[1], c, k, v, right)
                S1 == SetR(a[1], t, a[2])
            IN IF Bal(S1, t) \in -1 .. 1 THEN <<S1, t>>
               ELSE LET p == RotLf(S1, t) IN <<p[1], p[2]>>
RECURSIVE JoinLf(_, _, _, _, _)
JoinLf(S, left, k, v, right) == \* right is the taller one
    LET m == MakeMut(S, right)
        t == m[2]
        c == m[1].n[t].l
    IN IF Ht(m[1], c) <= Ht(m[1], left) + 1
       THEN LET a == Mk(m[1], k, v, left, c)
                S1 == SetL(a[1], t, a[2])
                b == Bal(S1, t)
            IN IF b \in -1 .. 1 THEN <<S1, t>>
               ELSE LET q == RotLf(S1, S1.n[t].l)
                        S2 == [q[1] EXCEPT !.n[t].l = q[2], !.n[t].lh = @ - Num(q[3])]
                        p == RotRt(S2, t)
                    IN <<p[1], p[2]>>
       ELSE LET a == JoinLf(m[1], left, k, v, c)
                S1 == SetL(a[1], t, a[2])
            IN IF Bal(S1, t) \in -1 .. 1 THEN <<S1, t>>
               ELSE LET p == RotRt(S1, t) IN <<p[1], p[2]>>
Join(S, l, k, v, r) ==
    LET b == Ht(S, r) - Ht(S, l)
    IN IF b < -1 THEN JoinRt(S, l, k, v, r)
       ELSE IF b > 1 THEN JoinLf(S, l, k, v, r)
       ELSE Mk(S, k, v, l, r)
\* kv is <<k, v>> or <<>>
Join2(S, l, kv, r) ==
    IF kv # <<>> THEN Join(S, l, kv[1], kv[2], r)
    ELSE IF l = 0 THEN <<S, r>>
    ELSE IF r = 0 THEN <<S, l>>
    ELSE LET q == RmFirst(S, r) IN Join(q[1], l, q[3][1], q[3][2], q[2])

\* <<heap, trees below and above k, the entry at k or <<>>>>
RECURSIVE Split(_, _, _)
Split(S, id, k) ==
    IF id = 0 THEN <<S, 0, 0, <<>> >>
    ELSE LET t == Take(S, id)
             n == t[2]
         IN IF k = n.k THEN <<t[1], n.l, n.r, <<n.k, n.v>> >>
            ELSE IF k < n.k
            THEN LET q == Split(t[1], n.l, k)
                     j == Join(q[1], q[3], n.k, n.v, n.r)
                 IN <<j[1], q[2], j[2], q[4]>>
            ELSE LET q == Split(t[1], n.r, k)
                     j == Join(q[1], n.l, n.k, n.v, q[2])
                 IN <<j[1], j[2], q[3], q[4]>>

\* whole-tree set operations; w as in Collections!MergeX
RECURSIVE MergeT(_, _, _, _)
MergeT(S, t1, t2, w) ==
    LET keepL == w # 1
        keepR == w \in {0, 3}
    IN IF t1 = 0 THEN IF keepR THEN <<S, t2>> ELSE <<Dec(S, t2), 0>>
       ELSE IF t2 = 0 THEN IF keepL THEN <<S, t1>> ELSE <<Dec(S, t1), 0>>
       ELSE LET t == Take(S, t1)
                n == t[2]
                s == Split(t[1], t2, n.k)
                a == MergeT(s[1], n.l, s[2], w)
                b == MergeT(a[1], n.r, s[3], w)
                kv == IF s[4] = <<>> THEN IF keepL THEN <<n.k, n.v>> ELSE <<>>
                      ELSE CASE w = 0 -> s[4] [] w = 1 -> <<n.k, n.v>> [] OTHER -> <<>>
            IN Join2(b[1], a[2], kv, b[2])

\* retain works on a second reference to the tree and builds a new one
RECURSIVE RetainT(_, _, _)
RetainT(S, id, keep) ==
    IF id = 0 THEN <<S, 0>>
    ELSE LET n == S.n[id]
             a == RetainT(Inc(S, n.l), n.l, keep)
             b == RetainT(Inc(a[1], n.r), n.r, keep)
             j == IF n.k \in keep THEN LET S1 == [b[1] EXCEPT !.cp = @ + 1] IN Join(S1, a[2], n.k, n.v, b[2])
                  ELSE Join2(b[1], a[2], <<>>, b[2])
         IN <<Dec(j[1], id), j[2]>>

(***************************************************************************)
(* What holds of a tree.                                                   *)
(***************************************************************************)
RECURSIVE Flat(_, _)
Flat(S, id) == IF id = 0 THEN <<>>
               ELSE LET n == S.n[id] IN Flat(S, n.l) \o << <<n.k, n.v>> >> \o Flat(S, n.r)
RECURSIVE RealHt(_, _)
RealHt(S, id) == IF id = 0 THEN 0 ELSE 1 + Max(RealHt(S, S.n[id].l), RealHt(S, S.n[id].r))
Balanced(S) == \A i \in Ids(S) : /\ S.n[i].lh = RealHt(S, S.n[i].l)
                                 /\ S.n[i].rh = RealHt(S, S.n[i].r)
                                 /\ NBal(S.n[i]) \in -1 .. 1
=============================================================================
