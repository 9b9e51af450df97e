------------------------------ MODULE AvlIter ------------------------------
(***************************************************************************)
(* The iterators of src/avl.rs: a work list with an entry for every part   *)
(* of the tree that is still to come, taken from either end.               *)
(*   <<"D", id>>          a borrowed subtree                               *)
(*   <<"A", id>>          a subtree kept alive by a reference              *)
(*   <<"O", k, v, l, r>>  a node taken out of the heap, with its references*)
(*   <<"R", k, v, id>>    an entry to hand out (id: where it lives, or 0)  *)
(* Modes: "ref" and "mut" borrow, "own" consumes.                          *)
(***************************************************************************)
EXTENDS AvlTree

\* try_unwrap: the node itself if this is its only reference
Unwrap(S, id) == IF id = 0 THEN <<S, <<>> >>
                 ELSE IF Shared(S, id) THEN <<S, << <<"A", id>> >> >>
                 ELSE LET n == S.n[id] IN <<Remove(S, id), << <<"O", n.k, n.v, n.l, n.r>> >> >>
Borrow(id) == IF id = 0 THEN <<>> ELSE << <<"D", id>> >>
\* <<heap, left part, entry, right part>>
MutL(S, id) == IF S.n[id].l = 0 THEN S ELSE LET m == MakeMut(S, S.n[id].l) IN [m[1] EXCEPT !.n[id].l = m[2]]
MutR(S, id) == IF S.n[id].r = 0 THEN S ELSE LET m == MakeMut(S, S.n[id].r) IN [m[1] EXCEPT !.n[id].r = m[2]]
Destruct(S, x, mode) ==
    IF x[1] = "O" THEN LET a == Unwrap(S, x[4])
                           b == Unwrap(a[1], x[5])
                       IN <<b[1], a[2], <<"R", x[2], x[3], 0>>, b[2]>>
    ELSE LET id == x[2]
             n == S.n[id]
             T == IF mode = "mut" THEN MutR(MutL(S, id), id) ELSE S
         IN IF x[1] = "D" THEN <<T, Borrow(T.n[id].l), <<"R", n.k, n.v, id>>, Borrow(T.n[id].r)>>
            ELSE <<CopyCost(Dec(Inc(Inc(S, n.l), n.r), id), n),
                   IF n.l = 0 THEN <<>> ELSE << <<"A", n.l>> >>, <<"R", n.k, n.v, 0>>,
                   IF n.r = 0 THEN <<>> ELSE << <<"A", n.r>> >> >>
Front(w) == SubSeq(w, 1, Len(w) - 1)
RECURSIVE StepF(_, _, _)
RECURSIVE StepB(_, _, _)
\* <<heap, work list, entry handed out or <<>>>>
StepF(S, w, mode) == IF w = <<>> THEN <<S, w, <<>> >>
                     ELSE IF Head(w)[1] = "R" THEN <<S, Tail(w), Head(w)>>
                     ELSE LET d == Destruct(S, Head(w), mode) IN StepF(d[1], ((d[2] \o <<d[3]>>) \o d[4]) \o Tail(w), mode)
StepB(S, w, mode) == IF w = <<>> THEN <<S, w, <<>> >>
                     ELSE IF w[Len(w)][1] = "R" THEN <<S, Front(w), w[Len(w)]>>
                     ELSE LET d == Destruct(S, w[Len(w)], mode) IN StepB(d[1], Front(w) \o ((d[2] \o <<d[3]>>) \o d[4]), mode)

(***************************************************************************)
(* Ranges.  A bound is <<kind, place>>: kind 0 none, 1 included, 2         *)
(* excluded; place 2k is key k, odd places are between keys.               *)
(***************************************************************************)
InLo(b, k) == b[1] = 0 \/ b[2] < 2 * k \/ (b[1] = 1 /\ b[2] = 2 * k)
InHi(b, k) == b[1] = 0 \/ b[2] > 2 * k \/ (b[1] = 1 /\ b[2] = 2 * k)
SkipLo(b, k) == b[1] # 0 /\ b[2] >= 2 * k   \* nothing to the left of k
SkipHi(b, k) == b[1] # 0 /\ b[2] <= 2 * k
MutKid(S, id, left, mode) == IF mode # "mut" THEN S ELSE IF left THEN MutL(S, id) ELSE MutR(S, id)
\* one node, pruned at both sides; the right part first when coming from the left
Prune1(S, id, lo, hi, mode, leftfirst) ==
    LET n == S.n[id]
        hasl == n.l # 0 /\ ~SkipLo(lo, n.k)
        hasr == n.r # 0 /\ ~SkipHi(hi, n.k)
        Lf(T) == IF hasl THEN MutKid(T, id, TRUE, mode) ELSE T
        Rt(T) == IF hasr THEN MutKid(T, id, FALSE, mode) ELSE T
        T == IF leftfirst THEN Rt(Lf(S)) ELSE Lf(Rt(S))
    IN <<T, (IF hasl THEN Borrow(T.n[id].l) ELSE <<>>) \o
            (IF InLo(lo, n.k) /\ InHi(hi, n.k) THEN << <<"R", n.k, n.v, id>> >> ELSE <<>>) \o
            (IF hasr THEN Borrow(T.n[id].r) ELSE <<>>)>>
RECURSIVE PruneF(_, _, _, _, _)
RECURSIVE PruneB(_, _, _, _, _)
PruneF(S, w, lo, hi, mode) == IF w = <<>> \/ Head(w)[1] # "D" THEN <<S, w>>
                              ELSE LET p == Prune1(S, Head(w)[2], lo, hi, mode, FALSE) IN PruneF(p[1], p[2] \o Tail(w), lo, hi, mode)
PruneB(S, w, lo, hi, mode) == IF w = <<>> \/ w[Len(w)][1] # "D" THEN <<S, w>>
                              ELSE LET p == Prune1(S, w[Len(w)][2], lo, hi, mode, TRUE) IN PruneB(p[1], Front(w) \o p[2], lo, hi, mode)
Prune(S, w, lo, hi, mode) == LET p == PruneF(S, w, lo, hi, mode) IN PruneB(p[1], p[2], lo, hi, mode)

(***************************************************************************)
(* What a work list stands for, and what it refers to.                     *)
(***************************************************************************)
RECURSIVE WFlat(_, _)
WFlat(S, w) == IF w = <<>> THEN <<>>
               ELSE LET x == Head(w)
                    IN (CASE x[1] = "R" -> << <<x[2], x[3]>> >>
                          [] x[1] = "O" -> (Flat(S, x[4]) \o << <<x[2], x[3]>> >>) \o Flat(S, x[5])
                          [] OTHER -> Flat(S, x[2])) \o WFlat(S, Tail(w))
RECURSIVE WRefs(_)
WRefs(w) == IF w = <<>> THEN <<>>
            ELSE LET x == Head(w)
                 IN (CASE x[1] = "A" -> <<x[2]>> [] x[1] = "O" -> SelectSeq(<<x[4], x[5]>>, LAMBDA i : i # 0) [] OTHER -> <<>>) \o WRefs(Tail(w))
RECURSIVE WRename(_, _)
WRename(w, f) == IF w = <<>> THEN <<>>
                 ELSE LET x == Head(w)
                      IN << CASE x[1] = "R" -> <<"R", x[2], x[3], f[x[4]]>>
                              [] x[1] = "O" -> <<"O", x[2], x[3], f[x[4]], f[x[5]]>>
                              [] OTHER -> <<x[1], f[x[2]]>> >> \o WRename(Tail(w), f)

(* as the model of the collection uses them *)
WRef(S, root) == Borrow(root)
WOwn(S, root) == Unwrap(S, root)
WRange(S, root, lo, hi, mode) ==
    IF root = 0 THEN <<S, <<>>, 0, TRUE>>
    ELSE LET m == IF mode = "mut" THEN MakeMut(S, root) ELSE <<S, root>>
             p == Prune(m[1], Borrow(m[2]), lo, hi, mode)
         IN <<p[1], p[2], m[2], TRUE>>
StepCost(n) == n  \* a step copies every shared node it descends through
Handed(x) == IF x = <<>> THEN <<>> ELSE <<x[2], x[3], x[4]>>
Write(S, x, d) == [S EXCEPT !.n[x[3]].v = d[@]]
=============================================================================
