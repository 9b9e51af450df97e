-------------------------------- MODULE BtCow -------------------------------
(***************************************************************************)
(* BTreeMap as implemented: NH handles over one copy-on-write heap.        *)
(* Checked (Good): every handle's tree holds exactly the contents that the *)
(* abstract Dict gives it, whatever the other handles do (isolation);      *)
(* node occupancy and uniform depth; exact counts, no leaks; an operation  *)
(* on unshared trees copies nothing and a point update on shared ones at   *)
(* most CloneBound elements.                                               *)
(*                                                                         *)
(* Emit, Shape: as in AvlCow.                                              *)
(***************************************************************************)
EXTENDS BtIter, TLCExt
D == INSTANCE Dict

CONSTANTS NH, K, MaxLen, Vals, Shape, Emit, Bulk, Iters, IterMax
VARIABLES S, root, con, good, cur
vars == <<S, root, con, good, cur>>

Handle == 1 .. NH
Dead == -1
Live == {h \in Handle : root[h] # Dead}
Roots(r) == SelectSeq([i \in Handle |-> r[i]], LAMBDA x : x > 0)

\* an iterator: mode ("none" without one), the handle it borrows, its work list, what it has still to give
NoCur == [m |-> "none", h |-> 0, w |-> <<>>, e |-> <<>>]
Code(s, r, cu) == <<TLCFP(<<s.n, r, cu>>), TLCFP(<<cu, r, s.n, 7>>)>>
Init == /\ S = Empty
        /\ root = [h \in Handle |-> IF h = 1 THEN 0 ELSE Dead]
        /\ con = [h \in Handle |-> <<>>]
        /\ good = TRUE
        /\ cur = NoCur
        /\ Emit => PrintT(ToString(<<"I", Code(S, root, cur)>>))

Entries(s) == [i \in DOMAIN s |-> <<100 * s[i][1], s[i][2]>>]
\* keys renamed to 1..n (one live handle)
Norm(T, c) ==
    LET all == UNION {{c[h][i][1] : i \in DOMAIN c[h]} : h \in Handle}
        rk == TLCEval([x \in all |-> Cardinality({y \in all : y < x}) + 1])
    IN IF ~Shape THEN <<T, c>>
       ELSE <<[T EXCEPT !.n = [i \in Ids(T) |-> [T.n[i] EXCEPT !.e = [j \in DOMAIN @ |-> <<rk[100 * @[j][1]], @[j][2]>>]]]],
              [h \in Handle |-> [i \in DOMAIN c[h] |-> <<100 * rk[c[h][i][1]], c[h][i][2]>>]]>>

AnyShared == \E i \in Ids(S) : S.n[i].rc > 1
Solo(h) == Live = {h}
RECURSIVE Own(_, _)
Own(T, id) == id = 0 \/ (T.n[id].rc = 1 /\ \A i \in DOMAIN T.n[id].k : Own(T, T.n[id].k[i]))

Refs(r, cu) == Roots(r) \o WRefs(cu.w)
DoneI(op, T, r, c, cost, cu, fine) ==
    LET ren == Renaming(T, Refs(r, cu))
        ord == TLCEval(Order(T, Refs(r, cu)))
        cu2 == TLCEval([cu EXCEPT !.w = WRename(@, ren)])
        T2 == [n |-> Rename(T, ord, ren), cp |-> 0]
        r2 == [h \in Handle |-> IF r[h] = Dead THEN Dead ELSE ren[r[h]]]
        nm == TLCEval(Norm(T2, c))
        ok == /\ \A h \in Handle : r[h] # Dead => Entries(Flat(T, r[h])) = c[h]
              /\ Len(ord) = Cardinality(Ids(T))                      \* no leaks
              /\ CountsOK(T, Refs(r, cu))
              /\ Balanced(T, {r[h] : h \in Handle})
              /\ \A h \in Handle : r[h] # Dead => D!Sorted(c[h])
              /\ T.cp <= cost
              /\ fine
              /\ WFlat(T, cu.w) = cu.e                               \* what an iterator has still to give
    IN /\ S' = nm[1]
       /\ root' = r2
       /\ con' = nm[2]
       /\ good' = ok
       /\ cur' = cu2
       /\ Emit => PrintT(ToString(<<"T", Code(S, root, cur), op, Code(nm[1], r2, cu2), T.cp>>))
Done(op, T, r, c, cost) == DoneI(op, T, r, c, cost, cur, TRUE)

Height(n) == CHOOSE x \in 1 .. 30 : (Occ + 1) ^ (x - 1) >= n + 1 /\ \A y \in 1 .. x - 1 : (Occ + 1) ^ (y - 1) < n + 1
Bound(n) == (Height(n) + 1) * 3 * (MaxOcc + 1)
Cost(h, n) == IF Own(S, root[h]) THEN 0 ELSE Bound(n)
Set1(f, h, x) == [f EXCEPT ![h] = x]
Active(h) == h \in Live /\ (Solo(h) \/ AnyShared)
Keys == IF Shape THEN {} ELSE 1 .. K
Present(h) == {con[h][i][1] \div 100 : i \in DOMAIN con[h]}

Point(h, op, q, c) == Done(op, q[1], Set1(root, h, q[2]), Set1(con, h, c), Cost(h, Len(con[h])))

Insert(h, k, v) == /\ Active(h) /\ (k \in Present(h) \/ Len(con[h]) < MaxLen)
                   /\ Point(h, <<"ins", h, k, v>>, Ins(S, root[h], k, v), D!Put(con[h], 100 * k, v))
Delete(h, k) == /\ Active(h)
                /\ Point(h, <<"rem", h, k>>, Rm(S, root[h], k), D!Del(con[h], k))
PopF(h) == /\ Active(h)
           /\ Point(h, <<"popf", h>>, RmFirst(S, root[h]), IF con[h] = <<>> THEN <<>> ELSE Tail(con[h]))
PopL(h) == /\ Active(h)
           /\ Point(h, <<"popl", h>>, RmLast(S, root[h]), IF con[h] = <<>> THEN <<>> ELSE SubSeq(con[h], 1, Len(con[h]) - 1))
Flip == [v \in Vals |-> IF Cardinality(Vals) > 1 THEN 1 - v ELSE v]
GetMut(h, k) == /\ Active(h)
                /\ Point(h, <<"getm", h, k>>, Touch(S, root[h], k, Flip),
                         IF D!Has(con[h], k) THEN D!SetVal(con[h], k, Flip[D!Get(con[h], k)[1]]) ELSE con[h])
IterMut(h) == /\ Active(h)
              /\ LET q == TouchAll(S, root[h], Flip)
                 IN Done(<<"itm", h>>, q[1], Set1(root, h, q[2]),
                         Set1(con, h, [i \in DOMAIN con[h] |-> <<con[h][i][1], Flip[con[h][i][2]]>>]),
                         IF Own(S, root[h]) THEN 0 ELSE Len(con[h]))
Clear(h) == /\ Active(h)
            /\ Done(<<"clear", h>>, Dec(S, root[h]), Set1(root, h, 0), Set1(con, h, <<>>), 0)
Clone(h, g) == /\ h \in Live /\ g \notin Live /\ ~Shape
               /\ Done(<<"clone", h, g>>, Inc(S, root[h]), Set1(root, g, root[h]), Set1(con, g, con[h]), 0)
Drop(h) == /\ h \in Live
           /\ Done(<<"drop", h>>, Dec(S, root[h]), Set1(root, h, Dead), Set1(con, h, <<>>), 0)
NewH(h) == /\ Live = {} /\ h = 1
           /\ Done(<<"new", h>>, S, Set1(root, h, 0), con, 0)
Under(l, k) == SelectSeq(l, LAMBDA e : e[1] < k)
NotUnder(l, k) == SelectSeq(l, LAMBDA e : e[1] >= k)
Loose == 1000000
DrainCost(h) == IF Own(S, root[h]) THEN 0 ELSE Len(con[h])
SplitOff(h, g, k) ==
    /\ h \in Live /\ g \notin Live /\ Active(h)
    /\ LET l == Flat(S, root[h])
           a == InsAll(Drain(S, root[h]), 0, Under(l, k))
           b == InsAll(a[1], 0, NotUnder(l, k))
       IN Done(<<"split", h, k, g>>, b[1], [root EXCEPT ![h] = a[2], ![g] = b[2]],
               [con EXCEPT ![h] = D!Below(con[h], k), ![g] = D!AtLeast(con[h], k)], DrainCost(h))
AppendH(h, g) == /\ Bulk /\ h \in Live /\ g \in Live /\ h # g
                 /\ LET q == InsAll(Drain(S, root[g]), root[h], Flat(S, root[g]))
                    IN Done(<<"append", h, g>>, q[1], [root EXCEPT ![h] = q[2], ![g] = 0],
                            [con EXCEPT ![h] = D!Union(con[h], con[g]), ![g] = <<>>],
                            IF Own(S, root[h]) /\ Own(S, root[g]) THEN 0 ELSE Loose)
\* which entries a retain keeps, by rank
Masks(n) == IF n <= 4 THEN SUBSET (1 .. n)
            ELSE {{}, 1 .. n, {1}, {n}, {(n + 1) \div 2}, 2 .. n, 1 .. n - 1, 1 .. n \div 2, n \div 2 + 1 .. n} \cup
                 {{i \in 1 .. n : i % 2 = j} : j \in 0 .. 1} \cup {{i \in 1 .. n : i % 3 # j} : j \in 0 .. 2}
KeptBy(c, m) == [i \in 1 .. Cardinality(m) |-> c[CHOOSE x \in m : Cardinality({y \in m : y < x}) = i - 1]]
Retain(h, m) == /\ Bulk /\ Active(h)
                /\ LET c == KeptBy(con[h], m)
                       q == InsAll(Drain(S, root[h]), 0, [i \in DOMAIN c |-> <<c[i][1] \div 100, c[i][2]>>])
                   IN Done(<<"ret", h, m>>, q[1], Set1(root, h, q[2]), Set1(con, h, c), DrainCost(h))
\* shape mode: insert into gap i (all later keys move up)
InsertGap(h, i) == /\ Shape /\ h \in Live /\ Len(con[h]) < MaxLen
                   /\ LET up == [S EXCEPT !.n = [x \in Ids(S) |-> [S.n[x] EXCEPT !.e =
                                    [j \in DOMAIN @ |-> IF @[j][1] > i THEN <<@[j][1] + 1, @[j][2]>> ELSE @[j]]]]]
                          c == [j \in DOMAIN con[h] |-> IF j > i THEN <<con[h][j][1] + 100, con[h][j][2]>> ELSE con[h][j]]
                          q == Ins(up, root[h], i + 1, 0)
                      IN Done(<<"insg", h, i>>, q[1], Set1(root, h, q[2]), Set1(con, h, D!Put(c, 100 * (i + 1), 0)), 0)

(***************************************************************************)
(* Iterators.  A shape model (one handle) iterates by reference, and over  *)
(* a clone that shares everything ("arc") or nothing ("uni").              *)
(***************************************************************************)
Raw(c) == [i \in DOMAIN c |-> <<c[i][1] \div 100, c[i][2]>>]
NoFlip == [v \in Vals |-> v]
CanIter(h) == h \in Live /\ cur.m = "none" /\ Len(con[h]) <= IterMax
Begin(op, h, q, r, c, m, w, e) == DoneI(op, q, r, c, IF AnyShared \/ m = "own" THEN Loose ELSE 0, [m |-> m, h |-> IF m = "own" THEN 0 ELSE h, w |-> w, e |-> e], TRUE)
IRef(h) == /\ CanIter(h) /\ "ref" \in Iters
           /\ Begin(<<"ibeg", h, "ref">>, h, S, root, con, "ref", WRef(S, root[h]), Raw(con[h]))
IMut(h) == /\ CanIter(h) /\ "mut" \in Iters
           /\ LET q == IF root[h] = 0 THEN <<S, 0>> ELSE MakeMut(S, root[h])
              IN Begin(<<"ibeg", h, "mut">>, h, q[1], Set1(root, h, q[2]), con, "mut", WRef(q[1], q[2]), Raw(con[h]))
IOwn(h) == /\ CanIter(h) /\ "own" \in Iters
           /\ LET q == WOwn(S, root[h])
              IN Begin(<<"ibeg", h, "own">>, h, q[1], Set1(root, h, Dead), Set1(con, h, <<>>), "own", q[2], Raw(con[h]))
IArc(h) == /\ CanIter(h) /\ "arc" \in Iters
           /\ LET q == WOwn(Inc(S, root[h]), root[h])
              IN Begin(<<"ibeg", h, "arc">>, h, q[1], root, con, "own", q[2], Raw(con[h]))
IUni(h) == /\ CanIter(h) /\ "uni" \in Iters
           /\ LET p == TouchAll(Inc(S, root[h]), root[h], NoFlip)
                  q == WOwn(p[1], root[h])
              IN Begin(<<"ibeg", h, "uni">>, h, q[1], Set1(root, h, p[2]), con, "own", q[2], Raw(con[h]))
\* places: 2k is key k; odd ones are between keys
Top(h) == IF Shape THEN Len(con[h]) ELSE K
Bounds(h) == {<<0, 0>>} \cup {<<1, p>> : p \in 1 .. 2 * Top(h) + 1} \cup {<<2, 2 * k>> : k \in 1 .. Top(h)}
Within(c, lo, hi) == SelectSeq(Raw(c), LAMBDA x : InLo(lo, x[1]) /\ InHi(hi, x[1]))
IRange(h, lo, hi, m) ==
    /\ CanIter(h) /\ m \in {"ref", "mut"}
    /\ IF m = "ref" THEN "range" \in Iters ELSE "rmut" \in Iters
    /\ (lo[1] # 0 /\ hi[1] # 0) => (lo[2] <= hi[2] /\ ~(lo[1] = 2 /\ hi[1] = 2 /\ lo[2] = hi[2]))
    /\ LET q == WRange(S, root[h], lo, hi, m)
       IN DoneI(<<"irange", h, m, lo, hi>>, q[1], Set1(root, h, q[3]), con, IF AnyShared THEN Loose ELSE 0,
                [m |-> m, h |-> h, w |-> q[2], e |-> Within(con[h], lo, hi)], q[4])
Rest(e, back) == IF e = <<>> THEN <<>> ELSE IF back THEN SubSeq(e, 1, Len(e) - 1) ELSE Tail(e)
IStep(back) ==
    /\ cur.m # "none"
    /\ LET q == IF back THEN StepB(S, cur.w, cur.m) ELSE StepF(S, cur.w, cur.m)
           x == Handed(q[3])  \* <<key, value, id>> or <<>>
           fine == IF cur.e = <<>> THEN x = <<>> ELSE x # <<>> /\ <<x[1], x[2]>> = cur.e[IF back THEN Len(cur.e) ELSE 1]
           hit == cur.m = "mut" /\ fine /\ x # <<>>
           T == IF hit THEN Write(q[1], x, Flip) ELSE q[1]
           c == IF hit THEN Set1(con, cur.h, D!SetVal(con[cur.h], 100 * x[1], Flip[x[2]])) ELSE con
       IN DoneI(IF back THEN <<"iback">> ELSE <<"inext">>, T, root, c,
                IF cur.m = "own" THEN StepCost(Len(cur.e)) ELSE IF cur.m = "mut" /\ AnyShared THEN Loose ELSE 0,
                [cur EXCEPT !.w = q[2], !.e = Rest(@, back)], fine)
IEnd == /\ cur.m # "none"
        /\ DoneI(<<"iend">>, DecAll(S, WRefs(cur.w)), root, con, 0, NoCur, TRUE)
INext == \/ \E h \in Handle : IRef(h) \/ IMut(h) \/ IOwn(h) \/ IArc(h) \/ IUni(h) \/ \E lo, hi \in Bounds(h), m \in {"ref", "mut"} : IRange(h, lo, hi, m)
         \/ \E b \in BOOLEAN : IStep(b)
         \/ IEnd

Change == \E h \in Handle :
    \/ \E k \in Keys, v \in Vals : Insert(h, k, v)
    \/ \E k \in Keys : Delete(h, k)
    \/ \E k \in Keys : GetMut(h, k)
    \/ PopF(h) \/ PopL(h) \/ IterMut(h) \/ Clear(h)
    \/ \E g \in Handle : Clone(h, g)
    \/ Drop(h) \/ NewH(h)
    \/ \E g \in Handle, k \in Keys : SplitOff(h, g, k)
    \/ \E g \in Handle : AppendH(h, g)
    \/ \E m \in Masks(Len(con[h])) : Retain(h, m)
    \/ Shape /\ (\/ \E i \in 0 .. MaxLen : i <= Len(con[h]) /\ InsertGap(h, i)
                 \/ \E i \in 1 .. MaxLen : i <= Len(con[h]) /\ Delete(h, i))
\* what an iterator borrows stays as it is; one that consumes goes its own way
Next == \/ (cur.m = "none" \/ (cur.m = "own" /\ ~Shape)) /\ Change
        \/ INext
Spec == Init /\ [][Next]_vars

Good == good
=============================================================================
