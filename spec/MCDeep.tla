------------------------------- MODULE MCDeep -------------------------------
(* Exhaustive check that the run lists of Deep behave like plain lists:     *)
(* every reachable state of a small instance, with the plain contents kept  *)
(* alongside and every operation done on both.                              *)
EXTENDS Deep
CONSTANTS MaxLen, MaxVal
VARIABLE ps                \* plain contents of every holder
vars == <<ds, dl, df, ps>>

RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>> ELSE [i \in 1 .. Head(s)[2] |-> Head(s)[1] + i - 1] \o Expand(Tail(s))
P(x, s) == ps' = [ps EXCEPT ![x] = s]
Top(s, k) == SubSeq(s, Len(s) - (IF k > Len(s) THEN Len(s) ELSE k) + 1, Len(s))

Init == DInit /\ ps = [x \in Holder |-> <<>>]
Next ==
    \/ \E n \in Handle, a \in 1 .. MaxVal, k \in 0 .. MaxLen :
        a + k <= MaxVal + 1 /\ DFrom(n, a, k) /\ P(n, [i \in 1 .. k |-> a + i - 1])
    \/ \E h \in Handle :
        \/ \E n \in Handle : DClone(h, n) /\ P(n, ps[h])
        \/ DDrop(h) /\ P(h, <<>>)
        \/ DClear(h) /\ P(h, <<>>)
        \/ \E a \in 1 .. MaxVal, k \in 1 .. 2 :
            Size(ds[h]) + k <= MaxLen /\ a + k <= MaxVal + 1 /\ DExtend(h, a, k) /\ P(h, ps[h] \o [i \in 1 .. k |-> a + i - 1])
        \/ \E k \in 0 .. MaxLen : \E r \in {Upper(ds[h], k)} :
            /\ DPop(h, k, r) /\ Expand(r) = Top(ps[h], k)
            /\ P(h, SubSeq(ps[h], 1, Len(ps[h]) - Len(Expand(r))))
        \/ \E i \in 0 .. MaxLen - 1 :
            /\ i < Size(ds[h]) /\ DRemove(h, i, ps[h][i + 1])
            /\ P(h, SubSeq(ps[h], 1, i) \o SubSeq(ps[h], i + 2, Len(ps[h])))
        \/ \E i \in 0 .. MaxLen, n \in Handle :
            /\ DSplit(h, i, n)
            /\ ps' = [ps EXCEPT ![h] = SubSeq(ps[h], 1, i), ![n] = SubSeq(ps[h], i + 1, Len(ps[h]))]
        \/ DOpenCur(h) /\ ps' = [ps EXCEPT ![Cur] = ps[h], ![h] = <<>>]
    \/ \E k \in 1 .. 2 : DStepCur(k, Upper(ds[Cur], k)) /\ P(Cur, SubSeq(ps[Cur], 1, Len(ps[Cur]) - Len(Top(ps[Cur], k))))
    \/ DDrop(Cur) /\ P(Cur, <<>>)

Canonical(s) == /\ \A i \in 1 .. Len(s) : s[i][2] > 0
                /\ \A i \in 1 .. Len(s) - 1 : s[i][1] + s[i][2] # s[i + 1][1]
SameLists == \A x \in Holder : Expand(ds[x]) = ps[x] /\ Canonical(ds[x]) /\ Size(ds[x]) = Len(ps[x])
\* operations that are always enabled: removal below the length, split up to it
RemoveEnabled == \A h \in Handle : dl[h] => \A i \in 0 .. Len(ps[h]) - 1 : DropR(ds[h], i)[1][1] = ps[h][i + 1]
PopRight == \A x \in Holder : \A k \in 0 .. MaxLen : Expand(Upper(ds[x], k)) = Top(ps[x], k)
TopRight == \A h \in Handle : ps[h] # <<>> => TopR(ds[h]) = ps[h][Len(ps[h])]
=============================================================================
