------------------------------ MODULE StackCow ------------------------------
(***************************************************************************)
(* Stack as implemented (src/stack.rs): NH handles over one heap of        *)
(* reference-counted list nodes [v, next, rc], top first.                  *)
(* Checked (Good): every handle shows the contents the abstract stack has  *)
(* (a sequence, bottom first) whatever the other handles do; its length    *)
(* field is right; exact counts, no leaks; what is copied is bounded by    *)
(* the nodes above the one an operation works on, none if unshared.        *)
(* Values are renamed by first occurrence after every step.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

SKids(n) == <<n.next>>
SMap(n, f) == [n EXCEPT !.next = f[@]]
SElems(n) == 1
INSTANCE CowHeap WITH KidsOf <- SKids, MapKids <- SMap, ElemsOf <- SElems

CONSTANTS NH, MaxLen, Emit
VARIABLES S, root, len, con, good
vars == <<S, root, len, con, good>>

Handle == 1 .. NH
Dead == -1
Live == {h \in Handle : root[h] # Dead}
Roots(r) == SelectSeq([i \in Handle |-> r[i]], LAMBDA x : x > 0)
Fresh == 1000
Code(s, r) == <<TLCFP(<<s.n, r>>), TLCFP(<<r, s.n, 7>>)>>
Init == /\ S = Empty
        /\ root = [h \in Handle |-> IF h = 1 THEN 0 ELSE Dead]
        /\ len = [h \in Handle |-> 0]
        /\ con = [h \in Handle |-> <<>>]
        /\ good = TRUE
        /\ Emit => PrintT(ToString(<<"I", Code(S, root)>>))

RECURSIVE Flat(_, _) \* bottom first
Flat(T, id) == IF id = 0 THEN <<>> ELSE Append(Flat(T, T.n[id].next), T.n[id].v)
RECURSIVE Own(_, _)
Own(T, id) == id = 0 \/ (T.n[id].rc = 1 /\ Own(T, T.n[id].next))
AnyShared == \E i \in Ids(S) : S.n[i].rc > 1
Active(h) == h \in Live /\ (Live = {h} \/ AnyShared)
Set1(f, h, x) == [f EXCEPT ![h] = x]

\* values renamed by first occurrence
RECURSIVE IndexOf(_, _, _)
IndexOf(x, s, i) == IF s[i] = x THEN i ELSE IndexOf(x, s, i + 1)
RECURSIVE Distinct(_, _, _)
Distinct(T1, i, acc) == IF i > Len(T1) THEN acc ELSE Distinct(T1, i + 1, IF InSeq(T1[i].v, acc) THEN acc ELSE Append(acc, T1[i].v))
RECURSIVE Renumber(_, _, _, _)
Renumber(T1, i, vals, acc) == IF i > Len(T1) THEN acc
                              ELSE Renumber(T1, i + 1, vals, Append(acc, [T1[i] EXCEPT !.v = IndexOf(@, vals, 1)]))
RECURSIVE Codes(_, _, _, _)
Codes(c, i, vals, acc) == IF i > Len(c) THEN acc ELSE Codes(c, i + 1, vals, Append(acc, IndexOf(c[i], vals, 1)))

Done(op, T, r, l, c, cost) ==
    LET ren == Renaming(T, Roots(r))
        ord == TLCEval(Order(T, Roots(r)))
        T1 == Rename(T, ord, ren)
        vals == Distinct(T1, 1, <<>>)
        T2 == [n |-> Renumber(T1, 1, vals, <<>>), cp |-> 0]
        r2 == [h \in Handle |-> IF r[h] = Dead THEN Dead ELSE ren[r[h]]]
        ok == /\ \A h \in Handle : r[h] # Dead => Flat(T, r[h]) = c[h] /\ l[h] = Len(c[h])
              /\ Len(ord) = Cardinality(Ids(T))
              /\ CountsOK(T, Roots(r))
              /\ T.cp <= cost
    IN /\ S' = T2
       /\ root' = r2
       /\ len' = l
       /\ con' = [h \in Handle |-> IF ok THEN Codes(c[h], 1, vals, <<>>) ELSE c[h]]
       /\ good' = ok
       /\ Emit => PrintT(ToString(<<"T", Code(S, root), op, Code(T2, r2), T.cp>>))

Top(h) == SubSeq(con[h], 1, Len(con[h]) - 1)
Push(h) == /\ Active(h) /\ len[h] < MaxLen
           /\ LET a == Alloc(S, [v |-> Fresh, next |-> root[h], rc |-> 1])
              IN Done(<<"push", h>>, a[1], Set1(root, h, a[2]), Set1(len, h, len[h] + 1), Set1(con, h, Append(con[h], Fresh)), 0)
Pop(h) == /\ Active(h)
          /\ IF root[h] = 0 THEN Done(<<"pop", h>>, S, root, len, con, 0)
             ELSE LET t == Take(S, root[h])
                  IN Done(<<"pop", h>>, t[1], Set1(root, h, t[2].next), Set1(len, h, len[h] - 1), Set1(con, h, Top(h)),
                          IF Own(S, root[h]) THEN 0 ELSE 1)
TopMut(h) == /\ Active(h)
             /\ IF root[h] = 0 THEN Done(<<"topm", h>>, S, root, len, con, 0)
                ELSE LET m == MakeMut(S, root[h])
                     IN Done(<<"topm", h>>, [m[1] EXCEPT !.n[m[2]].v = Fresh], Set1(root, h, m[2]), len,
                             Set1(con, h, Append(Top(h), Fresh)), IF Own(S, root[h]) THEN 0 ELSE 1)
\* own the top j nodes: <<heap, root, link>>, link the node below them
RECURSIVE OwnTop(_, _, _)
OwnTop(T, id, j) == IF j = 0 THEN <<T, id, id>>
                    ELSE LET m == MakeMut(T, id)
                             q == OwnTop(m[1], m[1].n[m[2]].next, j - 1)
                         IN <<[q[1] EXCEPT !.n[m[2]].next = q[2]], m[2], q[3]>>
\* replace the link below the top j nodes by x
RECURSIVE SetLink(_, _, _, _)
SetLink(T, id, j, x) == IF j = 1 THEN [T EXCEPT !.n[id].next = x] ELSE SetLink(T, T.n[id].next, j - 1, x)
RemoveAt(h, i) == \* i counts from the bottom, from 0
    /\ Active(h) /\ i < len[h]
    /\ LET j == len[h] - 1 - i
           q == OwnTop(S, root[h], j)
           t == Take(q[1], q[3])
           T == IF j = 0 THEN t[1] ELSE SetLink(t[1], q[2], j, t[2].next)
       IN Done(<<"remi", h, i>>, T, Set1(root, h, IF j = 0 THEN t[2].next ELSE q[2]), Set1(len, h, len[h] - 1),
               Set1(con, h, SubSeq(con[h], 1, i) \o SubSeq(con[h], i + 2, len[h])), IF Own(S, root[h]) THEN 0 ELSE j + 1)
SplitOff(h, i, g) == \* h keeps the bottom i
    /\ Active(h) /\ g \notin Live /\ i <= len[h]
    /\ LET j == len[h] - i
           q == OwnTop(S, root[h], j)
           rt == CASE i = 0 -> <<S, 0, root[h]>>
                   [] j = 0 -> <<S, root[h], 0>>
                   [] OTHER -> <<SetLink(q[1], q[2], j, 0), q[3], q[2]>>
       IN Done(<<"split", h, i, g>>, rt[1], [root EXCEPT ![h] = rt[2], ![g] = rt[3]], [len EXCEPT ![h] = i, ![g] = j],
               [con EXCEPT ![h] = SubSeq(con[h], 1, i), ![g] = SubSeq(con[h], i + 1, Len(con[h]))], IF Own(S, root[h]) THEN 0 ELSE j)
Clear(h) == /\ Active(h)
            /\ Done(<<"clear", h>>, Dec(S, root[h]), Set1(root, h, 0), Set1(len, h, 0), Set1(con, h, <<>>), 0)
Clone(h, g) == /\ h \in Live /\ g \notin Live
               /\ Done(<<"clone", h, g>>, Inc(S, root[h]), Set1(root, g, root[h]), Set1(len, g, len[h]), Set1(con, g, con[h]), 0)
Assign(h, g) == /\ h \in Live /\ g \in Live /\ h # g
                /\ Done(<<"assign", h, g>>, Dec(Inc(S, root[h]), root[g]), Set1(root, g, root[h]), Set1(len, g, len[h]), Set1(con, g, con[h]), 0)
Drop(h) == /\ h \in Live
           /\ Done(<<"drop", h>>, Dec(S, root[h]), Set1(root, h, Dead), Set1(len, h, 0), Set1(con, h, <<>>), 0)
NewH(h) == /\ Live = {} /\ h = 1
           /\ Done(<<"new", h>>, S, Set1(root, h, 0), len, con, 0)
\* iter_mut that stops after j elements, changing them
RECURSIVE Marks(_, _, _)
Marks(T, id, j) == IF j = 0 THEN T ELSE Marks([T EXCEPT !.n[id].v = Fresh + j], T.n[id].next, j - 1)
IterMut(h, j) == /\ Active(h) /\ j \in 1 .. len[h]
                 /\ LET q == OwnTop(S, root[h], j)
                        n == len[h]
                    IN Done(<<"itm", h, j>>, Marks(q[1], q[2], j), Set1(root, h, q[2]), len,
                            Set1(con, h, [i \in 1 .. n |-> IF i > n - j THEN Fresh + (i - (n - j)) ELSE con[h][i]]),
                            IF Own(S, root[h]) THEN 0 ELSE j)

Next == \E h \in Handle :
    \/ Push(h) \/ Pop(h) \/ TopMut(h) \/ Clear(h) \/ Drop(h) \/ NewH(h)
    \/ \E i \in 0 .. MaxLen : RemoveAt(h, i)
    \/ \E i \in 0 .. MaxLen : \E g \in Handle : SplitOff(h, i, g)
    \/ \E g \in Handle : Clone(h, g) \/ Assign(h, g)
    \/ \E j \in 1 .. MaxLen : IterMut(h, j)
Good == good
=============================================================================
