------------------------------- MODULE FxIter -------------------------------
(***************************************************************************)
(* The iterators of src/btree/core.rs: a double-ended queue of node        *)
(* iterators.  A node iterator keeps the entries e and children k that it  *)
(* has not given away, and decides at either end which of the two comes    *)
(* next:                                                                   *)
(*   t = "B"  borrowed node: by two flags (fe, be: an entry is next at the *)
(*            front, at the back)                                          *)
(*   t = "O"  contents taken out of the heap, "A" node kept alive by a     *)
(*            reference: by four indices (x .. y: the entries that are     *)
(*            left, u .. v: the children; ends excluded, from 0)           *)
(* An iterator that finds neither is dropped from the queue.               *)
(***************************************************************************)
EXTENDS FxNode

Front(w) == SubSeq(w, 1, Len(w) - 1)
Last(w) == w[Len(w)]
It(t, id, n) == [t |-> t, id |-> id, e |-> n.e, k |-> n.k, fe |-> IsLeaf(n), be |-> IsLeaf(n),
                 x |-> 0, y |-> IF t = "B" THEN 0 ELSE Len(n.e), u |-> 0, v |-> IF t = "B" THEN 0 ELSE Len(n.k)]
Unwrap(S, id) == IF Shared(S, id) THEN <<S, It("A", id, S.n[id])>>
                 ELSE <<Remove(S, id), It("O", 0, S.n[id])>>
Swap(k, a, b) == [i \in DOMAIN k |-> IF k[i] = a THEN b ELSE k[i]]
\* the iterator of a child given away by i
Enter(S, i, kid, mode) ==
    CASE i.t = "O" -> Unwrap(S, kid)
      [] i.t = "A" -> Unwrap(Inc(S, kid), kid)
      [] OTHER -> IF mode # "mut" THEN <<S, It("B", kid, S.n[kid])>>
                  ELSE LET m == MakeMut(S, kid)
                       IN <<[m[1] EXCEPT !.n[i.id].k = Swap(@, kid, m[2])], It("B", m[2], m[1].n[m[2]])>>
Took(S, i) == IF i.t = "A" THEN [S EXCEPT !.cp = @ + 1] ELSE S
Gone(S, i) == CASE i.t = "A" -> Dec(S, i.id) [] i.t = "O" -> DecAll(S, i.k) [] OTHER -> S
\* what is next at the front: "kid", "entry" or "none"; and after the flags changed
FNext(i) == IF i.t = "B" THEN IF i.fe THEN IF i.e # <<>> THEN "entry" ELSE "none" ELSE IF i.k # <<>> THEN "kid" ELSE "none"
            ELSE IF i.u < i.v /\ i.u <= i.x THEN "kid" ELSE IF i.x < i.y THEN "entry" ELSE "none"
BNext(i) == IF i.t = "B" THEN IF i.be THEN IF i.e # <<>> THEN "entry" ELSE "none" ELSE IF i.k # <<>> THEN "kid" ELSE "none"
            ELSE IF i.u < i.v /\ i.y < i.v THEN "kid" ELSE IF i.x < i.y THEN "entry" ELSE "none"
FKid(i) == IF i.t = "B" THEN [i EXCEPT !.k = Tail(@), !.fe = TRUE] ELSE [i EXCEPT !.k = Tail(@), !.u = @ + 1]
FEntry(i) == IF i.t = "B" THEN [i EXCEPT !.e = Tail(@), !.fe = i.k = <<>>] ELSE [i EXCEPT !.e = Tail(@), !.x = @ + 1]
BKid(i) == IF i.t = "B" THEN [i EXCEPT !.k = Front(@), !.be = TRUE] ELSE [i EXCEPT !.k = Front(@), !.v = @ - 1]
BEntry(i) == IF i.t = "B" THEN [i EXCEPT !.e = Front(@), !.be = i.k = <<>>] ELSE [i EXCEPT !.e = Front(@), !.y = @ - 1]

RECURSIVE StepF(_, _, _)
StepF(S, w, mode) ==
    IF w = <<>> THEN <<S, w, <<>> >>
    ELSE LET i == Head(w) IN
         CASE FNext(i) = "none" -> StepF(Gone(S, i), Tail(w), mode)
           [] FNext(i) = "kid" -> LET n == Enter(S, i, Head(i.k), mode) IN StepF(n[1], <<n[2], FKid(i)>> \o Tail(w), mode)
           [] OTHER -> <<Took(S, i), <<FEntry(i)>> \o Tail(w), Head(i.e) \o <<i.id>> >>
RECURSIVE StepB(_, _, _)
StepB(S, w, mode) ==
    IF w = <<>> THEN <<S, w, <<>> >>
    ELSE LET i == Last(w) IN
         CASE BNext(i) = "none" -> StepB(Gone(S, i), Front(w), mode)
           [] BNext(i) = "kid" -> LET n == Enter(S, i, Last(i.k), mode) IN StepB(n[1], Front(w) \o <<BKid(i), n[2]>>, mode)
           [] OTHER -> <<Took(S, i), Append(Front(w), BEntry(i)), Last(i.e) \o <<i.id>> >>

(***************************************************************************)
(* What a queue stands for, and what it refers to.                         *)
(***************************************************************************)
RECURSIVE Weave(_, _, _, _)
Weave(S, e, k, kidfirst) ==
    IF kidfirst /\ k # <<>> THEN Flat(S, Head(k)) \o Weave(S, e, Tail(k), FALSE)
    ELSE IF e # <<>> THEN <<Head(e)>> \o Weave(S, Tail(e), k, k # <<>>)
    ELSE IF k # <<>> THEN << <<-2, 0>> >> \* a child nothing leads to
    ELSE <<>>
RECURSIVE WFlat(_, _)
WFlat(S, w) == IF w = <<>> THEN <<>> ELSE Weave(S, Head(w).e, Head(w).k, FNext(Head(w)) = "kid") \o WFlat(S, Tail(w))
RECURSIVE WRefs(_)
WRefs(w) == IF w = <<>> THEN <<>>
            ELSE (CASE Head(w).t = "A" -> <<Head(w).id>> [] Head(w).t = "O" -> Head(w).k [] OTHER -> <<>>) \o WRefs(Tail(w))
RECURSIVE WRename(_, _)
WRename(w, f) == IF w = <<>> THEN <<>>
                 ELSE <<[Head(w) EXCEPT !.id = f[@], !.k = [i \in DOMAIN @ |-> f[@[i]]]]>> \o WRename(Tail(w), f)
\* the indices and the contents that are left agree
WFine(w) == \A j \in DOMAIN w : w[j].t # "B" => Len(w[j].e) = w[j].y - w[j].x /\ Len(w[j].k) = w[j].v - w[j].u

WRef(S, root) == IF root = 0 THEN <<>> ELSE <<It("B", root, S.n[root])>>
WOwn(S, root) == IF root = 0 THEN <<S, <<>> >> ELSE LET u == Unwrap(S, root) IN <<u[1], <<u[2]>> >>
Handed(x) == x
Write(S, x, d) == [S EXCEPT !.n[x[3]].e = [i \in DOMAIN @ |-> IF @[i][1] = x[1] THEN <<@[i][1], d[@[i][2]]>> ELSE @[i]]]
=============================================================================
