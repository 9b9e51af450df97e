---------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* The abstract state machine of the crate: a set of handles (maps, sets   *)
(* or stacks of one type), consuming cursors, and sharing families.        *)
(*                                                                         *)
(*   st[h]   contents of handle h, a sorted entry sequence (stacks: bottom *)
(*           to top, entries <<x, 0>>)                                     *)
(*   fam[h]  0 if h is not live, else the id of its sharing family: handles *)
(*           of different families certainly share no storage              *)
(*   cur[c]  a consuming iterator: <<family, projection, remaining, held>>; *)
(*           one made from shared storage may hold on to up to `held`      *)
(*           elements that it has copied out already                       *)
(*   cfg     the type under test                                           *)
(*                                                                         *)
(* Every operation of the public API is one action.  An action names the   *)
(* handles whose contents may change and their new contents (up to the     *)
(* choice of which of two equal keys is stored), the result, and the       *)
(* allowed cost; all other handles keep their contents, which is the       *)
(* isolation guarantee.                                                    *)
(***************************************************************************)
EXTENDS Dict

CONSTANTS NH, NC,         \* numbers of handles and cursors
          Sem,            \* results and contents of the addressed handles are judged
          CurSem          \* results of consuming cursors are judged
(***************************************************************************)
(* Sem and CurSem are TRUE in the model proper.  Trace validation for a    *)
(* property that speaks of other things only (isolation, cost, ownership)  *)
(* sets them FALSE: the addressed handles then adopt what was observed.    *)
(***************************************************************************)

VARIABLES st, fam, cur, cfg
vars == <<st, fam, cur, cfg>>

Handle == 1 .. NH
Cursor == 1 .. NC
NoCur == <<0, "", <<>>, 0>>
Live == {h \in Handle : fam[h] # 0}
FamUsed == {fam[h] : h \in Handle} \cup {cur[c][1] : c \in Cursor}
FreshFam == CHOOSE f \in 1 .. NH + NC + 1 : f \notin FamUsed

\* h certainly shares storage with nothing else
Excl(h) == /\ \A g \in Handle \ {h} : fam[g] # fam[h]
           /\ \A c \in Cursor : cur[c][1] # fam[h]

CollInit == /\ st = [h \in Handle |-> <<>>]
            /\ fam = [h \in Handle |-> 0]
            /\ cur = [c \in Cursor |-> NoCur]
            /\ cfg = [ty |-> "none", kd |-> "", fm |-> "", N |-> 0, leak |-> FALSE]

Reset(ty, kd, fm, n) ==
    /\ st' = [h \in Handle |-> <<>>]
    /\ fam' = [h \in Handle |-> 0]
    /\ cur' = [c \in Cursor |-> NoCur]
    /\ cfg' = [ty |-> ty, kd |-> kd, fm |-> fm, N |-> n, leak |-> FALSE]

(***************************************************************************)
(* Contents effects.  `new` maps handles to <<expected contents, pool>>;   *)
(* obs(h) gives the new contents actually chosen/observed for h.           *)
(***************************************************************************)
\* (Is: TLC then evaluates a predicate as a value, not as a list of actions)
Is(b) == b = TRUE
Write(new, obs(_)) ==
    /\ Sem => Is(\A h \in DOMAIN new : Match(obs(h), new[h][1], new[h][2]))
    /\ st' = [h \in Handle |-> IF h \in DOMAIN new THEN obs(h) ELSE st[h]]
Exact(s) == <<s, {}>>
NoChange == st' = st

\* families
KeepFam == fam' = fam
Kill(h) == fam' = [fam EXCEPT ![h] = 0]
\* g is merged into h and stays live iff keep
MergeFam(h, g, keep) ==
    LET fh == fam[h]
        fg == fam[g]
    IN fam' = [x \in Handle |->
                 IF x = g /\ ~keep THEN 0
                 ELSE IF fam[x] = fg THEN fh ELSE fam[x]]
MergeCur(h, g) ==
    cur' = [c \in Cursor |-> IF cur[c][1] = fam[g] /\ fam[g] # 0
                             THEN <<fam[h], cur[c][2], cur[c][3], cur[c][4]>> ELSE cur[c]]

(***************************************************************************)
(* Cost bounds.                                                            *)
(***************************************************************************)
PerLevel == IF cfg.fm = "avl" THEN 2 ELSE 2 * cfg.N + 1
\* comparisons of one lookup among n entries
LookupBound(n) == Height(cfg.fm, cfg.N, n) * PerLevel + 2
UpdateBound(n) == 4 * LookupBound(n + 1)
\* element clones of one point update on a collection that shares storage
CloneBound(n) == IF cfg.fm = "avl" THEN 3 * AvlHeight(n + 1) + 5
                 ELSE 3 * (BtHeight(n + 1, cfg.N) + 1) * (2 * cfg.N + 2)

Sum(f) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + f[i] IN S(Len(f))
TotalLen(s, c) == Sum([h \in Handle |-> Len(s[h])]) + Sum([i \in Cursor |-> Len(c[i][3])])

(***************************************************************************)
(* Actions: maps and sets.                                                 *)
(***************************************************************************)
New(n, obs(_)) ==
    /\ n \notin Live
    /\ fam' = [fam EXCEPT ![n] = FreshFam]
    /\ Write(n :> Exact(<<>>), obs)
    /\ UNCHANGED <<cur, cfg>>

Clone(h, n, obs(_)) ==
    /\ h \in Live /\ n \notin Live
    /\ fam' = [fam EXCEPT ![n] = fam[h]]
    /\ obs(n) = st[h]
    /\ Write(n :> Exact(st[h]), obs)
    /\ UNCHANGED <<cur, cfg>>

\* clone_from: g drops what it held and becomes a clone of h
Assign(h, g, obs(_)) ==
    /\ h \in Live /\ g \in Live /\ h # g
    /\ fam' = [fam EXCEPT ![g] = fam[h]]
    /\ obs(g) = st[h]
    /\ Write(g :> Exact(st[h]), obs)
    /\ UNCHANGED <<cur, cfg>>

DropH(h, obs(_)) ==
    /\ h \in Live
    /\ Kill(h)
    /\ Write(h :> Exact(<<>>), obs)
    /\ UNCHANGED <<cur, cfg>>

\* an operation that changes the contents of one handle only
Update(h, new, pool, obs(_)) ==
    /\ h \in Live
    /\ Write(h :> <<new, pool>>, obs)
    /\ UNCHANGED <<fam, cur, cfg>>

Read(h) == h \in Live /\ UNCHANGED vars

Insert(h, kk, v, r, obs(_)) ==
    /\ Sem => r = Get(st[h], Ord(kk))
    /\ Update(h, Put(st[h], kk, v), {kk} \cup {GetKey(st[h], Ord(kk))[i] : i \in DOMAIN GetKey(st[h], Ord(kk))}, obs)

Remove(h, x, r, obs(_)) ==
    /\ Sem => r = Get(st[h], x)
    /\ Update(h, Del(st[h], x), {}, obs)

RemoveEntry(h, x, r, obs(_)) ==
    /\ Sem => r = GetEntry(st[h], x)
    /\ Update(h, Del(st[h], x), {}, obs)

PopFirst(h, r, obs(_)) ==
    /\ Sem => r = FirstE(st[h])
    /\ Update(h, IF st[h] = <<>> THEN <<>> ELSE Tail(st[h]), {}, obs)

PopLast(h, r, obs(_)) ==
    /\ Sem => r = LastE(st[h])
    /\ Update(h, IF st[h] = <<>> THEN <<>> ELSE SubSeq(st[h], 1, Len(st[h]) - 1), {}, obs)

GetMut(h, x, d, r, obs(_)) ==
    LET g == Get(st[h], x)
    IN /\ Sem => r = IF g = <<>> THEN <<>> ELSE <<g[1] + d>>
       /\ Update(h, IF g = <<>> THEN st[h] ELSE SetVal(st[h], x, g[1] + d), {}, obs)

Clear(h, obs(_)) == Update(h, <<>>, {}, obs)

\* several point operations: <<code, k, v, result, comparisons>>
SeqStep(acc, t) ==
    IF ~acc[1] THEN acc
    ELSE LET s == acc[2]
             r == CASE t[1] = 0 -> Get(s, Ord(t[2]))
                    [] t[1] = 1 -> Get(s, t[2])
                    [] t[1] = 2 -> Get(s, t[2])
                    [] t[1] = 3 -> FirstE(s)
                    [] OTHER -> LastE(s)
             s2 == CASE t[1] = 0 -> Put(s, t[2], t[3])
                    [] t[1] = 1 -> Del(s, t[2])
                    [] t[1] = 2 -> s
                    [] t[1] = 3 -> IF s = <<>> THEN s ELSE Tail(s)
                    [] OTHER -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
             \* popped entries may carry any of the equal keys inserted so far
             same == \/ t[4] = r
                     \/ /\ t[1] \in {3, 4}
                        /\ Len(t[4]) = 2 /\ Len(r) = 2
                        /\ Ord(t[4][1]) = Ord(r[1]) /\ t[4][2] = r[2]
         IN <<same, s2>>
SeqRun(s, l) == Fold(SeqStep, <<TRUE, s>>, l)
PointOps(h, l, obs(_)) ==
    LET run == SeqRun(st[h], l)
        ins == SelectSeq(l, LAMBDA t : t[1] = 0)
    IN /\ Sem => Is(run[1])
       /\ Update(h, run[2], {st[h][i][1] : i \in 1 .. Len(st[h])} \cup {ins[i][2] : i \in 1 .. Len(ins)}, obs)

\* append moves everything over and empties its argument
AppendAll(h, g, obs(_)) ==
    /\ h \in Live /\ g \in Live /\ h # g
    /\ Write(h :> <<Union(st[h], st[g]), Pool(st[h], st[g])>> @@ g :> Exact(<<>>), obs)
    /\ MergeFam(h, g, TRUE) /\ MergeCur(h, g)
    /\ UNCHANGED cfg

Extend(h, l, obs(_)) == Update(h, PutAll(st[h], l), Pool(st[h], l), obs)

From(n, l, obs(_)) ==
    /\ n \notin Live
    /\ fam' = [fam EXCEPT ![n] = FreshFam]
    /\ Write(n :> <<PutAll(<<>>, l), Pool(<<>>, l)>>, obs)
    /\ UNCHANGED <<cur, cfg>>

SplitOff(h, x, n, obs(_)) ==
    /\ h \in Live /\ n \notin Live
    /\ fam' = [fam EXCEPT ![n] = IF Excl(h) THEN FreshFam ELSE fam[h]]
    /\ Write(h :> Exact(Below(st[h], x)) @@ n :> Exact(AtLeast(st[h], x)), obs)
    /\ UNCHANGED <<cur, cfg>>

\* keep iff (ord*a + v) % m < t; visited values grow by d; `calls` are the
\* keys the predicate was called with
Retain(h, a, m, t, d, calls, obs(_)) ==
    /\ Sem => Len(calls) = Len(st[h])
    /\ Sem => {calls[i] : i \in 1 .. Len(calls)} = {st[h][i][1] : i \in 1 .. Len(st[h])}
    /\ Update(h, RetainSeq(st[h], a, m, t, d), {}, obs)
\* the same, keeping the entries with the orders in l
RetainKeys(h, l, d, calls, obs(_)) ==
    /\ Sem => Len(calls) = Len(st[h])
    /\ Sem => {calls[i] : i \in 1 .. Len(calls)} = {st[h][i][1] : i \in 1 .. Len(st[h])}
    /\ Update(h, LET r == SelectSeq(st[h], LAMBDA e : \E i \in DOMAIN l : l[i] = EOrd(e))
                 IN IF d = 0 THEN r ELSE AddAll(r, d), {}, obs)

MergeX(a, b, w) == CASE w = 0 -> <<Union(a, b), Pool(a, b)>>
                     [] w = 1 -> <<Both(a, b), Pool(a, b)>>
                     [] w = 2 -> <<Only(a, b), {}>>
                     [] OTHER -> <<SymDiffE(a, b), {}>>
\* whole-map union (0), intersection (1), difference (2), symmetric difference (3)
Merge(h, g, w, obs(_)) ==
    /\ h \in Live /\ g \in Live /\ h # g
    /\ Write(h :> MergeX(st[h], st[g], w) @@ g :> Exact(<<>>), obs)
    /\ MergeFam(h, g, FALSE) /\ MergeCur(h, g)
    /\ UNCHANGED cfg

Join(h, kk, v, g, obs(_)) ==
    /\ h \in Live /\ g \in Live /\ h # g
    /\ Write(h :> Exact(st[h] \o << <<kk, v>> >> \o st[g]) @@ g :> Exact(<<>>), obs)
    /\ MergeFam(h, g, FALSE) /\ MergeCur(h, g)
    /\ UNCHANGED cfg

\* a borrowing iterator session; d is added to every yielded value
Iterate(h, pj, d, r, sz, obs(_)) ==
    LET f == Sess(st[h], pj, d, r, sz)
    IN (Sem => Is(f[1])) /\ Update(h, f[4], {}, obs)

RangeIter(h, b, pj, d, r, obs(_)) ==
    LET lo == RLo(st[h], b)
        hi == Max2(lo, RHi(st[h], b))
        f == Sess(SubSeq(st[h], lo + 1, hi), pj, d, r, TRUE)
    IN (Sem => Is(f[1])) /\ Update(h, SubSeq(st[h], 1, lo) \o f[4] \o SubSeq(st[h], hi + 1, Len(st[h])), {}, obs)
\* A range whose start lies after its end panics (B-trees); one with both ends
\* excluding the same key may, as in std (B-trees do if they hold that key).
RangePanic(h, b) == /\ Is(Inverted(b) \/ ExEx(b))
                    /\ Read(h)

\* a consuming iterator, run and dropped in one event
IntoSession(h, pj, r, sz, obs(_)) ==
    /\ h \in Live
    /\ Sem => Is(Sess(st[h], pj, 0, r, sz)[1])
    /\ Kill(h)
    /\ Write(h :> Exact(<<>>), obs)
    /\ UNCHANGED <<cur, cfg>>

\* consuming cursors that stay open
CurNew(h, c, pj, obs(_)) ==
    /\ h \in Live /\ cur[c] = NoCur
    /\ cur' = [cur EXCEPT ![c] = <<fam[h], pj, st[h], IF Excl(h) THEN 0 ELSE Len(st[h])>>]
    /\ Kill(h)
    /\ Write(h :> Exact(<<>>), obs)
    /\ UNCHANGED cfg
CurStep(c, r, sz) ==
    LET f == Sess(cur[c][3], cur[c][2], 0, r, sz)
    IN /\ cur[c] # NoCur
       /\ CurSem => Is(f[1])
       /\ cur' = [cur EXCEPT ![c][3] = SubSeq(@, f[2] + 1, Len(@) - f[3])]
       /\ UNCHANGED <<st, fam, cfg>>
CurDrop(c) ==
    /\ cur[c] # NoCur
    /\ cur' = [cur EXCEPT ![c] = NoCur]
    /\ UNCHANGED <<st, fam, cfg>>

ForEach(h, d, l, obs(_)) ==
    /\ Sem => l = AddAll(st[h], d)
    /\ Update(h, AddAll(st[h], d), {}, obs)

(***************************************************************************)
(* entry(kk) followed by e = <<c1, x1, c2, x2>>: codes 0 nothing,          *)
(* 1 and_modify (+x), 2 or_insert(x), 3 or_insert_with(x),                 *)
(* 4 or_insert_with_key (the key), 5 or_default (0), 6 key().  The value   *)
(* reference that 2..5 return is then increased by 1000.  Result           *)
(* r = <<<<key>>, and_modify calls, default calls, value read>>.           *)
(***************************************************************************)
EntryX(s, kk, e) ==
    LET x == Ord(kk)
        had == Has(s, x)
        nmod == (IF had /\ e[1] = 1 THEN 1 ELSE 0) + (IF had /\ e[3] = 1 THEN 1 ELSE 0)
        dmod == (IF had /\ e[1] = 1 THEN e[2] ELSE 0) + (IF had /\ e[3] = 1 THEN e[4] ELSE 0)
        s1 == IF had THEN SetVal(s, x, Get(s, x)[1] + dmod) ELSE s
        or == e[3] \in 2 .. 5
        dv == CASE e[3] = 4 -> kk [] e[3] = 5 -> 0 [] OTHER -> e[4]
        v2 == (IF had THEN Get(s1, x)[1] ELSE dv) + 1000
        s2 == IF ~or THEN s1 ELSE IF had THEN SetVal(s1, x, v2) ELSE Put(s1, kk, v2)
    IN <<s2, nmod, IF ~had /\ e[3] \in {3, 4} THEN 1 ELSE 0, IF or THEN <<v2>> ELSE <<>> >>

EntryOp(h, kk, e, r, obs(_)) ==
    LET x == EntryX(st[h], kk, e)
    IN /\ Sem => r = << <<kk>>, x[2], x[3], x[4]>>
       /\ Update(h, x[1], {}, obs)
\* first_entry / last_entry
EndEntry(h, last, e, r, obs(_)) ==
    IF st[h] = <<>> THEN (Sem => r = <<>>) /\ Read(h)
    ELSE LET kk == (IF last THEN LastE(st[h]) ELSE FirstE(st[h]))[1]
             x == EntryX(st[h], kk, e)
         IN /\ Sem => r = << <<kk>>, x[2], x[3], x[4]>>
            /\ Update(h, x[1], {}, obs)

(***************************************************************************)
(* Relations: rel = <<eq, ne, cmp, partial_cmp, lt, hash eq or -1>>.       *)
(***************************************************************************)
B(b) == IF b THEN 1 ELSE 0
RelOK(a, b, rel) ==
    LET c == Lex(a, b)
        eq == SameKV(a, b)
    IN /\ rel[1] = B(eq) /\ rel[2] = B(~eq)
       /\ rel[3] = c /\ rel[4] = c /\ rel[5] = B(c = -1)
       /\ rel[6] # -1 => (eq => rel[6] = 1)
Flat(s, ty) == IF ty = "set" THEN [i \in 1 .. Len(s) |-> s[i][1]]
               ELSE [i \in 1 .. 2 * Len(s) |-> s[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]

(***************************************************************************)
(* Serialization.                                                          *)
(***************************************************************************)
SerOK(s, r) == /\ r[1] \in {-1, Len(s)} /\ r[2] = 1 /\ r[3] = 0
               /\ r[4] = s
\* position `er` (-1: none) of an error: 2i reading key i, 2i+1 reading value i
Deser(n, l, er, ok, obs(_)) ==
    IF er # -1 /\ er < 2 * Len(l) + 1
    THEN ok = 0 /\ n \notin Live /\ UNCHANGED vars
    ELSE ok = 1 /\ From(n, l, obs)

(***************************************************************************)
(* Sets.                                                                   *)
(***************************************************************************)
SInsert(h, kk, r, obs(_)) ==
    /\ Sem => r = <<B(~Has(st[h], Ord(kk)))>>
    /\ Update(h, Put(st[h], kk, 0), {kk} \cup {GetKey(st[h], Ord(kk))[i] : i \in DOMAIN GetKey(st[h], Ord(kk))}, obs)
SReplace(h, kk, r, obs(_)) ==
    /\ Sem => r = GetKey(st[h], Ord(kk))
    /\ Update(h, Put(st[h], kk, 0), {}, obs)
SRemove(h, x, r, obs(_)) ==
    /\ Sem => r = <<B(Has(st[h], x))>>
    /\ Update(h, Del(st[h], x), {}, obs)
STake(h, x, r, obs(_)) ==
    /\ Sem => r = GetKey(st[h], x)
    /\ Update(h, Del(st[h], x), {}, obs)
K1(e) == IF e = <<>> THEN <<>> ELSE <<e[1]>>
SPopFirst(h, r, obs(_)) ==
    /\ Sem => r = K1(FirstE(st[h]))
    /\ Update(h, IF st[h] = <<>> THEN <<>> ELSE Tail(st[h]), {}, obs)
SPopLast(h, r, obs(_)) ==
    /\ Sem => r = K1(LastE(st[h]))
    /\ Update(h, IF st[h] = <<>> THEN <<>> ELSE SubSeq(st[h], 1, Len(st[h]) - 1), {}, obs)

\* several point operations: <<code, k, result, comparisons>>
SSeqStep(acc, t) ==
    IF ~acc[1] THEN acc
    ELSE LET s == acc[2]
             x == IF t[1] \in {0, 5} THEN Ord(t[2]) ELSE t[2]
             r == CASE t[1] = 0 -> <<B(~Has(s, x))>>
                    [] t[1] = 1 -> <<B(Has(s, x))>>
                    [] t[1] = 2 -> <<B(Has(s, x))>>
                    [] t[1] = 3 -> K1(FirstE(s))
                    [] t[1] = 4 -> K1(LastE(s))
                    [] OTHER -> GetKey(s, x)
             s2 == CASE t[1] \in {0, 5} -> Put(s, t[2], 0)
                     [] t[1] \in {1, 6} -> Del(s, x)
                     [] t[1] = 2 -> s
                     [] t[1] = 3 -> IF s = <<>> THEN s ELSE Tail(s)
                     [] OTHER -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
             \* removed elements may be any of the equal ones inserted so far
             same == \/ t[3] = r
                     \/ /\ t[1] \in {3, 4, 5, 6}
                        /\ Len(t[3]) = 1 /\ Len(r) = 1
                        /\ Ord(t[3][1]) = Ord(r[1])
         IN <<same, s2>>
SSeqRun(s, l) == Fold(SSeqStep, <<TRUE, s>>, l)
SPointOps(h, l, obs(_)) ==
    LET run == SSeqRun(st[h], l)
        ins == SelectSeq(l, LAMBDA t : t[1] \in {0, 5})
    IN /\ Sem => Is(run[1])
       /\ Update(h, run[2], {st[h][i][1] : i \in 1 .. Len(st[h])} \cup {ins[i][2] : i \in 1 .. Len(ins)}, obs)

SubsetOK(a, b) == \A i \in 1 .. Len(a) : Has(b, EOrd(a[i]))
\* which = 0 union, 1 intersection, 2 difference, 3 symmetric difference
SetX(a, b, w) == MergeX(a, b, w)
\* lazy set operation: a forward session over the result x, which may hold,
\* for common elements, the element of either side
LazySome(it, e, a, b) == /\ Len(it) = 1
                         /\ LET o == EOrd(e)
                            IN it \in {<<e[1]>>, GetKey(a, o), GetKey(b, o)}
LazyStep(x, a, b, acc, t) == \* acc: <<ok, consumed so far>>
    LET c == t[1]
        pos == acc[2] + 1 + (IF IsWhole(c) THEN 0 ELSE Skip(c))
        some == pos <= Len(x)
        p2 == IF some /\ ~IsWhole(c) THEN pos ELSE Len(x)
        left == Len(x) - acc[2]
        good == CASE c = 30 -> t[2] = <<left>>
                  [] c = 31 -> IF left = 0 THEN t[2] = <<>> ELSE LazySome(t[2], x[Len(x)], a, b)
                  [] c \in {32, 34} -> /\ Len(t[2]) = left
                                     /\ \A i \in 1 .. left : LazySome(<<t[2][i]>>, x[acc[2] + i], a, b)
                  [] OTHER -> IF some THEN LazySome(t[2], x[pos], a, b) ELSE t[2] = <<>>
    IN <<acc[1] /\ good /\ SizesOK(<<t[3], t[4], t[5]>>, Len(x) - p2), p2>>
LazyOK(a, b, w, r) ==
    LET x == SetX(a, b, w)[1]
    IN /\ SizesOK(r[1], Len(x))
       /\ Fold(LAMBDA acc, t : LazyStep(x, a, b, acc, t), <<TRUE, 0>>, r[2])[1]
\* a new set from an operator on references
SOper(h, g, w, n, obs(_)) ==
    /\ h \in Live /\ g \in Live /\ n \notin Live
    /\ LET x == SetX(st[h], st[g], w)
       IN Write(n :> <<x[1], x[2]>>, obs)
    /\ \* the result may share with either operand
       LET fh == fam[h]
           fg == fam[g]
       IN /\ fam' = [x \in Handle |-> IF x = n \/ fam[x] = fg THEN fh ELSE fam[x]]
          /\ cur' = [c \in Cursor |-> IF cur[c][1] = fg THEN <<fh, cur[c][2], cur[c][3], cur[c][4]>> ELSE cur[c]]
    /\ UNCHANGED cfg

(***************************************************************************)
(* An operation on the handles hs that ended in a panic of user code.      *)
(* gone are those of hs that it consumed.  The others hold only entries    *)
(* that the operated handles held before, or that were being added, with   *)
(* values changed at most as the operation changes values (by a member of  *)
(* dl); they stay sorted.  After a panicking element clone their contents  *)
(* are open.  Elements may have leaked.                                    *)
(***************************************************************************)
Leftover(s, hs, add, dl) ==
    /\ Sorted(s)
    /\ \A i \in 1 .. Len(s) :
        \/ \E j \in 1 .. Len(add) : EOrd(add[j]) = EOrd(s[i]) /\ \E d \in dl : s[i][2] = add[j][2] + d
        \/ \E h \in hs : LET g == Get(st[h], EOrd(s[i])) IN g # <<>> /\ \E d \in dl : s[i][2] = g[1] + d
Panicked(hs, gone, add, dl, open, obs(_)) ==
    /\ hs \subseteq Live /\ gone \subseteq hs
    /\ Sem /\ ~open => Is(\A h \in hs \ gone : Leftover(obs(h), hs, add, dl))
    /\ st' = [h \in Handle |-> IF h \in gone THEN <<>> ELSE IF h \in hs THEN obs(h) ELSE st[h]]
    /\ LET fs == {fam[h] : h \in hs}
           f == CHOOSE x \in fs : TRUE
       IN /\ fam' = [h \in Handle |-> IF h \in gone THEN 0 ELSE IF fam[h] \in fs THEN f ELSE fam[h]]
          /\ cur' = [c \in Cursor |-> IF cur[c][1] \in fs THEN <<f, cur[c][2], cur[c][3], cur[c][4]>> ELSE cur[c]]
    /\ cfg' = [cfg EXCEPT !.leak = TRUE]

(***************************************************************************)
(* Stacks: contents bottom to top.                                         *)
(***************************************************************************)
Push(h, x, obs(_)) == Update(h, st[h] \o << <<x, 0>> >>, {}, obs)
Pop(h, r, obs(_)) == SPopLast(h, r, obs)
TopMut(h, d, r, obs(_)) ==
    LET n == Len(st[h])
    IN IF n = 0 THEN (Sem => r = <<>>) /\ Read(h)
       ELSE /\ Sem => r = <<st[h][n][1] + d>>
            /\ Update(h, [st[h] EXCEPT ![n][1] = @ + d], {}, obs)
SRemoveAt(h, i, r, obs(_)) ==
    /\ i < Len(st[h])
    /\ Sem => r = <<st[h][i + 1][1]>>
    /\ Update(h, Cut(st[h], i, 1, <<>>), {}, obs)
SSplitAt(h, i, n, obs(_)) ==
    /\ h \in Live /\ n \notin Live
    /\ i <= Len(st[h])
    /\ fam' = [fam EXCEPT ![n] = IF Excl(h) THEN FreshFam ELSE fam[h]]
    /\ Write(h :> Exact(SubSeq(st[h], 1, i)) @@ n :> Exact(SubSeq(st[h], i + 1, Len(st[h]))), obs)
    /\ UNCHANGED <<cur, cfg>>
StackExtend(h, l, obs(_)) == Update(h, st[h] \o [i \in 1 .. Len(l) |-> <<l[i], 0>>], {}, obs)
StackFrom(n, l, obs(_)) ==
    /\ n \notin Live
    /\ fam' = [fam EXCEPT ![n] = FreshFam]
    /\ Write(n :> Exact([i \in 1 .. Len(l) |-> <<l[i], 0>>]), obs)
    /\ UNCHANGED <<cur, cfg>>
\* top first; d is added to every element handed out, not to those skipped
StackIter(h, d, r, obs(_)) ==
    LET n == Len(st[h])
        top == [i \in 1 .. n |-> <<0, st[h][n + 1 - i][1]>>]
        f == Sess(top, "v", d, r, TRUE)
    IN (Sem => Is(f[1])) /\ Update(h, [i \in 1 .. n |-> <<f[4][n + 1 - i][2], 0>>], {}, obs)
StackInto(h, r, obs(_)) ==
    /\ Sem => Is(Sess(Rev(st[h]), "k", 0, r, TRUE)[1])
    /\ DropH(h, obs)
StackCurNew(h, c, obs(_)) ==
    /\ h \in Live /\ cur[c] = NoCur
    /\ cur' = [cur EXCEPT ![c] = <<fam[h], "k", Rev(st[h]), 0>>]
    /\ Kill(h)
    /\ Write(h :> Exact(<<>>), obs)
    /\ UNCHANGED cfg
\* stacks compare top first; Debug prints the length and then top to bottom
StackKeys(s) == [i \in 1 .. Len(s) |-> <<100 * s[Len(s) + 1 - i][1], 0>>]
StackNums(s) == <<Len(s)>> \o [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i][1]]
StackRelOK(a, b, r) ==
    /\ RelOK(StackKeys(a), StackKeys(b), r[1])
    /\ r[2] = StackNums(a) /\ r[3] = StackNums(b)
    /\ a = b => r[4] = 1
=============================================================================
