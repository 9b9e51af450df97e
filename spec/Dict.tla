-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* The abstract value of an ordered map or set: a sequence of entries      *)
(* <<kk, v>>, strictly increasing in the order of the key.  A key kk is an *)
(* integer 100*ord + tag: `ord` orders it, `tag` tells apart keys that     *)
(* compare equal.  Sets have v = 0.  All operators are pure.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

\* a left fold; no recursion, since TLC's name lookup slows down with depth
Fold(op(_, _), base, s) == FoldLeft(op, base, s)

Ord(kk) == kk \div 100
EOrd(e) == e[1] \div 100

Sorted(s) == \A i \in 1 .. Len(s) - 1 : EOrd(s[i]) < EOrd(s[i+1])

\* Number of entries whose key lies strictly below ord x (binary search).
RECURSIVE RankB(_, _, _, _)
RankB(s, x, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN IF EOrd(s[mid + 1]) < x THEN RankB(s, x, mid + 1, hi)
                                    ELSE RankB(s, x, lo, mid)
Rank(s, x) == RankB(s, x, 0, Len(s))

HasAt(s, r, x) == r < Len(s) /\ EOrd(s[r + 1]) = x
Has(s, x) == HasAt(s, Rank(s, x), x)

\* Replace `del` entries after the first `pos` ones by `ins`.
Cut(s, pos, del, ins) == SubSeq(s, 1, pos) \o ins \o SubSeq(s, pos + del + 1, Len(s))

\* Optional results are sequences of length 0 or 1 (values) or 0 or 2 (entries).
Get(s, x) == LET r == Rank(s, x) IN IF HasAt(s, r, x) THEN <<s[r + 1][2]>> ELSE <<>>
GetEntry(s, x) == LET r == Rank(s, x) IN IF HasAt(s, r, x) THEN s[r + 1] ELSE <<>>
GetKey(s, x) == LET r == Rank(s, x) IN IF HasAt(s, r, x) THEN <<s[r + 1][1]>> ELSE <<>>
FirstE(s) == IF s = <<>> THEN <<>> ELSE s[1]
LastE(s) == IF s = <<>> THEN <<>> ELSE s[Len(s)]

\* After Put the entry holds the new key and value; whether an overwriting
\* insert keeps the old key is left open by the users of this operator.
Put(s, kk, v) == LET x == Ord(kk)
                     r == Rank(s, x)
                 IN Cut(s, r, IF HasAt(s, r, x) THEN 1 ELSE 0, << <<kk, v>> >>)
Del(s, x) == LET r == Rank(s, x) IN IF HasAt(s, r, x) THEN Cut(s, r, 1, <<>>) ELSE s
SetVal(s, x, v) == LET r == Rank(s, x) IN IF HasAt(s, r, x) THEN [s EXCEPT ![r + 1][2] = v] ELSE s

PutAll(s, l) == Fold(LAMBDA x, e : Put(x, e[1], e[2]), s, l)

\* Keys that may be stored after a bulk insertion: any of the equal ones.
Pool(s, l) == {s[i][1] : i \in 1 .. Len(s)} \cup {l[i][1] : i \in 1 .. Len(l)}

\* Observed contents o agree with expected x, where o may store, for an entry,
\* another key of `pool` that compares equal.
MatchE(a, b, pool) == /\ a[2] = b[2]
                      /\ a[1] = b[1] \/ (EOrd(a) = EOrd(b) /\ a[1] \in pool)
Match(o, x, pool) == \/ o = x
                     \/ /\ pool # {}
                        /\ Len(o) = Len(x)
                        /\ \A i \in 1 .. Len(o) : MatchE(o[i], x[i], pool)

Below(s, x) == SubSeq(s, 1, Rank(s, x))
AtLeast(s, x) == SubSeq(s, Rank(s, x) + 1, Len(s))

ByOrd(a, b) == EOrd(a) < EOrd(b)
Only(a, b) == SelectSeq(a, LAMBDA e : ~Has(b, EOrd(e)))
Both(a, b) == SelectSeq(a, LAMBDA e : Has(b, EOrd(e)))
Union(a, b) == IF b = <<>> THEN a ELSE IF a = <<>> THEN b
               ELSE IF EOrd(a[Len(a)]) < EOrd(b[1]) THEN a \o b
               ELSE SortSeq(Only(a, b) \o b, ByOrd)            \* b's values win
SymDiffE(a, b) == SortSeq(Only(a, b) \o Only(b, a), ByOrd)

\* Bounds <<lt, lo, ht, hi>>: 0 unbounded, 1 included, 2 excluded.
RLo(s, b) == CASE b[1] = 0 -> 0 [] b[1] = 1 -> Rank(s, b[2]) [] OTHER -> Rank(s, b[2] + 1)
RHi(s, b) == CASE b[3] = 0 -> Len(s) [] b[3] = 1 -> Rank(s, b[4] + 1) [] OTHER -> Rank(s, b[4])
Inverted(b) == b[1] # 0 /\ b[3] # 0 /\ b[4] < b[2]
ExEx(b) == b[1] = 2 /\ b[3] = 2 /\ b[2] = b[4]

Keep(e, a, m, t) == (EOrd(e) * a + e[2]) % m < t
RetainSeq(s, a, m, t, d) ==
    LET r == SelectSeq(s, LAMBDA e : Keep(e, a, m, t))
    IN IF d = 0 THEN r ELSE [i \in 1 .. Len(r) |-> <<r[i][1], r[i][2] + d>>]
AddAll(s, d) == [i \in 1 .. Len(s) |-> <<s[i][1], s[i][2] + d>>]


Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

\* Lexicographic order of entry sequences: -1, 0, 1 (tags do not count).
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpKV(x, y) == LET c == CmpInt(EOrd(x), EOrd(y)) IN IF c # 0 THEN c ELSE CmpInt(x[2], y[2])
Lex(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        c == Fold(LAMBDA acc, i : IF acc # 0 THEN acc ELSE CmpKV(a[i], b[i]), 0, [i \in 1 .. n |-> i])
    IN IF c # 0 THEN c ELSE CmpInt(Len(a), Len(b))
SameKV(a, b) == /\ Len(a) = Len(b)
                /\ \A i \in 1 .. Len(a) : EOrd(a[i]) = EOrd(b[i]) /\ a[i][2] = b[i][2]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
IsInj(l) == \A i, j \in 1 .. Len(l) : i # j => l[i] # l[j]

(***************************************************************************)
(* A run of a double-ended iterator over the entries E.  Steps are         *)
(* <<code, item, len, lo, hi>>; codes                                      *)
(*   0 next, 1 next_back, 10+j nth(j), 20+j nth_back(j),                   *)
(*   40+j, 50+j the j-th by find, rfind;                                   *)
(*   and for the rest as a whole 30 count, 31 last, 32 for_each, 33 rfold, *)
(*   34 collect.                                                           *)
(* a, b count what is consumed at the front and back.   d is added to      *)
(* every yielded value (mutable iterators).  Result: <<ok, a, b, E'>>.     *)
(***************************************************************************)
Item(e, pj) == CASE pj = "kv" -> e [] pj = "k" -> <<e[1]>> [] OTHER -> <<e[2]>>
Items(s, pj) == Fold(LAMBDA acc, e : acc \o Item(e, pj), <<>>, s)
SizesOK(t, rem) == \* t = <<len, lo, hi>>
    /\ t[1] # -1 => t[1] = rem /\ t[2] = rem /\ t[3] = rem
    /\ t[2] <= rem
    /\ t[3] # -1 => t[3] >= rem
SizesOKRaw(t, rem) == t[1] # -1 => t[1] = rem

IsBack(c) == c = 1 \/ c \in 20 .. 29 \/ c >= 50
Skip(c) == CASE c \in {0, 1} -> 0 [] c >= 50 -> c - 50 [] c >= 40 -> c - 40 [] c >= 20 -> c - 20 [] OTHER -> c - 10
IsWhole(c) == c \in 30 .. 39
Bump(e, d) == IF d = 0 THEN e ELSE <<e[1], e[2] + d>>
\* g lists the runs of entries skipped: <<first, last>>
SessWhole(E, pj, d, sz, acc, t) ==
    LET a == acc[2]
        n == Len(E)
        hi == n - acc[3]
        rest == [i \in 1 .. hi - a |-> Bump(E[a + i], d)]
        want == CASE t[1] = 30 -> <<hi - a>>
                  [] t[1] = 31 -> IF a = hi THEN <<>> ELSE Item(rest[hi - a], pj)
                  [] t[1] = 33 -> Items(Rev(rest), pj)
                  [] OTHER -> Items(rest, pj)
        gap == CASE t[1] = 30 -> <<a + 1, hi>> [] t[1] = 31 -> <<a + 1, hi - 1>> [] OTHER -> <<1, 0>>
        ok == t[2] = want /\ (sz => SizesOK(<<t[3], t[4], t[5]>>, 0))
    IN <<ok, hi, acc[3], IF gap[1] > gap[2] THEN acc[4] ELSE Append(acc[4], gap)>>
SessStep(E, pj, d, sz, acc, t) ==
    IF ~acc[1] THEN acc
    ELSE IF IsWhole(t[1]) THEN SessWhole(E, pj, d, sz, acc, t)
    ELSE
    LET a == acc[2]
        b == acc[3]
        g == acc[4]
        n == Len(E)
        skip == Skip(t[1])
        back == IsBack(t[1])
        some == a + b + skip < n
        pos == IF back THEN n - b - skip ELSE a + skip + 1
        a2 == IF back THEN a ELSE IF some THEN a + skip + 1 ELSE n - b
        b2 == IF ~back THEN b ELSE IF some THEN b + skip + 1 ELSE n - a
        gap == IF some THEN IF back THEN <<pos + 1, n - b>> ELSE <<a + 1, pos - 1>>
               ELSE <<a + 1, n - b>>
        ok == /\ t[2] = (IF some THEN Item(Bump(E[pos], d), pj) ELSE <<>>)
              /\ sz => SizesOK(<<t[3], t[4], t[5]>>, n - a2 - b2)
    IN <<ok, a2, b2, IF gap[1] > gap[2] THEN g ELSE Append(g, gap)>>
Touched(i, n, a, b, g) == /\ i <= a \/ i > n - b
                          /\ \A j \in 1 .. Len(g) : i < g[j][1] \/ i > g[j][2]
Sess(E, pj, d, r, sz) ==
    IF sz /\ ~SizesOK(r[1], Len(E)) THEN <<FALSE, 0, 0, E>>
    ELSE LET f == Fold(LAMBDA acc, t : SessStep(E, pj, d, sz, acc, t), <<TRUE, 0, 0, <<>> >>, r[2])
         IN IF d = 0 THEN <<f[1], f[2], f[3], E>>
            ELSE <<f[1], f[2], f[3],
                   [i \in 1 .. Len(E) |-> IF Touched(i, Len(E), f[2], f[3], f[4]) THEN <<E[i][1], E[i][2] + d>> ELSE E[i]]>>

(***************************************************************************)
(* Worst-case heights of balanced trees, for the cost bounds.              *)
(***************************************************************************)
RECURSIVE AvlH(_, _, _, _)
AvlH(n, h, m1, m0) == \* m1 = fewest nodes at height h, m0 at height h-1
    IF 1 + m1 + m0 > n THEN h ELSE AvlH(n, h + 1, 1 + m1 + m0, m1)
AvlHeight(n) == IF n = 0 THEN 0 ELSE AvlH(n, 1, 1, 0)
RECURSIVE BtH(_, _, _, _)
BtH(n, h, m, N) == \* m = fewest entries below a child of the root at height h+1
    IF 1 + 2 * m > n THEN h ELSE BtH(n, h + 1, m * (N + 1) + N, N)
BtHeight(n, N) == IF n = 0 THEN 0 ELSE BtH(n, 1, N, N)
Height(fm, N, n) == IF fm = "avl" THEN AvlHeight(n) ELSE BtHeight(n, N)
=============================================================================
