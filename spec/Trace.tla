------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded run of the real crate a behaviour of    *)
(* Collections?  One event per public call.  The model is advanced by the  *)
(* action the event names, which has to allow the observed result and the  *)
(* observed new contents; handles that the action does not address have to *)
(* keep theirs.  The A_ environment variables select the obligations that  *)
(* belong to the property under check.                                     *)
(*                                                                         *)
(* Event fields: o operation, h g n1 handles, c1 cursor, k x l ... its     *)
(* arguments, r result, d changes <<handle, pos, del, entries>>, n lengths *)
(* (-1: no such handle), c <<comparisons, key clones, value clones>>,      *)
(* v <<live keys, live values>>, bad = handles that fail their own check,    *)
(* f ledger faults, p 1 = panicked, 2 = observing a handle panicked.       *)
(***************************************************************************)
EXTENDS Collections, Json, IOUtils

VARIABLE at
tvars == <<st, fam, cur, cfg, at>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

SemDef == IOEnv.A_SEM = "1"
CurDef == IOEnv.A_CUR = "1"
ASize == IOEnv.A_SIZE = "1"
ACmp == IOEnv.A_CMP = "1"
ACheck == IOEnv.A_CHECK = "1"
AClone == IOEnv.A_CLONE = "1"
ALive == IOEnv.A_LIVE = "1"
AFault == IOEnv.A_FAULT = "1"

Patches(e, h) == {i \in DOMAIN e.d : e.d[i][1] = h}
\* the contents observed on handle h after event e
Obs(e, h) ==
    IF e.n[h] = -1 THEN <<>>
    ELSE LET S == Patches(e, h)
         IN IF S = {} THEN st[h]
            ELSE LET p == e.d[CHOOSE i \in S : TRUE] IN Cut(st[h], p[2], p[3], p[4])

ProbeOK(h, e) ==
    LET s == st[h]
        full == cfg.fm # "fx"
    IN /\ \A i \in DOMAIN e.r[1] :
            LET t == e.r[1][i]
                r == Rank(s, t[1])
                has == HasAt(s, r, t[1])
            IN /\ t[2] = IF has THEN <<s[r + 1][2]>> ELSE <<>>
               /\ t[3] = B(has)
               /\ full => t[4] = IF has THEN s[r + 1] ELSE <<>>
       /\ full => e.r[2] = FirstE(s) /\ e.r[3] = LastE(s)
       /\ e.r[4] = B(s = <<>>)
SProbeOK(h, e) ==
    LET s == st[h]
    IN /\ \A i \in DOMAIN e.r[1] :
            LET t == e.r[1][i]
                r == Rank(s, t[1])
                has == HasAt(s, r, t[1])
            IN /\ t[2] = B(has)
               /\ t[3] = IF has THEN <<s[r + 1][1]>> ELSE <<>>
       /\ e.r[2] = K1(FirstE(s)) /\ e.r[3] = K1(LastE(s))
       /\ e.r[4] = B(s = <<>>)
KProbeOK(h, e) ==
    LET s == st[h]
        r == e.r
    IN /\ r[1] = K1(LastE(s)) /\ r[2] = Len(s) /\ r[3] = B(s = <<>>)
       /\ \A i \in DOMAIN r[4] : r[4][i][2] = B(\E j \in DOMAIN s : s[j][1] = r[4][i][1])

RelEv(e) ==
    LET a == st[e.h]
        b == st[e.g]
        r == e.r
    IN /\ RelOK(a, b, r[1])
       /\ r[2] = Flat(a, cfg.ty) /\ r[4] = Flat(a, cfg.ty)
       /\ r[3] = Flat(b, cfg.ty) /\ r[5] = Flat(b, cfg.ty)
       /\ Flat(a, cfg.ty) = Flat(b, cfg.ty) => r[6] = 1 /\ r[7] = 1

PanicOK(e) == e.p = 1

obs(h) == Obs(Trace[at], h)

Ev(e) ==
    CASE e.o = "reset"    -> Reset(e.ty, e.kd, e.fm, e.N)
      [] e.o = "end"      -> Live = {} /\ UNCHANGED vars
      [] e.o = "new"      -> New(e.n1, obs)
      [] e.o = "clone"    -> Clone(e.h, e.n1, obs)
      [] e.o = "assign"   -> Assign(e.h, e.g, obs)
      [] e.o = "drop"     -> DropH(e.h, obs)
      [] e.o = "insert"   -> Insert(e.h, e.k, e.x, e.r, obs)
      [] e.o = "remove"   -> Remove(e.h, e.k, e.r, obs)
      [] e.o = "removee"  -> RemoveEntry(e.h, e.k, e.r, obs)
      [] e.o = "popf"     -> PopFirst(e.h, e.r, obs)
      [] e.o = "popl"     -> PopLast(e.h, e.r, obs)
      [] e.o = "clear"    -> Clear(e.h, obs)
      [] e.o = "getmut"   -> GetMut(e.h, e.k, e.x, e.r, obs)
      [] e.o = "index"    -> (Sem => Is(IF Has(st[e.h], e.k) THEN e.p = 0 /\ e.r = Get(st[e.h], e.k) ELSE e.p = 1)) /\ Read(e.h)
      [] e.o = "probe"    -> (Sem => Is(ProbeOK(e.h, e))) /\ Read(e.h)
      [] e.o = "seq"      -> PointOps(e.h, e.r, obs)
      [] e.o = "append"   -> AppendAll(e.h, e.g, obs)
      [] e.o = "extend"   -> Extend(e.h, e.l, obs)
      [] e.o = "from"     -> From(e.n1, e.l, obs)
      [] e.o = "splitoff" -> SplitOff(e.h, e.k, e.n1, obs)
      [] e.o = "retain"   -> Retain(e.h, e.a, e.m, e.t, e.x, e.r, obs)
      [] e.o = "retaink"  -> RetainKeys(e.h, e.l, e.x, e.r, obs)
      [] e.o = "merge"    -> Merge(e.h, e.g, e.w, obs)
      [] e.o = "join"     -> Join(e.h, e.k, e.x, e.g, obs)
      [] e.o = "it"       -> Iterate(e.h, e.pj, e.x, e.r, ASize, obs)
      [] e.o = "into"     -> IntoSession(e.h, e.pj, e.r, ASize, obs)
      [] e.o = "intovec"  -> (Sem => e.r = st[e.h]) /\ DropH(e.h, obs)
      [] e.o = "cnew"     -> CurNew(e.h, e.c1, e.pj, obs)
      [] e.o = "cstep"    -> CurStep(e.c1, e.r, ASize)
      [] e.o = "cdrop"    -> CurDrop(e.c1)
      [] e.o = "range"    -> IF e.p = 1 THEN RangePanic(e.h, e.b)
                             ELSE /\ Sem => ~(cfg.fm = "bt" /\ Inverted(e.b))
                                  /\ RangeIter(e.h, e.b, e.pj, e.x, e.r, obs)
      [] e.o = "foreach"  -> ForEach(e.h, e.x, e.r, obs)
      [] e.o = "entry"    -> EntryOp(e.h, e.k, e.e, e.r, obs)
      [] e.o = "eentry"   -> EndEntry(e.h, e.w = 1, e.e, e.r, obs)
      [] e.o = "rel"      -> (Sem => Is(RelEv(e))) /\ Read(e.h)
      [] e.o = "ser"      -> (Sem => Is(SerOK(st[e.h], e.r))) /\ Read(e.h)
      [] e.o = "de"       -> Deser(e.n1, e.l, e.er, e.r[1], obs)
      [] e.o = "sinsert"  -> SInsert(e.h, e.k, e.r, obs)
      [] e.o = "sreplace" -> SReplace(e.h, e.k, e.r, obs)
      [] e.o = "sremove"  -> SRemove(e.h, e.k, e.r, obs)
      [] e.o = "stake"    -> STake(e.h, e.k, e.r, obs)
      [] e.o = "spopf"    -> SPopFirst(e.h, e.r, obs)
      [] e.o = "spopl"    -> SPopLast(e.h, e.r, obs)
      [] e.o = "sprobe"   -> (Sem => Is(SProbeOK(e.h, e))) /\ Read(e.h)
      [] e.o = "sseq"     -> SPointOps(e.h, e.r, obs)
      [] e.o = "soper"    -> SOper(e.h, e.g, e.w, e.n1, obs)
      [] e.o = "slazy"    -> (Sem => Is(LazyOK(st[e.h], st[e.g], e.w, e.r))) /\ Read(e.h)
      [] e.o = "srelns"   -> (Sem => e.r = << B(SubsetOK(st[e.h], st[e.g])), B(SubsetOK(st[e.g], st[e.h])),
                                              B(Both(st[e.h], st[e.g]) = <<>>) >>) /\ Read(e.h)
      [] e.o = "kpush"    -> Push(e.h, e.k, obs)
      [] e.o = "kpop"     -> Pop(e.h, e.r, obs)
      [] e.o = "ktopm"    -> TopMut(e.h, e.x, e.r, obs)
      [] e.o = "kprobe"   -> (Sem => Is(KProbeOK(e.h, e))) /\ Read(e.h)
      [] e.o = "kremove"  -> IF e.p = 1 THEN (Sem => e.i >= Len(st[e.h])) /\ Read(e.h)
                             ELSE SRemoveAt(e.h, e.i, e.r, obs)
      [] e.o = "ksplit"   -> IF e.p = 1 THEN (Sem => e.i > Len(st[e.h])) /\ Read(e.h)
                             ELSE SSplitAt(e.h, e.i, e.n1, obs)
      [] e.o = "kextend"  -> StackExtend(e.h, e.l, obs)
      [] e.o = "kfrom"    -> StackFrom(e.n1, e.l, obs)
      [] e.o = "kit"      -> StackIter(e.h, e.x, e.r, obs)
      [] e.o = "kinto"    -> StackInto(e.h, e.r, obs)
      [] e.o = "kcnew"    -> StackCurNew(e.h, e.c1, obs)
      [] e.o = "krel"     -> (Sem => Is(StackRelOK(st[e.h], st[e.g], e.r))) /\ Read(e.h)
      [] e.o = "panic"    -> Panicked({e.hs[i] : i \in DOMAIN e.hs}, {e.hs[i] : i \in {j \in DOMAIN e.hs : e.n[e.hs[j]] = -1}},
                                      e.add, {e.dl[i] : i \in DOMAIN e.dl}, e.kc \in {2, 3}, obs)
      [] OTHER -> FALSE

MayPanic == {"index", "range", "kremove", "ksplit", "panic"}
Reads == {"probe", "sprobe", "kprobe", "index", "rel", "krel", "ser", "srelns", "slazy", "clone", "assign", "drop", "cdrop", "end"}
PointUpd == {"insert", "remove", "removee", "popf", "popl", "getmut", "entry", "eentry",
             "sinsert", "sreplace", "sremove", "stake", "spopf", "spopl"}

(***************************************************************************)
(* Comparisons.                                                            *)
(***************************************************************************)
NoCompare == {"it", "into", "intovec", "cnew", "cstep", "cdrop", "foreach", "clone", "assign", "drop", "new", "clear", "ser"}
CmpOK(e) ==
    CASE e.o \in PointUpd \cup {"index"} -> e.c[1] <= UpdateBound(Len(st[e.h]))
      [] e.o = "probe"  -> \A i \in DOMAIN e.r[1] : e.r[1][i][5] <= LookupBound(Len(st[e.h]))
      [] e.o = "sprobe" -> \A i \in DOMAIN e.r[1] : e.r[1][i][4] <= LookupBound(Len(st[e.h]))
      [] e.o = "seq"    -> LET m == Len(st[e.h]) + Len(e.r)
                           IN \A i \in DOMAIN e.r : e.r[i][5] <= IF e.r[i][1] = 2 THEN LookupBound(m) ELSE UpdateBound(m)
      [] e.o = "sseq"   -> LET m == Len(st[e.h]) + Len(e.r)
                           IN \A i \in DOMAIN e.r : e.r[i][4] <= IF e.r[i][1] = 2 THEN LookupBound(m) ELSE UpdateBound(m)
      [] e.o \in NoCompare -> e.c[1] = 0
      \* two bounds are looked for; what lies between them is not compared
      [] e.o = "range" -> e.c[1] <= 2 * UpdateBound(Len(st[e.h]))
      [] e.o = "splitoff" -> e.c[1] <= IF cfg.fm = "avl" THEN 2 * UpdateBound(Len(st[e.h]))
                                       ELSE (1 + Len(st[e.h])) * UpdateBound(Len(st[e.h]))
      [] e.o \in {"retain", "retaink"} -> e.c[1] <= (1 + Len(st[e.h])) * UpdateBound(Len(st[e.h]))
      [] e.o \in {"append", "merge", "soper", "slazy", "srelns", "join"} ->
            LET m == Len(st[e.h]) + Len(st[e.g]) IN e.c[1] <= (1 + m) * UpdateBound(m)
      [] e.o \in {"extend", "from", "de"} /\ e.p = 0 ->
            LET m == Len(e.l) + IF e.o = "extend" THEN Len(st[e.h]) ELSE 0 IN e.c[1] <= (1 + m) * UpdateBound(m)
      [] OTHER -> TRUE

(***************************************************************************)
(* Clones of elements.                                                     *)
(***************************************************************************)
MaxC(e) == Max2(e.c[2], e.c[3])
ExclCur(c) == /\ \A h \in Handle : fam[h] # cur[c][1]
              /\ \A d \in Cursor \ {c} : cur[d][1] # cur[c][1]
CloneOK(e) ==
    CASE e.o \in Reads -> MaxC(e) = 0
      [] e.o \in {"it", "range", "foreach", "kit"} /\ e.x = 0 /\ (e.o \in {"it", "kit"} \/ e.mt = 0) -> MaxC(e) = 0
      [] e.o = "kpush" \/ e.o = "kextend" \/ e.o = "kfrom" \/ e.o = "from" \/ e.o = "new" \/ e.o = "de" -> MaxC(e) = 0
      [] e.o = "extend" -> IF Excl(e.h) THEN MaxC(e) <= IF e.rf = 1 THEN Len(e.l) ELSE 0
                           ELSE MaxC(e) <= Len(e.l) * (1 + CloneBound(Len(st[e.h]) + Len(e.l)))
      \* a union may go through entry(), which copies the key it is given
      [] e.o \in {"append", "merge", "join"} -> Excl(e.h) /\ Excl(e.g) =>
            /\ e.c[3] = 0
            /\ e.c[2] <= IF e.o = "merge" /\ e.w = 0 THEN Min2(Len(st[e.h]), Len(st[e.g])) ELSE 0
      [] e.o = "cstep" -> ExclCur(e.c1) /\ cur[e.c1][4] = 0 => MaxC(e) = 0
      [] e.o \in {"entry", "eentry"} -> /\ e.c[3] <= IF Excl(e.h) THEN 0 ELSE CloneBound(Len(st[e.h]))
                                        /\ e.c[2] <= 1 + IF Excl(e.h) THEN 0 ELSE CloneBound(Len(st[e.h]))
      [] e.o \in PointUpd -> MaxC(e) <= IF Excl(e.h) THEN 0 ELSE CloneBound(Len(st[e.h]))
      [] e.o \in {"kpop", "ktopm"} -> MaxC(e) <= IF Excl(e.h) THEN 0 ELSE 1
      [] e.o \in {"kremove", "ksplit"} -> MaxC(e) <= IF Excl(e.h) \/ e.p = 1 THEN 0 ELSE Len(st[e.h]) - e.i
      [] e.o \in {"seq", "sseq"} -> MaxC(e) <= IF Excl(e.h) THEN 0 ELSE Len(e.r) * CloneBound(Len(st[e.h]) + Len(e.r))
      \* a retain that rebuilds the tree copies what it keeps and every value it tests
      [] e.o \in {"retain", "retaink"} -> IF Excl(e.h) /\ cfg.fm # "avl" THEN MaxC(e) = 0 ELSE MaxC(e) <= Len(st[e.h]) * (1 + PerLevel)
      [] e.o \in {"clear", "splitoff", "it", "into", "intovec", "cnew", "range", "foreach", "kit", "kinto", "kcnew"} ->
            Excl(e.h) => MaxC(e) = 0
      [] OTHER -> TRUE

\* live instances never exceed what the handles hold; exactly that if nothing is shared
AllExcl == /\ \A h \in Handle : fam[h] # 0 => Excl(h)
           /\ \A c \in Cursor : cur[c] # NoCur => ExclCur(c)
\* a cursor over values (keys) may have released the keys (values) already
NoPj(p) == \A c \in Cursor : cur[c][2] # p
Held == Sum([c \in Cursor |-> cur[c][4]])
LiveOK(e) ==
    LET t == TotalLen(st, cur)
        k == IF cfg.ty = "stack" THEN e.v[2] ELSE e.v[1]
    IN /\ k <= t + Held
       /\ cfg.ty = "map" => e.v[2] <= t + Held
       /\ AllExcl /\ Held = 0 =>
            /\ NoPj("v") => k = t
            /\ cfg.ty = "map" /\ NoPj("k") => e.v[2] = t

\* a panicking element clone leaves the operated handles open
Open(e) == e.o = "panic" /\ e.kc \in {2, 3}
Frame(e) == \* every change is accounted for, and the lengths agree
    /\ \A i \in DOMAIN e.d : st'[e.d[i][1]] = Obs(e, e.d[i][1])
    /\ \A h \in Handle : \/ Open(e) /\ fam'[h] # 0 /\ \E i \in DOMAIN e.hs : e.hs[i] = h
                         \/ e.n[h] = IF fam'[h] = 0 THEN -1 ELSE Len(st'[h])

Step(e) ==
    /\ Ev(e)
    /\ e.o # "reset" =>
        /\ Is(e.p = 0 \/ (e.p = 1 /\ e.o \in MayPanic))
        /\ Is(Frame(e))
        /\ AFault => e.f = 0
        /\ ACheck => e.bad <= IF Open(e) THEN Len(e.hs) ELSE 0
        /\ ACmp => Is(CmpOK(e))
        /\ AClone => Is(CloneOK(e))
        /\ ALive => Is(LiveOK(e)')
        /\ e.o = "end" /\ AFault /\ ~cfg.leak => e.v = <<0, 0>>

Init == CollInit /\ at = 1
Next == /\ at <= N
        /\ \E e \in {Trace[at]} : Step(e)
        /\ at' = at + 1

\* the trace is accepted iff every event could be matched
Matched == TLCGet("stats").diameter - 1
Post == PrintT(<<"MATCHED", Matched, N>>)
=============================================================================
