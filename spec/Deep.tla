-------------------------------- MODULE Deep --------------------------------
(***************************************************************************)
(* Stacks of any depth.  Contents are lists of runs <<first, length>> of   *)
(* consecutive numbers, bottom to top, in canonical form (adjacent runs    *)
(* that continue each other are one run), so that a stack of a million     *)
(* elements is a small value and every operation is a small step.          *)
(*                                                                         *)
(*   ds[h]  contents of handle h            dl[h]  is h live?               *)
(*   dc     remaining contents of an open consuming iterator, top first,    *)
(*          kept bottom to top;  do  is it open?                            *)
(*   df[h]  sharing family of h (NH+1: the iterator)                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT NH
VARIABLES ds, dl, df
dvars == <<ds, dl, df>>
Handle == 1 .. NH
Cur == NH + 1              \* the consuming iterator is one more holder
Holder == 1 .. NH + 1

Last1(s) == s[Len(s)]
\* append one run, keeping the form canonical
AddRun(s, r) ==
    IF r[2] = 0 THEN s
    ELSE IF s # <<>> /\ Last1(s)[1] + Last1(s)[2] = r[1]
         THEN [s EXCEPT ![Len(s)] = <<@[1], @[2] + r[2]>>]
         ELSE Append(s, r)
RECURSIVE Cat(_, _)
Cat(s, t) == IF t = <<>> THEN s ELSE Cat(AddRun(s, Head(t)), Tail(t))
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + Size(Tail(s))
RECURSIVE TakeR(_, _), DropR(_, _), TopR(_)
\* the lowest i elements, and all but those
TakeR(s, i) == IF i <= 0 \/ s = <<>> THEN <<>>
               ELSE IF Head(s)[2] <= i THEN <<Head(s)>> \o TakeR(Tail(s), i - Head(s)[2])
               ELSE << <<Head(s)[1], i>> >>
DropR(s, i) == IF i <= 0 \/ s = <<>> THEN s
               ELSE IF Head(s)[2] <= i THEN DropR(Tail(s), i - Head(s)[2])
               ELSE << <<Head(s)[1] + i, Head(s)[2] - i>> >> \o Tail(s)
TopR(s) == DropR(s, Size(s) - 1)[1][1]
RemoveR(s, i) == Cat(TakeR(s, i), DropR(s, i + 1))
\* the k topmost elements, as yielded (top first), reversed back to runs
Upper(s, k) == IF k >= Size(s) THEN s ELSE DropR(s, Size(s) - k)
Rest(s, k) == TakeR(s, Size(s) - k)

Free == 0
Fresh == CHOOSE f \in 1 .. NH + 2 : \A x \in Holder : df[x] # f
Excl(x) == \A y \in Holder \ {x} : df[y] # df[x]

DInit == /\ ds = [x \in Holder |-> <<>>]
         /\ dl = [x \in Holder |-> FALSE]
         /\ df = [x \in Holder |-> 0]
Open(x, s, f) == /\ ds' = [ds EXCEPT ![x] = s] /\ dl' = [dl EXCEPT ![x] = TRUE] /\ df' = [df EXCEPT ![x] = f]
Close(x) == /\ ds' = [ds EXCEPT ![x] = <<>>] /\ dl' = [dl EXCEPT ![x] = FALSE] /\ df' = [df EXCEPT ![x] = 0]
Set(h, s) == ds' = [ds EXCEPT ![h] = s] /\ UNCHANGED <<dl, df>>

DFrom(n, a, len) == ~dl[n] /\ Open(n, IF len = 0 THEN <<>> ELSE << <<a, len>> >>, Fresh)
DClone(h, n) == dl[h] /\ ~dl[n] /\ Open(n, ds[h], df[h])
DDrop(x) == dl[x] /\ Close(x)
DClear(h) == dl[h] /\ Set(h, <<>>)
DExtend(h, a, len) == dl[h] /\ Set(h, Cat(ds[h], << <<a, len>> >>))
\* pop k times; r: what was popped, as runs bottom to top
DPop(h, k, r) == dl[h] /\ r = Upper(ds[h], k) /\ Set(h, Rest(ds[h], k))
DRemove(h, i, r) == dl[h] /\ i < Size(ds[h]) /\ r = DropR(ds[h], i)[1][1] /\ Set(h, RemoveR(ds[h], i))
DSplit(h, i, n) ==
    /\ dl[h] /\ ~dl[n] /\ i <= Size(ds[h])
    /\ ds' = [ds EXCEPT ![h] = TakeR(ds[h], i), ![n] = DropR(ds[h], i)]
    /\ dl' = [dl EXCEPT ![n] = TRUE]
    /\ df' = [df EXCEPT ![n] = IF Excl(h) THEN Fresh ELSE df[h]]
\* look at (or, unshared, write to) the k topmost elements and stop
DIter(h, k, r) == dl[h] /\ r = Upper(ds[h], k) /\ UNCHANGED dvars
\* consume h: a consuming iterator that yields k elements and is abandoned
DInto(h, k, r) == dl[h] /\ r = Upper(ds[h], k) /\ Close(h)
DOpenCur(h) ==
    /\ dl[h] /\ ~dl[Cur]
    /\ ds' = [ds EXCEPT ![Cur] = ds[h], ![h] = <<>>]
    /\ dl' = [dl EXCEPT ![Cur] = TRUE, ![h] = FALSE]
    /\ df' = [df EXCEPT ![Cur] = df[h], ![h] = 0]
DStepCur(k, r) == dl[Cur] /\ r = Upper(ds[Cur], k) /\ Set(Cur, Rest(ds[Cur], k))

Total == LET RECURSIVE S(_) S(x) == IF x = 0 THEN 0 ELSE Size(ds[x]) + S(x - 1) IN S(NH + 1)
MaxSize == CHOOSE m \in {Size(ds[x]) : x \in Holder} : \A x \in Holder : Size(ds[x]) <= m
AllExcl == \A x \in Holder : dl[x] => Excl(x)
\* instances alive: never more than the holders list, exactly that if nothing is shared
ReleasedOK(live) == live <= Total /\ live >= MaxSize /\ (AllExcl => live = Total)
=============================================================================
