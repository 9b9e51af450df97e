------------------------------ MODULE DeepTrace ------------------------------
(* Recorded histories of deep stacks against Deep.                          *)
EXTENDS Deep, Json, IOUtils
VARIABLE at
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Is(b) == b = TRUE
Ev(e) ==
    CASE e.o = "reset"  -> ds' = [x \in Holder |-> <<>>] /\ dl' = [x \in Holder |-> FALSE] /\ df' = [x \in Holder |-> 0]
      [] e.o = "from"   -> DFrom(e.n1, e.a, e.k)
      [] e.o = "clone"  -> DClone(e.h, e.n1)
      [] e.o = "drop"   -> DDrop(e.h)
      [] e.o = "clear"  -> DClear(e.h)
      [] e.o = "extend" -> DExtend(e.h, e.a, e.k)
      [] e.o = "pop"    -> DPop(e.h, e.k, e.r)
      [] e.o = "remove" -> DRemove(e.h, e.i, e.r)
      [] e.o = "split"  -> DSplit(e.h, e.i, e.n1)
      [] e.o = "iter"   -> DIter(e.h, e.k, e.r)
      [] e.o = "into"   -> DInto(e.h, e.k, e.r)
      [] e.o = "copen"  -> DOpenCur(e.h)
      [] e.o = "cstep"  -> DStepCur(e.k, e.r)
      [] e.o = "cdrop"  -> DDrop(Cur)
      [] e.o = "end"    -> (\A x \in Holder : ~dl[x]) /\ UNCHANGED dvars
      [] OTHER -> FALSE
\* s: <<length, runs>> of every live handle, <<>> otherwise
Obs(e) == \A h \in Handle :
    e.s[h] = IF dl'[h] THEN <<Size(ds'[h]), ds'[h]>> ELSE <<>>
Step(e) == /\ Ev(e)
           /\ e.p = 0 /\ e.f = 0
           /\ e.o # "reset" => Is(Obs(e)) /\ Is(ReleasedOK(e.v)') /\ (e.o = "end" => e.v = 0)
Init == DInit /\ at = 1
Next == at <= N /\ (\E e \in {Trace[at]} : Step(e)) /\ at' = at + 1
Matched == TLCGet("stats").diameter - 1
Post == PrintT(<<"MATCHED", Matched, N>>)
=============================================================================
