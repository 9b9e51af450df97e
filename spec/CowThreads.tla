----------------------------- MODULE CowThreads -----------------------------
(***************************************************************************)
(* Several threads, each with a handle on the same reference-counted tree. *)
(* CowHeap takes a copy-on-write step as one action; here it is taken      *)
(* apart into what the library and std::sync::Arc really do one after the  *)
(* other: a count is read or changed, an element is compared, cloned or    *)
(* dropped, a reference is taken over.  Other threads may run in between.  *)
(*                                                                         *)
(* Every thread runs one program of Progs and then drops its handle:       *)
(*   <<"getmut", k>>  make the path to k its own, change the value there   *)
(*   <<"insert", k>>  the same, replacing the entry of k                   *)
(*   <<"get", k>>     look k up                                            *)
(*   <<"drop", 0>>    drop the handle                                      *)
(*   <<"into", m>>    consume the handle, take m entries, drop the rest    *)
(*                                                                         *)
(* A thread is a stack of tasks; a step does the first one.                *)
(* Fine: threads interleave at every step (the protocol is checked).       *)
(* Otherwise they interleave at the points where the driver can switch     *)
(* between threads, i.e. before every comparison, clone and drop of an     *)
(* element, and every schedule is emitted with the copies it must cause.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS Tree,   \* name of the initial tree
          Progs,  \* programs to choose from, as "getmut3"
          NT,     \* number of threads
          Keep,   \* TRUE: one more handle stays alive, and is cloned in the threads
          Fine, Emit

T == 1 .. NT
Prog(w) == CHOOSE p \in {"getmut", "insert", "get", "drop", "into"} \X (0 .. 9) : p[1] \o ToString(p[2]) = w
N(el, kids) == [el |-> el, kids |-> kids, rc |-> 1]
E(k) == <<k, 0>>
\* inner nodes before their kids; ids are positions
Shape == CASE Tree = "a1" -> <<N(<<E(1)>>, <<0, 0>>)>>
           [] Tree = "a2" -> <<N(<<E(1)>>, <<0, 2>>), N(<<E(2)>>, <<0, 0>>)>>
           [] Tree = "a3" -> <<N(<<E(2)>>, <<2, 3>>), N(<<E(1)>>, <<0, 0>>), N(<<E(3)>>, <<0, 0>>)>>
           [] Tree = "a4" -> <<N(<<E(2)>>, <<2, 3>>), N(<<E(1)>>, <<0, 0>>), N(<<E(3)>>, <<0, 4>>), N(<<E(4)>>, <<0, 0>>)>>
           [] Tree = "b2" -> <<N(<<E(1), E(2)>>, <<>>)>>
           [] Tree = "b3" -> <<N(<<E(1), E(2), E(3)>>, <<>>)>>
           [] Tree = "b4" -> <<N(<<E(2)>>, <<2, 3>>), N(<<E(1)>>, <<>>), N(<<E(3), E(4)>>, <<>>)>>
           [] Tree = "b6" -> <<N(<<E(2), E(4)>>, <<2, 3, 4>>), N(<<E(1)>>, <<>>), N(<<E(3)>>, <<>>), N(<<E(5), E(6)>>, <<>>)>>
Looks == IF Tree \in {"b2", "b3", "b4", "b6"} THEN 3 ELSE 1 \* how often the driver looks a key up

VARIABLES S,     \* the state below
          turn,  \* the thread that runs (0: any), in coarse mode
          plan   \* threads chosen at the points so far (not part of the view)
(* S.n     nodes by id
   S.root  handles: [t -> id or 0];  S.base: the handle kept, or 0
   S.st    tasks: [t -> sequence]
   S.prog  programs;  S.wr: has written;  S.got: entries seen;  S.cp: elements cloned *)

FreeId(n) == CHOOSE i \in 1 .. Cardinality(DOMAIN n) + 1 : i \notin DOMAIN n

(***************************************************************************)
(* Tasks.  Do(s, t) does the first task of thread t.                       *)
(*   <<"run", op, k>>           start a program                            *)
(*   <<"pt", what>>             a call of user code ("call": the switch    *)
(*                              point before it is passed)                 *)
(*   <<"own", p, j, op, k>>     the node in slot j of p (p = 0: the root)  *)
(*                              is about to be changed                     *)
(*   <<"copy", p, j, id, ks>>   its copy: kids ks are still to be cloned   *)
(*   <<"put", p, j, id>>        the copy takes the slot                    *)
(*   <<"dec", id>>              give up a reference                        *)
(*   <<"kid", id, j>>           a dying node drops its kids                *)
(*   <<"free", id>>             and is released                            *)
(*   <<"at", p, j, op, k>>      the node is private: look for k            *)
(*   <<"look", id, k>>          look for k without changing anything       *)
(*   <<"next", m>>              take m entries from the work list          *)
(*   ...                        see below                                  *)
(***************************************************************************)
Slot(s, t, p, j) == IF p = 0 THEN s.root[t] ELSE s.n[p].kids[j]
SetSlot(s, t, p, j, id) == IF p = 0 THEN [s EXCEPT !.root[t] = id] ELSE [s EXCEPT !.n[p].kids[j] = id]
Push(s, t, l) == [s EXCEPT !.st[t] = l \o @]
IncN(s, id) == IF id = 0 THEN s ELSE [s EXCEPT !.n[id].rc = @ + 1]
Less(nd, k) == Cardinality({i \in DOMAIN nd.el : nd.el[i][1] < k})
Hit(nd, k) == \E i \in DOMAIN nd.el : nd.el[i][1] = k
Cmps(nd, k) == Less(nd, k) + (IF \E i \in DOMAIN nd.el : nd.el[i][1] >= k THEN 1 ELSE 0)
Pts(n, what) == [i \in 1 .. n |-> <<"pt", what>>]
Next1(nd, k) == IF nd.kids = <<>> THEN 0 ELSE nd.kids[Less(nd, k) + 1]

(* consuming iteration (AVL): a work list in the thread's own tasks, front first
   <<"A", id>> kept alive   <<"O", el, l, r>> taken out of the heap   <<"R", el>> *)
Do(s0, t) ==
    LET x == Head(s0.st[t])
        s == [s0 EXCEPT !.st[t] = Tail(@)]
    IN CASE x[1] = "run" ->
              (CASE x[2] \in {"getmut", "insert"} -> Push(s, t, << <<"own", 0, 0, x[2], x[3]>> >>)
                 [] x[2] = "get" -> Push(s, t, [i \in 1 .. Looks |-> <<"look", s.root[t], x[3]>>])
                 [] x[2] = "drop" -> IF s.root[t] = 0 THEN s ELSE Push([s EXCEPT !.root[t] = 0], t, << <<"dec", s.root[t]>> >>)
                 [] x[2] = "into" -> Push([s EXCEPT !.root[t] = 0], t, << <<"unwrap", s.root[t], <<>>, x[3]>> >>))
         [] x[1] \in {"pt", "call"} -> IF x[2] = "clone" THEN [s EXCEPT !.cp[t] = @ + 1] ELSE s
         \* Arc::make_mut: one atomic look at the count decides
         [] x[1] = "own" ->
              LET id == Slot(s, t, x[2], x[3])
              IN IF id = 0 THEN s
                 ELSE IF s.n[id].rc = 1 THEN Push(s, t, << <<"at", x[2], x[3], x[4], x[5]>> >>)
                 ELSE Push(s, t, Pts(2 * Len(s.n[id].el), "clone") \o
                                 << <<"copy", x[2], x[3], id, <<>> >>, <<"at", x[2], x[3], x[4], x[5]>> >>)
         [] x[1] = "copy" ->
              LET ks == s.n[x[4]].kids
              IN IF Len(x[5]) < Len(ks)
                 THEN LET c == ks[Len(x[5]) + 1] IN Push(IncN(s, c), t, << <<"copy", x[2], x[3], x[4], Append(x[5], c)>> >>)
                 ELSE LET i == FreeId(s.n)
                          u == [s EXCEPT !.n = TLCEval((i :> [s.n[x[4]] EXCEPT !.rc = 1]) @@ @)]
                      IN Push(SetSlot(u, t, x[2], x[3], i), t, << <<"dec", x[4]>> >>)
         [] x[1] = "dec" ->
              LET u == [s EXCEPT !.n[x[2]].rc = @ - 1]
              IN IF u.n[x[2]].rc > 0 THEN u ELSE Push(u, t, Pts(2 * Len(u.n[x[2]].el), "drop") \o << <<"kid", x[2], 1>> >>)
         [] x[1] = "kid" ->
              LET ks == s.n[x[2]].kids
              IN IF x[3] > Len(ks) THEN [s EXCEPT !.n = TLCEval([i \in DOMAIN @ \ {x[2]} |-> @[i]])]
                 ELSE Push([s EXCEPT !.n[x[2]].kids[x[3]] = 0], t,
                           (IF ks[x[3]] = 0 THEN <<>> ELSE << <<"dec", ks[x[3]]>> >>) \o << <<"kid", x[2], x[3] + 1>> >>)
         [] x[1] = "at" ->
              LET id == Slot(s, t, x[2], x[3])
                  nd == s.n[id]
              IN Push(s, t, Pts(Cmps(nd, x[5]), "cmp") \o
                            (IF Hit(nd, x[5]) THEN << <<"write", id, x[4], x[5]>> >>
                             ELSE IF nd.kids = <<>> THEN <<>> ELSE << <<"own", id, Less(nd, x[5]) + 1, x[4], x[5]>> >>))
         [] x[1] = "write" ->
              LET i == CHOOSE i \in DOMAIN s.n[x[2]].el : s.n[x[2]].el[i][1] = x[4]
              IN Push([s EXCEPT !.n[x[2]].el[i][2] = t, !.wr[t] = TRUE], t, IF x[3] = "insert" THEN Pts(2, "drop") ELSE <<>>)
         [] x[1] = "look" ->
              IF x[2] = 0 THEN s
              ELSE LET nd == s.n[x[2]]
                   IN Push(s, t, Pts(Cmps(nd, x[3]), "cmp") \o (IF Hit(nd, x[3]) THEN << <<"see", x[2], x[3]>> >> ELSE << <<"look", Next1(nd, x[3]), x[3]>> >>))
         [] x[1] = "see" -> [s EXCEPT !.got[t] = Append(@, CHOOSE e \in {s.n[x[2]].el[i] : i \in DOMAIN s.n[x[2]].el} : e[1] = x[3])]
         \* Arc::try_unwrap: take the node out of the heap if the count is one
         [] x[1] = "unwrap" ->
              LET nd == s.n[x[2]]
              IN IF x[2] = 0 THEN Push(s, t, << <<"next", x[3], x[4]>> >>)
                 ELSE IF nd.rc > 1 THEN Push(s, t, << <<"next", << <<"A", x[2]>> >> \o x[3], x[4]>> >>)
                 ELSE Push([s EXCEPT !.n = TLCEval([i \in DOMAIN @ \ {x[2]} |-> @[i]])], t,
                           << <<"next", << <<"O", nd.el[1], nd.kids[1], nd.kids[2]>> >> \o x[3], x[4]>> >>)
         [] x[1] = "next" ->
              LET w == x[2]
                  h == Head(w)
              IN IF w = <<>> THEN s
                 ELSE IF x[3] = 0 THEN \* drop what is left
                     Push(s, t, (CASE h[1] = "A" -> << <<"dec", h[2]>> >>
                                   [] h[1] = "R" -> Pts(2, "drop")
                                   [] OTHER -> Pts(2, "drop") \o (IF h[3] = 0 THEN <<>> ELSE << <<"dec", h[3]>> >>)
                                                              \o (IF h[4] = 0 THEN <<>> ELSE << <<"dec", h[4]>> >>)) \o << <<"next", Tail(w), 0>> >>)
                 ELSE (CASE h[1] = "R" -> Push([s EXCEPT !.got[t] = Append(@, h[2])], t, Pts(2, "drop") \o << <<"next", Tail(w), x[3] - 1>> >>)
                        [] h[1] = "A" -> Push(IncN(s, s.n[h[2]].kids[1]), t,
                                              Pts(2, "clone") \o << <<"arc2", h[2], s.n[h[2]].kids[1], Tail(w), x[3]>> >>)
                        [] h[1] = "O" -> \* the kids, left then right, may turn out to be ours
                             IF h[3] = 0 THEN Push(s, t, << <<"own2", <<>>, h[2], h[4], Tail(w), x[3]>> >>)
                             ELSE LET nd == s.n[h[3]]
                                  IN IF nd.rc > 1 THEN Push(s, t, << <<"own2", << <<"A", h[3]>> >>, h[2], h[4], Tail(w), x[3]>> >>)
                                     ELSE Push([s EXCEPT !.n = TLCEval([i \in DOMAIN @ \ {h[3]} |-> @[i]])], t,
                                               << <<"own2", << <<"O", nd.el[1], nd.kids[1], nd.kids[2]>> >>, h[2], h[4], Tail(w), x[3]>> >>))
         [] x[1] = "arc2" ->
              LET nd == s.n[x[2]]
                  A(i) == IF i = 0 THEN <<>> ELSE << <<"A", i>> >>
              IN Push(IncN(s, nd.kids[2]), t,
                      << <<"dec", x[2]>>, <<"next", ((A(x[3]) \o << <<"R", nd.el[1]>> >>) \o A(nd.kids[2])) \o x[4], x[5]>> >>)
         [] x[1] = "own2" ->
              LET rest(r) == ((x[2] \o << <<"R", x[3]>> >>) \o r) \o x[5]
                  nd == s.n[x[4]]
              IN IF x[4] = 0 THEN Push(s, t, << <<"next", rest(<<>>), x[6]>> >>)
                 ELSE IF nd.rc > 1 THEN Push(s, t, << <<"next", rest(<< <<"A", x[4]>> >>), x[6]>> >>)
                 ELSE Push([s EXCEPT !.n = TLCEval([i \in DOMAIN @ \ {x[4]} |-> @[i]])], t,
                           << <<"next", rest(<< <<"O", nd.el[1], nd.kids[1], nd.kids[2]>> >>), x[6]>> >>)

Busy(s, t) == s.st[t] # <<>>
Alive(s) == {t \in T : Busy(s, t)}
AtPoint(s, t) == Busy(s, t) /\ Head(s.st[t])[1] = "pt"
(* coarse mode: thread t goes on until it is about to call user code, or ends *)
RECURSIVE Go(_, _)
Go(s, t) == IF ~Busy(s, t) \/ AtPoint(s, t) THEN s ELSE Go(TLCEval(Do(s, t)), t)
After(t, s) == \* the thread that goes on when t ends
    LET r == {u \in Alive(s) : u > t}
    IN IF Alive(s) = {} THEN 0 ELSE CHOOSE u \in (IF r # {} THEN r ELSE Alive(s)) : \A v \in (IF r # {} THEN r ELSE Alive(s)) : u <= v

Start(p) == [n |-> TLCEval([i \in DOMAIN Shape |-> [Shape[i] EXCEPT !.rc = IF i = 1 THEN NT + (IF Keep THEN 1 ELSE 0) ELSE 1]]),
             root |-> [t \in T |-> 1], base |-> IF Keep THEN 1 ELSE 0,
             st |-> [t \in T |-> << <<"run", p[t][1], p[t][2]>>, <<"run", "drop", 0>> >>],
             prog |-> p, wr |-> [t \in T |-> FALSE], got |-> [t \in T |-> <<>>], cp |-> [t \in T |-> 0]]

(* run on without another switch: what the driver does after the plan *)
RECURSIVE Finish(_, _)
Finish(s, t) ==
    IF t = 0 THEN s
    ELSE IF ~Busy(s, t) THEN Finish(s, After(t, s))
    ELSE Finish(TLCEval(Do(s, t)), t)
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE ToString(Head(l)) \o Join(Tail(l))
RECURSIVE Words(_, _)
Words(s, i) == IF i > NT THEN "" ELSE " " \o s.prog[i][1] \o ":" \o ToString(s.prog[i][2]) \o ":" \o ToString(s.cp[i]) \o Words(s, i + 1)
Say(s, p, t) == IF Emit THEN PrintT("PLAN " \o Tree \o (IF Keep THEN " 1 " ELSE " 0 ") \o Join(p) \o Words(TLCEval(Finish(s, t)), 1)) ELSE TRUE

Init == /\ \E p \in [T -> {Prog(w) : w \in Progs}] : S = Start(p)
        /\ turn = (IF Fine THEN 0 ELSE 1)
        /\ plan = <<>>

FineStep == /\ Fine
            /\ \E t \in Alive(S) : S' = Do(S, t)
            /\ UNCHANGED <<turn, plan>>

Point == /\ ~Fine /\ turn # 0 /\ AtPoint(S, turn)
         /\ \E u \in Alive(S) \ {turn} :
              /\ S' = [S EXCEPT !.st[turn] = << <<"call", Head(@)[2]>> >> \o Tail(@)] \* the point is passed
              /\ turn' = u
              /\ plan' = Append(plan, u)
              /\ Say(S', plan', u)
\* no switch: the call is made, and the thread goes on to its next point
Stay == /\ ~Fine /\ turn # 0 /\ AtPoint(S, turn)
        /\ LET s == Go(Do(S, turn), turn)
           IN /\ S' = s
              /\ turn' = IF Busy(s, turn) THEN turn ELSE After(turn, s)
         /\ plan' = Append(plan, turn)
\* a thread that was given the turn goes on to its next point
Enter == /\ ~Fine /\ turn # 0 /\ Busy(S, turn) /\ ~AtPoint(S, turn)
         /\ LET s == Go(S, turn)
            IN /\ S' = s
               /\ turn' = IF Busy(s, turn) THEN turn ELSE After(turn, s)
         /\ UNCHANGED plan
Next == FineStep \/ Point \/ Stay \/ Enter
vars == <<S, turn, plan>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<S, turn>>

(***************************************************************************)
(* What must hold.                                                         *)
(***************************************************************************)
Ids == DOMAIN S.n
RECURSIVE Flat(_)
RECURSIVE FlatKids(_, _)
Flat(id) == IF id = 0 THEN <<>>
            ELSE LET nd == S.n[id]
                 IN IF nd.kids = <<>> THEN nd.el ELSE FlatKids(nd, 1)
FlatKids(nd, i) == IF i > Len(nd.el) THEN Flat(nd.kids[i])
                   ELSE (Flat(nd.kids[i]) \o <<nd.el[i]>>) \o FlatKids(nd, i + 1)
Size == Len(SelectSeq([i \in 1 .. 9 |-> i], LAMBDA i : \E j \in DOMAIN Shape : \E e \in DOMAIN Shape[j].el : Shape[j].el[e][1] = i))
Initial == [i \in 1 .. Size |-> E(i)]
Writes(t) == S.prog[t][1] \in {"getmut", "insert"}
Expected(t) == IF Writes(t) /\ S.wr[t] THEN [Initial EXCEPT ![S.prog[t][2]] = <<@[1], t>>] ELSE Initial
\* references held by the tasks of a thread
RECURSIVE Held(_)
Held(l) == IF l = <<>> THEN <<>>
           ELSE LET x == Head(l)
                    W(w) == LET one(h) == CASE h[1] = "A" -> <<h[2]>> [] h[1] = "O" -> <<h[3], h[4]>> [] OTHER -> <<>>
                                r[i \in 0 .. Len(w)] == IF i = 0 THEN <<>> ELSE r[i - 1] \o one(w[i])
                            IN r[Len(w)]
                IN (CASE x[1] = "dec" -> <<x[2]>>
                      [] x[1] = "copy" -> x[5]
                      [] x[1] = "unwrap" -> <<x[2]>> \o W(x[3])
                      [] x[1] = "next" -> W(x[2])
                      [] x[1] = "arc2" -> <<x[3], x[2]>> \o W(x[4])
                      [] x[1] = "own2" -> (W(x[2]) \o <<x[4]>>) \o W(x[5])
                      [] OTHER -> <<>>) \o Held(Tail(l))
Count(l, id) == Len(SelectSeq(l, LAMBDA i : i = id))
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + Sum(f, D \ {d})
\* counts are exact: a dying node has none and is referred to by nobody
\* (the reference a thread copies from is still in its slot)
Counts == \A id \in Ids :
    S.n[id].rc = Sum([i \in Ids |-> Count(S.n[i].kids, id)], Ids) + Cardinality({t \in T : S.root[t] = id})
                 + (IF S.base = id THEN 1 ELSE 0) + Sum([t \in T |-> Count(Held(S.st[t]), id)], T)
\* no handle shows another thread's work, at any moment
Isolated == /\ \A t \in T : S.root[t] # 0 => Flat(S.root[t]) = Expected(t)
            /\ S.base # 0 => Flat(S.base) = Initial
            /\ \A t \in T : \A i \in DOMAIN S.got[t] : S.got[t][i] = Initial[IF S.prog[t][1] = "get" THEN S.prog[t][2] ELSE i]
\* what is written in place is reachable by nobody else
RECURSIVE Reach(_)
Reach(id) == IF id = 0 THEN {} ELSE {id} \cup UNION {Reach(S.n[id].kids[j]) : j \in DOMAIN S.n[id].kids}
Private == \A t \in T : Busy(S, t) /\ Head(S.st[t])[1] = "write" =>
              /\ \A u \in T \ {t} : Head(S.st[t])[2] \notin Reach(S.root[u])
              /\ Head(S.st[t])[2] \notin Reach(S.base)
\* a thread copies no more than the path it changes, or what it takes out
RECURSIVE PathCost(_, _)
PathCost(id, k) == IF id = 0 THEN 0 ELSE 2 * Len(Shape[id].el) + (IF Hit(Shape[id], k) THEN 0 ELSE PathCost(Next1(Shape[id], k), k))
Cost == \A t \in T : S.cp[t] <= (CASE Writes(t) -> PathCost(1, S.prog[t][2]) [] S.prog[t][1] = "into" -> 2 * Size [] OTHER -> 0)
\* in the end all is released, or all but the handle that was kept
End == Alive(S) = {} => /\ S.base = 0 => S.n = <<>>
                        /\ S.base # 0 => S.n = TLCEval([i \in DOMAIN Shape |-> Shape[i]])
                        /\ \A t \in T : Writes(t) => S.wr[t] = (S.prog[t][2] \in 1 .. Size)
                        /\ \A t \in T : S.prog[t][1] = "into" => Len(S.got[t]) = (IF S.prog[t][2] > Size THEN Size ELSE S.prog[t][2])
Good == Counts /\ Isolated /\ Private /\ Cost /\ End
Ends == <>(Alive(S) = {})
=============================================================================
