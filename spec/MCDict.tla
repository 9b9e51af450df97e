------------------------------- MODULE MCDict -------------------------------
(***************************************************************************)
(* The operators of Dict, which every other module and the trace check     *)
(* use as the oracle, against independent definitions over finite          *)
(* functions and sets: for all pairs of dictionaries over a few keys that  *)
(* may compare equal without being identical, all probe keys and bounds.   *)
(***************************************************************************)
EXTENDS Dict
CONSTANTS Ords, Tags, Vals, Law     \* Law selects a group of laws

VARIABLES a, b
Opt == {<<>>} \cup {<<100 * 0 + t, v>> : t \in Tags, v \in Vals}
Build(f) == \* a function from Ords to optional <<tag, value>> as a sequence
    LET S == {o \in Ords : f[o] # <<>>}
        RECURSIVE Lst(_)
        Lst(T) == IF T = {} THEN <<>>
                  ELSE LET m == CHOOSE o \in T : \A p \in T : o <= p
                       IN << <<100 * m + f[m][1], f[m][2]>> >> \o Lst(T \ {m})
    IN Lst(S)
All == {Build(f) : f \in [Ords -> Opt]}

Init == a \in All /\ b \in IF Law \in {"point", "range"} THEN {<<>>} ELSE All
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Keys(s) == {EOrd(s[i]) : i \in 1 .. Len(s)}
At(s, x) == s[CHOOSE i \in 1 .. Len(s) : EOrd(s[i]) = x]
Probe == Ords \cup {0, 1 + CHOOSE m \in Ords : \A o \in Ords : o <= m}
SameKeys(s, K) == Sorted(s) /\ Keys(s) = K

PointLaws ==
    /\ Sorted(a)
    /\ \A x \in Probe :
        /\ Has(a, x) <=> x \in Keys(a)
        /\ Get(a, x) = IF x \in Keys(a) THEN <<At(a, x)[2]>> ELSE <<>>
        /\ GetEntry(a, x) = IF x \in Keys(a) THEN At(a, x) ELSE <<>>
        /\ GetKey(a, x) = IF x \in Keys(a) THEN <<At(a, x)[1]>> ELSE <<>>
        /\ SameKeys(Del(a, x), Keys(a) \ {x})
        /\ \A y \in Keys(Del(a, x)) : At(Del(a, x), y) = At(a, y)
        /\ Rank(a, x) = Cardinality({y \in Keys(a) : y < x})
        /\ \A t \in Tags, v \in Vals :
            LET p == Put(a, 100 * x + t, v)
            IN /\ SameKeys(p, Keys(a) \cup {x})
               /\ At(p, x) = <<100 * x + t, v>>
               /\ \A y \in Keys(a) \ {x} : At(p, y) = At(a, y)
               /\ Get(SetVal(a, x, v), x) = IF x \in Keys(a) THEN <<v>> ELSE <<>>
    /\ a # <<>> => /\ \A y \in Keys(a) : EOrd(FirstE(a)) <= y /\ EOrd(LastE(a)) >= y
                   /\ EOrd(FirstE(a)) \in Keys(a) /\ EOrd(LastE(a)) \in Keys(a)

BulkLaws ==
    /\ LET u == Union(a, b)
       IN /\ SameKeys(u, Keys(a) \cup Keys(b))
          /\ \A y \in Keys(u) : At(u, y) = IF y \in Keys(b) THEN At(b, y) ELSE At(a, y)
          /\ PutAll(a, b) = u
    /\ SameKeys(Both(a, b), Keys(a) \cap Keys(b))
    /\ \A y \in Keys(Both(a, b)) : At(Both(a, b), y) = At(a, y)
    /\ SameKeys(Only(a, b), Keys(a) \ Keys(b))
    /\ \A y \in Keys(Only(a, b)) : At(Only(a, b), y) = At(a, y)
    /\ SameKeys(SymDiffE(a, b), (Keys(a) \ Keys(b)) \cup (Keys(b) \ Keys(a)))
    /\ Match(SymDiffE(a, b), Only(Union(a, b), Both(a, b)), {})
    /\ \A x \in Probe : /\ Below(a, x) \o AtLeast(a, x) = a
                        /\ Keys(Below(a, x)) = {y \in Keys(a) : y < x}
    /\ \A m \in {2, 3}, t \in {0, 1, 2} :
            LET r == RetainSeq(a, 1, m, t, 5)
            IN /\ SameKeys(r, {y \in Keys(a) : (y + At(a, y)[2]) % m < t})
               /\ \A y \in Keys(r) : At(r, y)[2] = At(a, y)[2] + 5
    /\ Rev(Rev(a)) = a

InB(x, c) == /\ c[1] = 1 => x >= c[2]
             /\ c[1] = 2 => x > c[2]
             /\ c[3] = 1 => x <= c[4]
             /\ c[3] = 2 => x < c[4]
RangeLaws ==
    \A lt, ht \in 0 .. 2, lo, hi \in Probe :
        LET c == <<lt, lo, ht, hi>>
            i == RLo(a, c)
            j == Max2(i, RHi(a, c))
        IN /\ Keys(SubSeq(a, i + 1, j)) = {y \in Keys(a) : InB(y, c)}
           /\ Inverted(c) => {y \in Keys(a) : InB(y, c)} = {}

OrderLaws ==
    /\ Lex(a, b) = -Lex(b, a)
    /\ (Lex(a, b) = 0) <=> SameKV(a, b)
    /\ SameKV(a, b) <=> /\ Keys(a) = Keys(b)
                        /\ \A y \in Keys(a) : At(a, y)[2] = At(b, y)[2]
    /\ \A c \in All : Lex(a, b) <= 0 /\ Lex(b, c) <= 0 => Lex(a, c) <= 0

LawsHold == CASE Law = "point" -> PointLaws
              [] Law = "bulk" -> BulkLaws
              [] Law = "range" -> RangeLaws
              [] OTHER -> OrderLaws
=============================================================================
