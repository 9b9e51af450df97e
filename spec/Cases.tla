-------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* All small arguments of the operations on two collections, on a stream   *)
(* of entries, and on an entry: the model checks the laws that Dict's      *)
(* operators promise for each case and prints it, and the driver replays   *)
(* every printed case (or a sample) on the code.                           *)
(*   "sets"   pairs of sets over 1..NK: algebra, relations, lazy forms     *)
(*   "maps"   pairs of maps 1..NK -> 1..NV: comparison, hashing, merging   *)
(*   "stacks" pairs of sequences up to NL over 1..NV: comparison           *)
(*   "de"     streams of up to NL entries over 1..NK, a length hint, and   *)
(*            where the stream fails (-1: nowhere)                         *)
(*   "entry"  a map, a key, what the entry is put through                  *)
(*   "ends"   a map, which end, what the entry is put through              *)
(***************************************************************************)
EXTENDS Dict
CONSTANTS Kind, NK, NV, NL, Emit
VARIABLES c, good

RECURSIVE Asc(_)
Asc(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE o \in T : \A p \in T : o <= p IN <<m>> \o Asc(T \ {m})
\* contents over the keys 1..NK: entries <<100 * key, value>>
Contents(V) == UNION {{[i \in 1 .. Cardinality(T) |-> <<100 * Asc(T)[i], f[Asc(T)[i]]>>] : f \in [T -> V]} : T \in SUBSET (1 .. NK)}
Streams(V, n) == UNION {[1 .. l -> V] : l \in 0 .. n}
Steps == {0, 2, 3, 4, 5, 6}
All == CASE Kind = "sets" -> Contents({0}) \X Contents({0})
         [] Kind = "maps" -> Contents(1 .. NV) \X Contents(1 .. NV)
         [] Kind = "stacks" -> Streams(1 .. NV, NL) \X Streams(1 .. NV, NL)
         [] Kind = "de" -> {<<s, h, x>> : s \in Streams(1 .. NK, NL), h \in {-2, -1, 0, 1, 2, 3, 5, 9}, x \in {-1, 0, 1, 2, NL}}
         [] Kind = "entry" -> Contents({1}) \X (1 .. NK) \X {0, 1} \X Steps
         [] OTHER -> Contents({1}) \X {0, 1} \X {0, 1} \X Steps

Sizes(a, b) == /\ Len(Union(a, b)) = Len(a) + Len(b) - Len(Both(a, b))
               /\ Len(SymDiffE(a, b)) = Len(Only(a, b)) + Len(Only(b, a))
               /\ Len(Only(a, b)) + Len(Both(a, b)) = Len(a)
SubsetOf(a, b) == \A i \in DOMAIN a : Has(b, EOrd(a[i]))
Laws(x) ==
    CASE Kind = "sets" ->
           LET a == x[1]
               b == x[2]
           IN /\ Sizes(a, b)
              /\ Union(a, b) = Union(b, a) /\ Both(a, b) = Both(b, a) /\ SymDiffE(a, b) = SymDiffE(b, a)
              /\ SymDiffE(SymDiffE(a, b), b) = a
              /\ Union(Only(a, b), Both(a, b)) = a
              /\ SubsetOf(a, b) <=> Both(a, b) = a
              /\ SubsetOf(a, b) <=> Only(a, b) = <<>>
              /\ Lex(a, b) = 0 <=> a = b
      [] Kind = "maps" ->
           LET a == x[1]
               b == x[2]
           IN /\ Sizes(a, b)
              /\ Lex(a, b) = -Lex(b, a)
              /\ SameKV(a, b) <=> Lex(a, b) = 0
              /\ Union(a, b) = PutAll(a, b)
              /\ Union(Only(a, b), b) = Union(a, b)
      [] Kind = "stacks" -> TRUE
      [] Kind = "de" -> LET l == [i \in DOMAIN x[1] |-> <<100 * x[1][i], i>>]
                            d == PutAll(<<>>, l)
                        IN /\ Sorted(d)
                           /\ {EOrd(d[i]) : i \in DOMAIN d} = {x[1][i] : i \in DOMAIN x[1]}
                           /\ \A i \in DOMAIN d : \A j \in DOMAIN l : l[j][1] = d[i][1] => l[j][2] <= d[i][2] \* the last one stays
      [] OTHER -> LET d == Put(x[1], 100 * x[2], 7) IN Sorted(d) /\ Get(d, x[2]) = <<7>>

Init == /\ c \in All
        /\ good = Laws(c)
        /\ Emit => PrintT(ToString(<<"C", c>>))
Next == UNCHANGED <<c, good>>
Good == good
=============================================================================
