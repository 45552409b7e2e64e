--------------------------------- MODULE Algebra ---------------------------------
(* Two lists of items, grown one item at a time in every possible way, and the     *)
(* laws of addition and subtraction on them.  Each pair is printed as an operation  *)
(* the implementation has to perform in all its forms.                               *)
EXTENDS Corr, Json

CONSTANTS MaxA, MaxB     \* longest left and right operand

VARIABLES x, y
avars == <<x, y>>

(* Items that differ in the source only, in the target only, by length, by code     *)
(* point and not by UTF-16 order (U+FFFD < U+1F600), and with empty parts.           *)
Universe == << << <<97>>, <<120>> >>, << <<97>>, <<121>> >>, << <<97, 97>>, <<120>> >>,
               << <<65533>>, <<120>> >>, << <<128512>>, <<>> >> >>
U == SetOf(Universe)

AInit == x = <<>> /\ y = <<>>
ANext == \/ Len(x) < MaxA /\ \E u \in U : x' = Append(x, u) /\ UNCHANGED y
         \/ Len(x) <= MaxA /\ Len(y) < MaxB /\ \E u \in U : y' = Append(y, u) /\ UNCHANGED x
ASpec == AInit /\ [][ANext]_avars

P == Plus(x, y)
M == Minus(x, y)

Laws ==
    /\ IsPlus(P, x, y) /\ IsMinus(M, x, y)
    /\ Ascending(P) /\ SetOf(P) = SetOf(x) \cup SetOf(y)
    /\ P = Plus(y, x)                                   \* commutative
    /\ Plus(P, y) = P /\ Plus(x, P) = P                  \* absorbing
    /\ NonDescending(M) /\ SetOf(M) = SetOf(x) \ SetOf(y)
    /\ \A u \in U : Count(u, M) = (IF u \in SetOf(y) THEN 0 ELSE Count(u, x))
    /\ Minus(M, y) = M
    /\ Minus(Plus(M, y), y) = Plus(M, <<>>)
    /\ Minus(x, <<>>) = SortItems(x)
    \* the predicates the traces are judged by accept nothing else
    /\ \A r \in {P, M, x, y, x \o y, SortItems(x \o y)} :
          /\ IsPlus(r, x, y) <=> r = P
          /\ IsMinus(r, x, y) <=> r = M

\* associativity over a third operand
Assoc == \A u \in U : Plus(Plus(x, y), <<u>>) = Plus(x, Plus(y, <<u>>))

Lit(s) == [c |-> "lit", items |-> s]
Want(r) == [p |-> 0, res |-> r, assign |-> r, table |-> r, builder |-> r, b |-> y]
Emit == PrintT(ToJson(<<
          [op |-> "calc", sign |-> "+", a |-> Lit(x), b |-> Lit(y), want |-> Want(P)],
          [op |-> "calc", sign |-> "-", a |-> Lit(x), b |-> Lit(y), want |-> Want(M)] >>))
==================================================================================
