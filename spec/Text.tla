---------------------------------- MODULE Text ----------------------------------
(* A text is a sequence of Unicode scalar values (integers).  Everything the    *)
(* specification says about texts is defined here, by comprehension over index  *)
(* positions, without reference to how the implementation scans its bytes.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

SP == 32                                    \* the half-width space

IsScalar(c) == 0 <= c /\ c <= 1114111 /\ ~(55296 <= c /\ c <= 57343)  \* Unicode scalar values

IsAlnum(c) == \/ 48 <= c /\ c <= 57         \* ASCII digit
              \/ 65 <= c /\ c <= 90         \* ASCII upper case letter
              \/ 97 <= c /\ c <= 122        \* ASCII lower case letter

(* ---- UTF-8 sizes and offsets ---- *)
U8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

ByteLen(s) == FoldLeft(LAMBDA a, c : a + U8(c), 0, s)

(* Offset in bytes of the character at position i (1-based). *)
ByteOff(s, i) == ByteLen(SubSeq(s, 1, i - 1))

(* ---- positions and pieces ---- *)
Force(s) == s \o <<>>                       \* make TLC evaluate a comprehension now

Idx(s) == Force([i \in 1..Len(s) |-> i])

Pick(s, K) == Force([j \in 1..Len(K) |-> s[K[j]]])

(* Keep the characters of s at the positions satisfying P, in order. *)
KeepAt(s, P(_)) == Pick(s, SelectSeq(Idx(s), P))

Repeat(c, n) == Force([i \in 1..n |-> c])

ReverseOf(s) == Force([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

(* ---- code point order (the order of UTF-8 byte strings is the same) ---- *)
RECURSIVE LexLtFrom(_, _, _)
LexLtFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLtFrom(a, b, i + 1)
LexLt(a, b) == LexLtFrom(a, b, 1)

(* ---- substring replacement: left to right, without overlap ---- *)
MatchesAt(s, from, i) == /\ i + Len(from) - 1 <= Len(s)
                         /\ \A k \in 1..Len(from) : s[i + k - 1] = from[k]

(* The positions at which replacement takes place. *)
Starts(s, from) ==
    LET all == SelectSeq(Idx(s), LAMBDA i : MatchesAt(s, from, i))
        \* of overlapping occurrences the leftmost is taken
        step(acc, i) == IF acc = <<>> \/ i >= Last(acc) + Len(from) THEN Append(acc, i) ELSE acc
    IN IF Len(from) = 1 THEN all ELSE FoldLeft(step, <<>>, all)

ReplaceNonEmpty(s, from, to) ==
    LET st == Starts(s, from)
        n  == Len(st)
        \* piece k: what stands between occurrence k-1 and occurrence k
        lo(k) == IF k = 1 THEN 1 ELSE st[k - 1] + Len(from)
        hi(k) == IF k = n + 1 THEN Len(s) ELSE st[k] - 1
        step(acc, k) == acc \o SubSeq(s, lo(k), hi(k)) \o (IF k <= n THEN to ELSE <<>>)
    IN IF n = 0 THEN s ELSE FoldLeft(step, <<>>, [k \in 1..(n + 1) |-> k])

(* An empty pattern occurs before every character and at the end. *)
ReplaceEvery(s, from, to) ==
    IF from = <<>> THEN FoldLeft(LAMBDA acc, c : acc \o <<c>> \o to, to, s)
    ELSE ReplaceNonEmpty(s, from, to)

(* The pieces between the occurrences of a character. *)
SplitAt(s, c) ==
    FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>)
                             ELSE Append(Front(acc), Append(Last(acc), x)), << <<>> >>, s)

Occurs(s, from) == \E i \in 1..Len(s) : MatchesAt(s, from, i)

SetOfChars(s) == {s[i] : i \in 1..Len(s)}
=================================================================================
