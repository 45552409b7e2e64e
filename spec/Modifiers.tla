-------------------------------- MODULE Modifiers --------------------------------
(* What each kind of stage means.                                                *)
(*                                                                               *)
(*   [k |-> "conv", m |-> f]    character conversion by the map f                *)
(*   [k |-> "elim", s |-> S]    elimination of the characters of S               *)
(*   [k |-> "red",  c |-> c]    reduction of runs of c                           *)
(*   [k |-> "dse"]              elimination of spaces (dotted_space_eliminator)  *)
(*   [k |-> "lig",  m |-> f]    ligatures; f maps sequences to sequences         *)
(*   [k |-> "trim"]             trimming                                         *)
(*   [k |-> "neo"]              neologdn                                         *)
(*                                                                               *)
(* Apply(st, s) is the output of stage st on text s, Positions(st, s) the        *)
(* report of what it changed.                                                    *)
EXTENDS Sets

(* ---- conversion ---- *)
ConvChar(m, c) == IF c \in DOMAIN m THEN m[c] ELSE c
Convert(m, s) == LET d == DOMAIN m
                 IN Force([i \in 1..Len(s) |-> IF s[i] \in d THEN m[s[i]] ELSE s[i]])

(* ---- elimination ---- *)
Eliminate(S, s) == SelectSeq(s, LAMBDA c : c \notin S)

(* ---- reduction: of every run of c only the first character stays ---- *)
Reduce(c, s) == KeepAt(s, LAMBDA i : ~(s[i] = c /\ i > 1 /\ s[i - 1] = c))

(* ---- spaces: between two neighbouring non-space characters at least one       *)
(*      space became exactly one if both are ASCII alphanumerics, else none ---- *)
Despace(s) ==
    LET N == SelectSeq(Idx(s), LAMBDA i : s[i] # SP)      \* the other characters
        m == Len(N)
        gap(j) == /\ j < m
                  /\ N[j + 1] > N[j] + 1
                  /\ IsAlnum(s[N[j]]) /\ IsAlnum(s[N[j + 1]])
        \* odd cells hold the characters, even cells the space after them or nothing
        cells == Force([k \in 1..(2 * m) |->
                          IF k % 2 = 1 THEN s[N[(k + 1) \div 2]]
                          ELSE IF gap(k \div 2) THEN SP ELSE -1])
    IN SelectSeq(cells, LAMBDA c : c # -1)

(* ---- trimming ---- *)
FirstNonSpace(s) == LET N == SelectSeq(Idx(s), LAMBDA i : s[i] # SP)
                    IN IF N = <<>> THEN 0 ELSE Head(N)
LastNonSpace(s)  == LET N == SelectSeq(Idx(s), LAMBDA i : s[i] # SP)
                    IN IF N = <<>> THEN 0 ELSE Last(N)
TrimText(s) == IF FirstNonSpace(s) = 0 THEN <<>>
               ELSE SubSeq(s, FirstNonSpace(s), LastNonSpace(s))

(* ---- ligatures: longest source (in bytes) first, then code point order ---- *)
LigBefore(a, b) == \/ ByteLen(a) > ByteLen(b)
                   \/ ByteLen(a) = ByteLen(b) /\ LexLt(a, b)
LigOrder(m) == SetToSortSeq(DOMAIN m, LigBefore)
LigateBy(order, m, s) == FoldLeft(LAMBDA t, f : ReplaceEvery(t, f, m[f]), s, order)
Ligate(m, s) == LigateBy(LigOrder(m), m, s)

KanaLigOrder == LigOrder(KanaLigatures)      \* evaluated once

(* ---- neologdn ---- *)
(* Kana composition in one pass; equal to Ligate(KanaLigatures, s) because no    *)
(* two sources overlap and no target contains a mark (checked in Scan).    *)
Compose(s) ==
    LET n == Len(s)
        comp(i) == i < n /\ Composes(s[i], s[i + 1])
        eaten(i) == i > 1 /\ Composes(s[i - 1], s[i])
    IN LET t == Force([i \in 1..n |-> IF comp(i) THEN Composed(s[i], s[i + 1])
                                      ELSE IF eaten(i) THEN -1 ELSE s[i]])
       IN SelectSeq(t, LAMBDA c : c # -1)

Neo1(s) == Convert(NeoMap, s)
Neo2(s) == Reduce(Choonpu, s)
Neo3(s) == Despace(s)
Neo4(s) == Eliminate(Tildes, s)
Neo5(s) == Compose(s)
(* The documented procedure ends with a further space elimination; it never      *)
(* changes anything (FinalSpacePassIsNoOp in Scan) but is kept here.        *)
Neologdn(s) == Despace(Neo5(Neo4(Neo3(Neo2(Neo1(s))))))

(* The output contract of neologdn. *)
NeoContract(t) ==
    /\ \A i \in 1..Len(t) : t[i] \notin Tildes
    /\ \A i \in 1..Len(t) - 1 : ~Composes(t[i], t[i + 1])
    /\ \A i \in 1..Len(t) : t[i] = SP => /\ 1 < i /\ i < Len(t)
                                         /\ IsAlnum(t[i - 1]) /\ IsAlnum(t[i + 1])

(* ---- one stage, many stages ---- *)
Apply(st, s) ==
    CASE st.k = "conv" -> Convert(st.m, s)
      [] st.k = "elim" -> Eliminate(st.s, s)
      [] st.k = "red"  -> Reduce(st.c, s)
      [] st.k = "dse"  -> Despace(s)
      [] st.k = "lig"  -> Ligate(st.m, s)
      [] st.k = "trim" -> TrimText(s)
      [] st.k = "neo"  -> Neologdn(s)

ApplyAll(stages, s) == FoldLeft(LAMBDA t, st : Apply(st, t), s, stages)

(* The texts between the stages: <<output of stage 1, ..., output of stage n>>. *)
Outputs(stages, s) ==
    FoldLeft(LAMBDA ts, st : Append(ts, Apply(st, IF ts = <<>> THEN s ELSE Last(ts))), <<>>, stages)

(* ---- reported positions ---- *)
(* A position is <<from, to, byte offset, byte length, char offset, char length>>, *)
(* all offsets zero-based and in the text the stage received.                     *)
Pos(from, to, b, bl, c, cl) == <<from, to, b, bl, c, cl>>

(* Byte offsets of the (increasing) positions K of s, found in one walk. *)
Offsets(s, K) ==
    LET step(acc, k) ==
            LET from == IF k = 1 THEN 1 ELSE K[k - 1]
            IN [b |-> acc.b + ByteLen(SubSeq(s, from, K[k] - 1)),
                o |-> Append(acc.o, acc.b + ByteLen(SubSeq(s, from, K[k] - 1)))]
    IN FoldLeft(step, [b |-> 0, o |-> <<>>], [k \in 1..Len(K) |-> k]).o

ConvPositions(m, s) ==
    LET d == DOMAIN m
        K == SelectSeq(Idx(s), LAMBDA i : s[i] \in d)
        B == Offsets(s, K)
    IN Force([j \in 1..Len(K) |->
                Pos(<<s[K[j]]>>, <<m[s[K[j]]]>>, B[j], U8(s[K[j]]), K[j] - 1, 1)])

(* Only runs longer than one are changed. *)
RedPositions(c, s) ==
    LET n  == Len(s)
        St == SelectSeq(Idx(s), LAMBDA i : s[i] = c /\ (i = 1 \/ s[i - 1] # c))
        En == SelectSeq(Idx(s), LAMBDA i : s[i] = c /\ (i = n \/ s[i + 1] # c))
        R  == SelectSeq(Idx(St), LAMBDA j : En[j] > St[j])
        B  == Offsets(s, Force([j \in 1..Len(R) |-> St[R[j]]]))
    IN Force([j \in 1..Len(R) |->
                LET l == En[R[j]] - St[R[j]] + 1
                IN Pos(Repeat(c, l), <<c>>, B[j], l * U8(c), St[R[j]] - 1, l)])

TrimPositions(s) ==
    LET a == FirstNonSpace(s)
        z == LastNonSpace(s)
        n == Len(s)
        spaces(k) == Repeat(SP, k)
    IN IF n = 0 THEN <<>>
       ELSE IF a = 0 THEN << Pos(spaces(n), <<>>, 0, n, 0, n) >>
       ELSE (IF a > 1 THEN << Pos(spaces(a - 1), <<>>, 0, a - 1, 0, a - 1) >> ELSE <<>>)
            \o (IF z < n THEN << Pos(spaces(n - z), <<>>, ByteLen(s) - (n - z), n - z, z, n - z) >>
                ELSE <<>>)

(* The other kinds report no positions. *)
Reports(st) == st.k \in {"conv", "red", "trim"}
Positions(st, s) ==
    CASE st.k = "conv" -> ConvPositions(st.m, s)
      [] st.k = "red"  -> RedPositions(st.c, s)
      [] st.k = "trim" -> TrimPositions(s)
      [] OTHER -> <<>>

(* ---- what positions must satisfy, whatever the stage ---- *)
(* Located in the input, by bytes and by characters, and equal to the original. *)
Sound(p, s) ==
    LET from == p[1]
        i    == p[5] + 1
    IN /\ p[6] = Len(from) /\ p[4] = ByteLen(from)
       /\ p[5] >= 0 /\ p[5] + p[6] <= Len(s)
       /\ SubSeq(s, i, p[5] + p[6]) = from
       /\ p[3] = ByteOff(s, i)

(* In increasing order and disjoint. *)
Ordered(ps) == \A k \in 1..Len(ps) - 1 : ps[k][5] + ps[k][6] <= ps[k + 1][5]

(* Replacing every reported piece gives the output. *)
Patch(s, ps) ==
    LET n == Len(ps)
        lo(k) == IF k = 1 THEN 1 ELSE ps[k - 1][5] + ps[k - 1][6] + 1
        hi(k) == IF k = n + 1 THEN Len(s) ELSE ps[k][5]
        step(acc, k) == acc \o SubSeq(s, lo(k), hi(k)) \o (IF k <= n THEN ps[k][2] ELSE <<>>)
    IN FoldLeft(step, <<>>, [k \in 1..(n + 1) |-> k])
==================================================================================
