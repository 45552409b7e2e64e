---------------------------------- MODULE Scan ----------------------------------
(* Every stage as a machine that reads its text one character at a time, with a   *)
(* small control state, next to the declarative meaning of Modifiers.tla.  TLC     *)
(* explores all texts over a representative alphabet up to a length and checks in   *)
(* every state that the machine, drained, agrees with the meaning (Online), that    *)
(* its reports are the specified ones (Reported) and the laws of each kind (Laws).  *)
(* Each state explored is also a behaviour to be replayed by the implementation:    *)
(* Emit prints it.                                                                   *)
EXTENDS Corr, Json

CONSTANTS Kinds,      \* the kinds explored in this run
          Extra       \* added to the length bound of each kind

VARIABLES kind, in, ctl, out, rep

vars == <<kind, in, ctl, out, rep>>

(* ---- elementary machines ---- *)
(*  [t |-> "conv", m], [t |-> "elim", s], [t |-> "red", c], [t |-> "dse"],          *)
(*  [t |-> "trim"], [t |-> "sub", from, to], [t |-> "comp"] (kana composition)       *)
(* Control states carry the byte and character offsets read so far.                 *)
At0 == [b |-> 0, n |-> 0]
Start(m) == CASE m.t = "conv" -> At0
              [] m.t = "elim" -> At0
              [] m.t = "red"  -> At0 @@ [run |-> 0]
              [] m.t = "dse"  -> At0 @@ [last |-> 0, pend |-> FALSE]
              [] m.t = "trim" -> At0 @@ [seen |-> FALSE, pend |-> 0]
              [] m.t = "sub"  -> At0 @@ [buf |-> <<>>]
              [] m.t = "comp" -> At0 @@ [buf |-> <<>>]

Step(q, c) == [q EXCEPT !.b = @ + U8(c), !.n = @ + 1]
Res(q, o, r) == [q |-> q, o |-> o, r |-> r]

RunReport(m, q) == IF q.run > 1
                   THEN << Pos(Repeat(m.c, q.run), <<m.c>>, q.b - q.run * U8(m.c), q.run * U8(m.c),
                               q.n - q.run, q.run) >>
                   ELSE <<>>
SpaceReport(q, k) == IF k > 0 THEN << Pos(Repeat(SP, k), <<>>, q.b - k, k, q.n - k, k) >> ELSE <<>>

RECURSIVE Substitute(_, _)
Substitute(m, buf) ==      \* [buf, o]: what can be decided about the buffered characters
    IF Len(buf) < Len(m.from) THEN [buf |-> buf, o |-> <<>>]
    ELSE IF SubSeq(buf, 1, Len(m.from)) = m.from
         THEN LET r == Substitute(m, SubSeq(buf, Len(m.from) + 1, Len(buf)))
              IN [r EXCEPT !.o = m.to \o @]
         ELSE LET r == Substitute(m, Tail(buf)) IN [r EXCEPT !.o = <<Head(buf)>> \o @]

Feed(m, q, c) ==
    CASE m.t = "conv" ->
            IF c \in DOMAIN m.m
            THEN Res(Step(q, c), <<m.m[c]>>, << Pos(<<c>>, <<m.m[c]>>, q.b, U8(c), q.n, 1) >>)
            ELSE Res(Step(q, c), <<c>>, <<>>)
      [] m.t = "elim" -> Res(Step(q, c), IF c \in m.s THEN <<>> ELSE <<c>>, <<>>)
      [] m.t = "red" ->
            IF c = m.c THEN Res([Step(q, c) EXCEPT !.run = @ + 1], IF q.run = 0 THEN <<c>> ELSE <<>>, <<>>)
            ELSE Res([Step(q, c) EXCEPT !.run = 0], <<c>>, RunReport(m, q))
      [] m.t = "dse" ->
            IF c = SP THEN Res([Step(q, c) EXCEPT !.pend = TRUE], <<>>, <<>>)
            ELSE Res([Step(q, c) EXCEPT !.pend = FALSE, !.last = c],
                     IF q.pend /\ IsAlnum(q.last) /\ IsAlnum(c) THEN <<SP, c>> ELSE <<c>>, <<>>)
      [] m.t = "trim" ->
            IF c = SP THEN Res([Step(q, c) EXCEPT !.pend = @ + 1], <<>>, <<>>)
            ELSE Res([Step(q, c) EXCEPT !.pend = 0, !.seen = TRUE],
                     (IF q.seen THEN Repeat(SP, q.pend) ELSE <<>>) \o <<c>>,
                     IF q.seen THEN <<>> ELSE SpaceReport(q, q.pend))
      [] m.t = "sub" ->
            LET r == Substitute(m, Append(q.buf, c))
            IN Res([Step(q, c) EXCEPT !.buf = r.buf], r.o, <<>>)
      [] m.t = "comp" ->        \* holds back one kana that may compose
            IF q.buf # <<>> /\ Composes(q.buf[1], c)
            THEN Res([Step(q, c) EXCEPT !.buf = <<>>], <<Composed(q.buf[1], c)>>, <<>>)
            ELSE IF c \in DOMAIN TenMap \cup DOMAIN MaruMap
                 THEN Res([Step(q, c) EXCEPT !.buf = <<c>>], q.buf, <<>>)
                 ELSE Res([Step(q, c) EXCEPT !.buf = <<>>], q.buf \o <<c>>, <<>>)

Drain(m, q) ==
    CASE m.t = "red"  -> Res(q, <<>>, RunReport(m, q))
      [] m.t = "trim" -> Res(q, <<>>, SpaceReport(q, q.pend))
      [] m.t \in {"sub", "comp"} -> Res(q, q.buf, <<>>)
      [] OTHER        -> Res(q, <<>>, <<>>)

(* ---- pipelines: what one machine puts out the next one reads ---- *)
RECURSIVE Push(_, _, _, _)
\* feed the characters cs to machine k of the pipeline ms in control states qs
Push(ms, qs, k, cs) ==
    IF k > Len(ms) THEN [qs |-> qs, o |-> cs, r |-> <<>>]
    ELSE LET step(acc, c) ==
                 LET f == Feed(ms[k], acc.qs[k], c)
                     n == Push(ms, [acc.qs EXCEPT ![k] = f.q], k + 1, f.o)
                 IN [qs |-> n.qs, o |-> acc.o \o n.o, r |-> acc.r \o f.r \o n.r]
         IN FoldLeft(step, [qs |-> qs, o |-> <<>>, r |-> <<>>], cs)

RECURSIVE DrainAll(_, _, _)
DrainAll(ms, qs, k) ==
    IF k > Len(ms) THEN [qs |-> qs, o |-> <<>>, r |-> <<>>]
    ELSE LET d == Drain(ms[k], qs[k])
             n == Push(ms, qs, k + 1, d.o)
             z == DrainAll(ms, n.qs, k + 1)
         IN [qs |-> z.qs, o |-> n.o \o z.o, r |-> d.r \o n.r \o z.r]

Pipeline(st) ==
    CASE st.k = "conv" -> << [t |-> "conv", m |-> st.m] >>
      [] st.k = "elim" -> << [t |-> "elim", s |-> st.s] >>
      [] st.k = "red"  -> << [t |-> "red", c |-> st.c] >>
      [] st.k = "dse"  -> << [t |-> "dse"] >>
      [] st.k = "trim" -> << [t |-> "trim"] >>
      [] st.k = "lig"  -> LET o == LigOrder(st.m)
                          IN Force([j \in 1..Len(o) |-> [t |-> "sub", from |-> o[j], to |-> st.m[o[j]]]])
      [] st.k = "neo"  -> << [t |-> "conv", m |-> NeoMap], [t |-> "red", c |-> Choonpu], [t |-> "dse"],
                             [t |-> "elim", s |-> Tildes], [t |-> "comp"], [t |-> "dse"] >>

(* ---- the kinds explored ---- *)
A == 97  B == 98  C == 99  X == 120  Y == 121  Z == 122
Hi == 12354  \* あ
Ka == 12363  Ga == 12364  Ha == 12399
Grin == 128512
Tab == 9  Wide == 12288

Lig(S) == [k |-> "lig", m |-> [f \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = f)[2]]]
Red(c) == [k |-> "red", c |-> c]
Conv(S) == [k |-> "conv", m |-> Pairs(S)]

\* items with a repeated source, an empty source, an empty target, a long source
OddItems == << << <<A>>, <<X>> >>, << <<>>, <<Z>> >>, << <<B>>, <<>> >>, << <<A>>, <<Y>> >>,
               << <<C>>, <<B>> >>, << <<X>>, <<A>> >>, << <<Y, Z>>, <<Hi, A>> >> >>

StageFor ==
  [ swap   |-> Conv({<<A, B>>, <<B, A>>, <<Grin, Hi>>, <<Hi, Grin>>}),
    chain  |-> Conv({<<A, B>>, <<B, C>>, <<C, Hi>>, <<SP, A>>}),
    odd    |-> ConvOf(OddItems),
    elim   |-> [k |-> "elim", s |-> {A, Hi, SP}],
    elimx  |-> [k |-> "elim", s |-> {Grin}],
    redx   |-> Red(Choonpu),
    reda   |-> Red(A),
    redg   |-> Red(Grin),
    reds   |-> Red(SP),
    dse    |-> [k |-> "dse"],
    trim   |-> [k |-> "trim"],
    marks  |-> Lig({<< <<Ka, Ten>>, <<Ga>> >>, << <<Ha, Maru>>, <<Ha + 2>> >>}),
    nest   |-> Lig({<< <<A, B>>, <<X>> >>, << <<B>>, <<Y>> >>, << <<A, B, C>>, <<Z>> >>, << <<X, X>>, <<A>> >>}),
    wide   |-> Lig({<< <<Hi>>, <<A, B>> >>, << <<A, B>>, <<B, A>> >>, << <<B, B, B, B>>, <<Hi>> >>}),
    gone   |-> Lig({<< <<A, B>>, <<>> >>, << <<C>>, <<A>> >>}),
    grow   |-> Lig({<< <<A>>, <<A, A>> >>, << <<B, A>>, <<A, B>> >>}),
    tie    |-> Lig({<< <<A, B>>, <<B, C>> >>, << <<B, C>>, <<A, B>> >>, << <<C, A>>, <<A, B>> >>}),
    neo    |-> [k |-> "neo"],
    neox   |-> [k |-> "neo"],
    preset |-> [k |-> "conv", m |-> PresetMap] ]

AlphabetFor ==
  [ swap   |-> {A, B, C, Hi, Grin},
    chain  |-> {A, B, C, SP, Hi},
    odd    |-> {A, B, C, X, Y},
    elim   |-> {A, B, Hi, Ka, SP},
    elimx  |-> {A, Grin, Grin + 1},
    redx   |-> {Choonpu, A, SP, 65392},
    reda   |-> {A, 65, Hi},
    redg   |-> {Grin, Hi, Grin + 1},
    reds   |-> {SP, Tab, Wide, A},
    dse    |-> {SP, A, 57, 90, Hi, Tab, Wide},
    trim   |-> {SP, A, Tab, Wide},
    marks  |-> {Ka, Ha, Ten, Maru, Ga},
    nest   |-> {A, B, C, X},
    wide   |-> {A, B, Hi},
    gone   |-> {A, B, C},
    grow   |-> {A, B},
    tie    |-> {A, B, C},
    neo    |-> {SP, A, 65313, Ka, Ha, Ten, Maru, Choonpu, 65123, 126, 12316, 45, 65309, Wide, 65398},
    neox   |-> {SP, 57, Choonpu, 126, Ka, Ten},
    preset |-> {65, 65313, 126, 65374, 12316, 65509, 65398, Ten, 65438, Wide, SP} ]

LengthFor ==
  [ swap |-> 5, chain |-> 5, odd |-> 5, elim |-> 5, elimx |-> 6, redx |-> 6, reda |-> 7, redg |-> 7,
    reds |-> 6, dse |-> 5, trim |-> 7, marks |-> 5, nest |-> 6, wide |-> 7, gone |-> 7, grow |-> 9,
    tie |-> 7, neo |-> 4, neox |-> 6, preset |-> 4 ]

St == StageFor[kind]
Ms == Pipeline(St)

Init == /\ kind \in Kinds
        /\ in = <<>> /\ out = <<>> /\ rep = <<>>
        /\ ctl = [j \in 1..Len(Ms) |-> Start(Ms[j])]

Read(c) == LET p == Push(Ms, ctl, 1, <<c>>)
           IN /\ in' = Append(in, c)
              /\ ctl' = p.qs
              /\ out' = out \o p.o
              /\ rep' = rep \o p.r
              /\ UNCHANGED kind

Next == /\ Len(in) < LengthFor[kind] + Extra
        /\ \E c \in AlphabetFor[kind] : Read(c)

Spec == Init /\ [][Next]_vars

\* the text alone identifies a state: everything else is a function of it
View == <<kind, in>>

(* ---- what is checked ---- *)
End == DrainAll(Ms, ctl, 1)
Output == out \o End.o
Meaning == Apply(St, in)

\* a hand-over never takes back what it has put out
Online == Output = Meaning

Reported ==
    Reports(St) =>
        LET ps == rep \o End.r
            wanted == Positions(St, in)
        IN /\ ps = wanted
           /\ \A j \in 1..Len(ps) : Sound(ps[j], in)
           /\ Ordered(ps)
           /\ Patch(in, ps) = Meaning

Others(s, S) == SelectSeq(s, LAMBDA c : c \notin S)

Laws ==
    LET t == Meaning
    IN CASE St.k = "conv" -> /\ Len(t) = Len(in)
                             /\ \A j \in 1..Len(in) : t[j] = ConvChar(St.m, in[j])
         [] St.k = "elim" -> /\ SetOfChars(t) \cap St.s = {}
                             /\ Others(t, St.s) = Others(in, St.s)
                             /\ Apply(St, t) = t
         [] St.k = "red"  -> /\ \A j \in 1..Len(t) - 1 : ~(t[j] = St.c /\ t[j + 1] = St.c)
                             /\ Others(t, {St.c}) = Others(in, {St.c})
                             /\ (\A j \in 1..Len(in) - 1 : ~(in[j] = St.c /\ in[j + 1] = St.c)) => t = in
                             /\ Apply(St, t) = t
         [] St.k = "dse"  -> /\ Others(t, {SP}) = Others(in, {SP})
                             /\ \A j \in 1..Len(t) : t[j] = SP =>
                                   /\ 1 < j /\ j < Len(t) /\ IsAlnum(t[j - 1]) /\ IsAlnum(t[j + 1])
                             /\ Apply(St, t) = t
         [] St.k = "trim" -> /\ \E i \in 0..Len(in), j \in 0..Len(in) :
                                   /\ i + Len(t) + j = Len(in)
                                   /\ in = Repeat(SP, i) \o t \o Repeat(SP, j)
                             /\ t # <<>> => Head(t) # SP /\ Last(t) # SP
                             /\ Apply(St, t) = t
         [] St.k = "lig"  -> \* a text without any source is left alone
                             (\A f \in DOMAIN St.m : ~Occurs(in, f)) => t = in
         [] St.k = "neo"  -> /\ NeoContract(t)
                             \* composition in one pass is the ligature stage
                             /\ Neo5(in) = LigateBy(KanaLigOrder, KanaLigatures, in)
                             \* the last space elimination changes nothing
                             /\ t = Neo5(Neo4(Neo3(Neo2(Neo1(in)))))

PresetLaws == kind = "preset" => Apply(St, Meaning) = Meaning

Emit == PrintT(ToJson([k |-> kind, in |-> in, out |-> Meaning,
                       ps |-> IF Reports(St) THEN Positions(St, in) ELSE <<>>]))
=================================================================================
