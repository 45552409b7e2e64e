---------------------------------- MODULE Threads ----------------------------------
(* Several threads normalize through one shared instance.  A call reads its text,    *)
(* applies one stage after the other to a buffer of its own and returns; the steps of *)
(* different calls interleave freely.  Hidden says what the instance may keep between *)
(* steps:                                                                              *)
(*   "none"   nothing: the specified library                                           *)
(*   "exact"  a memory of whole questions and their answers                            *)
(*   "weak"   a memory that recognizes a question by its length only                   *)
(*   "buffer" one work buffer for all calls                                            *)
(* Pure must hold for the first two and TLC must refute it for the others (checked by  *)
(* the driver): the property is not vacuous.                                            *)
EXTENDS Modifiers, Json

CONSTANTS Thread, Calls, Hidden,
          Chosen     \* which of the texts occur

VARIABLES calls,     \* thread -> texts still to be normalized
          now,       \* thread -> [text, buf, pc] or Idle
          done,      \* answers: set of <<text, answer>>
          memory,    \* what Hidden keeps
          trail      \* order in which calls were started (for replay)

tvars == <<calls, now, done, memory, trail>>

Stages == << [k |-> "conv", m |-> Pairs({<<97, 98>>, <<98, 32>>})], [k |-> "trim"],
             [k |-> "red", c |-> 98] >>
\* many of one length, prefixes and extensions of one another, equal in one stage's output
Texts == << <<97, 98>>, <<97, 99>>, <<97, 97, 99>>, <<>>, <<98, 97>>, <<98, 98, 97>>, <<99, 98>> >>

Idle == [pc |-> 0]
Recall(x) == CASE Hidden = "exact" -> {m \in memory : m[1] = x}
               [] Hidden = "weak"  -> {m \in memory : Len(m[1]) = Len(x)}
               [] OTHER -> {}

Init == /\ calls = [t \in Thread |-> Calls]
        /\ now = [t \in Thread |-> Idle]
        /\ done = {} /\ trail = <<>>
        /\ memory = (IF Hidden = "buffer" THEN <<>> ELSE {})

Begin(t) == /\ now[t] = Idle /\ calls[t] > 0
            /\ \E k \in Chosen :
                  /\ IF Recall(Texts[k]) # {}
                     THEN /\ done' = done \cup {<<Texts[k], (CHOOSE m \in Recall(Texts[k]) : TRUE)[2]>>}
                          /\ UNCHANGED <<now, memory>>
                     ELSE /\ now' = [now EXCEPT ![t] = [pc |-> 1, text |-> Texts[k], buf |-> Texts[k]]]
                          /\ memory' = (IF Hidden = "buffer" THEN Texts[k] ELSE memory)
                          /\ UNCHANGED done
                  /\ trail' = Append(trail, <<t, k>>)
            /\ calls' = [calls EXCEPT ![t] = @ - 1]

Work(t) == /\ now[t] # Idle /\ now[t].pc <= Len(Stages)
           /\ LET b == IF Hidden = "buffer" THEN memory ELSE now[t].buf
                  o == Apply(Stages[now[t].pc], b)
              IN /\ now' = [now EXCEPT ![t].buf = o, ![t].pc = @ + 1]
                 /\ memory' = (IF Hidden = "buffer" THEN o ELSE memory)
           /\ UNCHANGED <<calls, done, trail>>

Finish(t) == /\ now[t] # Idle /\ now[t].pc > Len(Stages)
             /\ LET o == IF Hidden = "buffer" THEN memory ELSE now[t].buf
                IN /\ done' = done \cup {<<now[t].text, o>>}
                   /\ memory' = (IF Hidden \in {"exact", "weak"} THEN memory \cup {<<now[t].text, o>>} ELSE memory)
             /\ now' = [now EXCEPT ![t] = Idle]
             /\ UNCHANGED <<calls, trail>>

Next == \E t \in Thread : Begin(t) \/ Work(t) \/ Finish(t)
Spec == Init /\ [][Next]_tvars /\ \A t \in Thread : WF_tvars(Begin(t) \/ Work(t) \/ Finish(t))

Hide == <<calls, now, done, memory>>

\* every answer is the function of the stages and the text
Pure == \A d \in done : d[2] = ApplyAll(Stages, d[1])
\* so equal questions have equal answers
OneAnswer == \A d, e \in done : d[1] = e[1] => d[2] = e[2]
\* and every call returns
Returns == \A t \in Thread : now[t] # Idle ~> now[t] = Idle

(* One thread: the sequences of calls, for replay on several instances built alike. *)
Table1 == << << <<97>>, <<98>> >>, << <<98>>, <<32>> >> >>
Emit == (\A t \in Thread : now[t] = Idle /\ calls[t] = 0) =>
          PrintT(ToJson(Force([j \in 1..Len(trail) |->
             [text |-> Texts[trail[j][2]], out |-> ApplyAll(Stages, Texts[trail[j][2]])]])))
====================================================================================
