---------------------------------- MODULE Hist ----------------------------------
(* All short histories of calls on two instances.  The model checks that a call    *)
(* changes only the instance it is made on and only ever adds one stage at its     *)
(* end; every complete history, with what every instance must answer after every    *)
(* call, is printed for replay.                                                      *)
EXTENDS Chanoma, Json

CONSTANTS Ids,        \* the instances
          Depth,      \* calls in a history
          Report      \* "norm": plain results; "recs": with the record of every stage

VARIABLE h            \* the history: operations and expected answers

hvars == <<inst, tab, files, env, h>>

a == 97  b == 98  c == 99

(* Tables, stages and the probe are chosen so that no two stages commute. *)
Table1 == << << <<a>>, <<b>> >>, << <<b>>, <<a>> >>, << <<65>>, <<12363>> >> >>               \* a -> b, A -> か
Table2 == << << <<b>>, <<c>> >>, << <<c>>, <<b>> >>, << <<12363>>, <<a>> >>, << <<32>>, <<126>> >> >>
Probes == << <<a, b, c, 12288, 65313, 32, 12363, 12443, 126, 12540, 65123>>,      \* abcＡ か゛~ー﹣
             <<>>,
             <<12540, 32, 12540, 12363, 32, 12443, 12443, 126, 12443>>,           \* ー ーか ゛゛~゛
             <<32, 65, 32, 32, b, 12363, 12443, 32>> >>

Doc == [y |-> "map", m |-> << <<[y |-> "str", s |-> KModifiers],
         [y |-> "map", m |-> <<
            <<[y |-> "str", s |-> KLigature],
              [y |-> "map", m |-> << <<[y |-> "str", s |-> <<b, c>>], [y |-> "str", s |-> <<a, 65313>>]>> >>]>>,
            <<[y |-> "str", s |-> KTrim], [y |-> "null"]>> >>] >> >>]

Op(o) == [op |-> o]
NormOp(i, s) == [op |-> "norm", i |-> i, text |-> s, want |-> [p |-> 0, out |-> ApplyAll(inst'[i], s)]]
RecsOp(i, s) == LET O == Outputs(inst'[i], s)
                IN [op |-> "normp", i |-> i, text |-> s,
                    want |-> [p |-> 0, recs |-> O, final |-> IF O = <<>> THEN s ELSE Last(O)]]
\* what every live instance answers now
Answers ==
    LET L == SetToSortSeq(DOMAIN inst', LAMBDA x, y : x < y)
        per(i) == [k \in 1..Len(Probes) |-> IF Report = "norm" THEN NormOp(i, Probes[k])
                                            ELSE RecsOp(i, Probes[k])]
    IN FoldLeft(LAMBDA acc, i : acc \o per(i), <<>>, L)

Log(op) == h' = Append(h, op) \o Answers

HInit ==
    /\ inst = Nothing /\ env = InitEnv
    /\ tab = [t \in {1, 2} |-> IF t = 1 THEN Table1 ELSE Table2]
    /\ files = [p \in {"w/f.yaml"} |-> [t |-> "file", f |-> "yaml", doc |-> Doc]]
    /\ h = << [op |-> "reset"], [op |-> "tlit", t |-> 1, items |-> Table1],
              [op |-> "tlit", t |-> 2, items |-> Table2],
              [op |-> "file", path |-> "w/f.yaml", x |-> files["w/f.yaml"]] >>

Create(i) ==
    \/ New(i)         /\ Log([op |-> "new", i |-> i])
    \/ Preset(i)      /\ Log([op |-> "preset", i |-> i])
    \/ NeologdnNew(i) /\ Log([op |-> "neologdn", i |-> i])
    \/ FromTable(i, 1) /\ Log([op |-> "from_table", i |-> i, t |-> 1])
    \/ FromConfigFile(i, "w/f.yaml", "yaml")
                      /\ Log([op |-> "cfg", i |-> i, path |-> "w/f.yaml", ext |-> "yaml"])

Extend(i) ==
    /\ i \in DOMAIN inst
    /\ \/ UsePreset(i)   /\ Log([op |-> "use_preset", i |-> i])
       \/ UseNeologdn(i) /\ Log([op |-> "use_neologdn", i |-> i])
       \/ \E t \in {1, 2} : AddTable(i, t) /\ Log([op |-> "add_table", i |-> i, t |-> t])

\* calls logged so far, not counting the answers
Calls == Len(SelectSeq(h, LAMBDA o : o.op \notin {"norm", "normp"})) - 4

HNext == /\ Calls < Depth
         /\ \E i \in Ids : IF i \in DOMAIN inst THEN Extend(i)
                           ELSE \* instances come into being in order
                                (\A j \in Ids : j < i => j \in DOMAIN inst) /\ Create(i)

HSpec == HInit /\ [][HNext]_hvars

(* ---- what is checked ---- *)
Isolated == [][\A i \in DOMAIN inst : inst'[i] # inst[i] =>
                  /\ \A j \in DOMAIN inst \ {i} : inst'[j] = inst[j]
                  /\ Len(inst'[i]) = Len(inst[i]) + 1
                  /\ SubSeq(inst'[i], 1, Len(inst[i])) = inst[i]]_hvars
OneMore == [][Len(h') > Len(h)]_hvars

\* the output is the last record, each record a function of the one before
Composed2 == \A i \in DOMAIN inst : \A k \in 1..Len(Probes) :
                LET O == Outputs(inst[i], Probes[k])
                IN /\ Len(O) = Len(inst[i])
                   /\ ApplyAll(inst[i], Probes[k]) = (IF O = <<>> THEN Probes[k] ELSE Last(O))
                   /\ \A n \in 1..Len(O) :
                         O[n] = Apply(inst[i][n], IF n = 1 THEN Probes[k] ELSE O[n - 1])

\* the stages differ observably: no two of them commute on some probe, except that
\* neologdn contains all of the preset but the equals sign and so commutes with it
ASSUME NoneCommute ==
    LET S == << PresetStage, NeoStage, ConvOf(Table1), ConvOf(Table2) >>
    IN \A m, n \in 1..4 : m < n /\ <<m, n>> # <<1, 2>> =>
          \E k \in 1..Len(Probes) :
             Apply(S[m], Apply(S[n], Probes[k])) # Apply(S[n], Apply(S[m], Probes[k]))

\* and all but the preset change something again when they are repeated
ASSUME NoneIdempotent ==
    LET S == << NeoStage, ConvOf(Table1), ConvOf(Table2) >>
    IN \A m \in 1..3 : \E k \in 1..Len(Probes) :
          Apply(S[m], Apply(S[m], Probes[k])) # Apply(S[m], Probes[k])

Emit == Calls = Depth => PrintT(ToJson(h))
=================================================================================
