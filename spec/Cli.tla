----------------------------------- MODULE Cli -----------------------------------
(* Uses of the command-line tool: a configuration state, an argument list built    *)
(* token by token, and standard input.  The argument list is also read by a machine *)
(* (one token at a time), which the model compares with its declarative meaning.     *)
(* Every complete use is printed as a program for the real tool, together with the    *)
(* library calls that make the instance the tool must behave like.                     *)
EXTENDS Chanoma, Json

CONSTANTS MaxArgs

VARIABLES step, args, flags, stdin
cvars == <<inst, tab, files, env, step, args, flags, stdin>>

(* ---- tokens ---- *)
Short == {"-p", "-n", "-d", "-pn", "-np", "-dp", "-nd", "-npd"}
Long == {"--preset", "--neologdn", "--debug"}
Sets(tok) == CASE tok \in {"-p", "--preset"} -> {"p"} [] tok \in {"-n", "--neologdn"} -> {"n"}
               [] tok \in {"-d", "--debug"} -> {"d"} [] tok \in {"-pn", "-np"} -> {"p", "n"}
               [] tok = "-dp" -> {"d", "p"} [] tok = "-nd" -> {"d", "n"} [] tok = "-npd" -> {"n", "p", "d"}
               [] OTHER -> {}
\* texts by name: the arguments that are no flags
TextOf == [ t1 |-> <<65, 65313, 32, 97, 98, 32, 12363, 12443, 126, 12540, 12540>>,    \* AＡ ab か゛~ーー
            t2 |-> <<32, 98, 32, 32, 97, 10, 97, 32>>,
            t3 |-> <<>>,
            t4 |-> <<10, 97, 13, 10>>,
            d1 |-> <<45, 112>>,                                                        \* -p
            d2 |-> <<45, 45, 97>> ]                                                    \* --a
Plain == {"t1", "t2", "t3", "t4"}      \* may stand anywhere
Dashed == {"d1", "d2"}           \* only after --
\* what is no use of the tool: no flag of it, or a second text
Wrong == {"-x", "-pq", "--bogus", "--presets", "--neologdns"}
Stdins == { <<>>, <<10>>, TextOf.t1, TextOf.t1 \o <<10>>, <<97, 98, 13, 10>>, <<97, 10, 98, 10>>,
            <<32, 97, 10, 10>>, <<10, 98>>, TextOf.t2, <<12363, 12443, 13>> }

(* ---- configurations: a file that shows the order relative to preset and neologdn ---- *)
Str(x) == [y |-> "str", s |-> x]
Map1(v) == [y |-> "map", m |-> v]
DocA == [t |-> "file", f |-> "yaml", doc |->
          Map1(<< <<Str(KItems), Map1(<< <<Str(<<65313>>), Str(<<97>>)>>, <<Str(<<12363>>), Str(<<65>>)>> >>)>>,
                  <<Str(KModifiers), Map1(<< <<Str(KReducer), Str(<<97>>)>> >>)>> >>)]
CsvA == [t |-> "file", f |-> "csv", rows |-> << <<KFrom, KTo>>, << <<98>>, <<12540>> >>, << <<32>>, <<97>> >> >>]
Bad  == [t |-> "file", f |-> "bad"]
One(x, f) == [q \in {x} |-> f]
Two(x, f, y, g) == [q \in {x, y} |-> IF q = x THEN f ELSE g]
Unset == [set |-> FALSE]
Configs == {
    [fs |-> Nothing, rc |-> Unset],
    [fs |-> One("h/.chanomarc.yml", DocA), rc |-> Unset],
    [fs |-> Two("h/.config/chanoma/chanomarc.csv", CsvA, "w/chanomarc.yaml", DocA), rc |-> Unset],
    [fs |-> One("o/x.yaml", DocA), rc |-> [set |-> TRUE, p |-> "o/x.yaml", e |-> "yaml"]],
    [fs |-> Two("o/x.csv", CsvA, "w/chanomarc.yaml", DocA), rc |-> [set |-> TRUE, p |-> "o/x.csv", e |-> "csv"]],
    [fs |-> Nothing, rc |-> [set |-> TRUE, p |-> "o/none.yaml", e |-> "yaml"]],
    [fs |-> Two("h/chanomarc.csv", CsvA, "w/.chanomarc.yaml", Bad), rc |-> Unset],
    [fs |-> One("o/x.csv", Bad), rc |-> [set |-> TRUE, p |-> "o/x.csv", e |-> "csv"]] }

(* ---- meaning of an argument list ---- *)
Ends(a) == SelectSeq(Idx(a), LAMBDA i : a[i] = "--")
Cutoff(a) == IF Ends(a) = <<>> THEN Len(a) + 1 ELSE Head(Ends(a))
Before(a) == SubSeq(a, 1, Cutoff(a) - 1)
Flags(a) == UNION {Sets(Before(a)[i]) : i \in 1..Len(Before(a))}
IsFlag(t) == t \in Short \cup Long
Inputs(a) == SelectSeq(Before(a), LAMBDA t : ~IsFlag(t) /\ t \notin Wrong)
             \o (IF Cutoff(a) < Len(a) THEN SubSeq(a, Cutoff(a) + 1, Len(a)) ELSE <<>>)

Clear == [p |-> FALSE, n |-> FALSE, d |-> FALSE, ended |-> FALSE, has |-> FALSE, input |-> <<>>, wrong |-> FALSE]

CInit == /\ inst = Nothing /\ tab = Nothing
         /\ \E c \in Configs : files = c.fs /\ env = [InitEnv EXCEPT !.rc = c.rc]
         /\ step = "args" /\ args = <<>> /\ flags = Clear /\ stdin = <<>>

Keep == UNCHANGED <<inst, tab, files, env, stdin, step>>

\* each flag at most once, at most one input
GiveFlag(t) == /\ ~flags.ended
               /\ \A f \in Sets(t) : ~(CASE f = "p" -> flags.p [] f = "n" -> flags.n [] f = "d" -> flags.d)
               /\ flags' = [flags EXCEPT !.p = @ \/ "p" \in Sets(t), !.n = @ \/ "n" \in Sets(t), !.d = @ \/ "d" \in Sets(t)]
GiveEnd == ~flags.ended /\ flags' = [flags EXCEPT !.ended = TRUE]
GiveText(t) == ~flags.has /\ (t \in Dashed => flags.ended)
               /\ flags' = [flags EXCEPT !.has = TRUE, !.input = TextOf[t]]

GiveWrong(t) == /\ IF t \in Wrong THEN ~flags.ended ELSE flags.has
                /\ flags' = [flags EXCEPT !.wrong = TRUE]

AddArg == /\ step = "args" /\ Len(args) < MaxArgs /\ ~flags.wrong /\ Keep
          /\ \E t \in Short \cup Long \cup {"--"} \cup Plain \cup Dashed \cup Wrong :
                /\ args' = Append(args, t)
                /\ IF IsFlag(t) THEN GiveFlag(t) ELSE IF t = "--" THEN GiveEnd
                   ELSE IF t \in Wrong \/ (flags.has /\ t = "t2") THEN GiveWrong(t) ELSE GiveText(t)
\* with an argument standard input is not looked at: one text is enough to show it
GiveStdin == /\ step = "args" /\ step' = "run" /\ UNCHANGED <<inst, tab, files, env, args, flags>>
             /\ stdin' \in (IF flags.has THEN {TextOf.t1} ELSE IF Len(args) > 2 THEN {<<97, 10, 98, 10>>} ELSE Stdins)
CNext == AddArg \/ GiveStdin
CSpec == CInit /\ [][CNext]_cvars

(* ---- what is checked ---- *)
Stages == CliStages(flags.p, flags.n)
Line == IF flags.has THEN flags.input ELSE FirstLine(stdin)

Parsed ==
    /\ flags.p = ("p" \in Flags(args)) /\ flags.n = ("n" \in Flags(args)) /\ flags.d = ("d" \in Flags(args))
    /\ flags.has = (Inputs(args) # <<>>)
    /\ flags.has => flags.input = TextOf[Inputs(args)[1]]
    /\ flags.wrong = (Len(Inputs(args)) > 1 \/ \E i \in 1..Len(Before(args)) : Before(args)[i] \in Wrong)
\* the order of the flags does not matter, the configuration is always first
OrderFree ==
    step = "run" =>
      LET c == Loaded(files, env.home, env.cwd, env.rc)
      IN /\ Stages.ok = c.ok
         /\ c.ok => /\ SubSeq(Stages.v, 1, Len(c.v)) = c.v
                    /\ Len(Stages.v) = Len(c.v) + (IF flags.p THEN 1 ELSE 0) + (IF flags.n THEN 1 ELSE 0)
                    /\ flags.n => Stages.v[Len(Stages.v)] = NeoStage
OneLine == step = "run" /\ ~flags.has => /\ \A i \in 1..Len(Line) : Line[i] # 10
                                         /\ SubSeq(stdin, 1, Len(Line)) = Line
                                         /\ Len(Line) < Len(stdin) => stdin[Len(Line) + 1] = 10

ArgText(t) == IF t \in DOMAIN TextOf THEN [x |-> TextOf[t]] ELSE [s |-> t]
FileOps == LET S == SetToSeq(DOMAIN files)
           IN Force([k \in 1..Len(S) |-> [op |-> "file", path |-> S[k], x |-> files[S[k]]]])
If(b, o) == IF b THEN <<o>> ELSE <<>>
Emit == step = "run" =>
    PrintT(ToJson(FileOps
        \o << [op |-> "env", home |-> env.home, cwd |-> env.cwd, rc |-> env.rc, debug |-> FALSE],
              [op |-> "load_rc", i |-> 1] >>
        \o If(Stages.ok /\ flags.p, [op |-> "use_preset", i |-> 1])
        \o If(Stages.ok /\ flags.n, [op |-> "use_neologdn", i |-> 1])
        \o << [op |-> "cli", i |-> 1, ok |-> Stages.ok /\ ~flags.wrong, wrong |-> flags.wrong, preset |-> flags.p, neo |-> flags.n, debug |-> flags.d,
               hasinput |-> flags.has, input |-> flags.input, stdin |-> stdin,
               tokens |-> [j \in 1..Len(args) |-> ArgText(args[j])]] >>))
==================================================================================
