------------------------------------ MODULE Py ------------------------------------
(* Histories of the Python binding: tables made with every combination of sources,   *)
(* additions to them, instances made with every combination of arguments in several   *)
(* surroundings.  Next to every Python object stands the same object of the Rust       *)
(* library (id + 100), made by the calls the constructor stands for; after every call   *)
(* every instance of either kind normalizes the probes.                                 *)
EXTENDS Chanoma, Json

CONSTANTS Depth, Rich      \* calls; how many of them are freely chosen

VARIABLES h, calls, rich
pvars == <<inst, tab, files, env, h, calls, rich>>

Str(x) == [y |-> "str", s |-> x]
Map1(v) == [y |-> "map", m |-> v]
Yml == [t |-> "file", f |-> "yaml", doc |->
          Map1(<< <<Str(KItems), Map1(<< <<Str(<<65313>>), Str(<<97>>)>>, <<Str(<<12363>>), Str(<<65>>)>> >>)>>,
                  <<Str(KModifiers), Map1(<< <<Str(KReducer), Str(<<97>>)>> >>)>> >>)]
Csv == [t |-> "file", f |-> "csv", rows |-> << <<KFrom, KTo>>, << <<98>>, <<12540>> >>, << <<32>>, <<97>> >> >>]
BadF == [t |-> "file", f |-> "bad"]
Given == [p \in {"o/g.csv", "o/g.yaml", "o/b.csv", "o/b.yaml"} |->
            CASE p = "o/g.csv" -> Csv [] p = "o/g.yaml" -> Yml [] OTHER -> BadF]

Unset == [set |-> FALSE]
F(p, e) == [set |-> TRUE, p |-> p, e |-> e]
Auto(p, f) == [q \in DOMAIN Given \cup {p} |-> IF q = p THEN f ELSE Given[q]]
Around == { [fs |-> Given, rc |-> Unset],
            [fs |-> Auto("h/.chanomarc.csv", Csv), rc |-> Unset],
            [fs |-> Auto("w/chanomarc.yaml", BadF), rc |-> Unset],
            [fs |-> Auto("h/.chanomarc.csv", Csv), rc |-> F("o/g.yaml", "yaml")],
            [fs |-> Given, rc |-> F("o/none.yaml", "yaml")] }
Cfgs == {Unset, F("o/g.csv", "csv"), F("o/g.yaml", "yaml"), F("o/b.yaml", "yaml"), F("o/none.csv", "csv"), F("o/g", "")}
Csvs == {Unset, F("o/g.csv", "csv"), F("o/b.csv", "csv")}
Yamls == {Unset, F("o/g.yaml", "yaml"), F("o/b.yaml", "yaml"), F("o/none.yaml", "yaml")}
Lits == { [c |-> "lit", items |-> << << <<97>>, <<98>> >>, << <<32>>, <<99>> >> >>],
          [c |-> "lit", items |-> << << <<12363>>, <<65313>> >>, << <<97>>, <<65398>> >> >>],
          [c |-> "set", name |-> "digits"], [c |-> "set", name |-> "kanas"],
          [c |-> "set", name |-> "punctuations"], [c |-> "set", name |-> "alphabets"] }
SetNamed(n) == CASE n = "digits" -> DigitItems [] n = "alphabets" -> AlphabetItems
                 [] n = "punctuations" -> PunctuationItems [] n = "kanas" -> KanaItems
Of(c) == IF c.c = "lit" THEN c.items ELSE SetNamed(c.name)

Probes == << <<65, 65313, 97, 97, 98, 32, 98, 32, 12363, 12443, 65297, 12540, 12540, 65398, 65439, 126, 65308>>,
             <<32, 32, 97, 32, 12363, 98, 97, 65297, 65289, 32>> >>

Init0 == /\ inst = Nothing /\ tab = Nothing /\ calls = 0 /\ rich = 0
         /\ \E a \in Around : files = a.fs /\ env = [InitEnv EXCEPT !.rc = a.rc]
         /\ LET S == SetToSeq(DOMAIN files)
            IN h = Force([k \in 1..Len(S) |-> [op |-> "file", path |-> S[k], x |-> files[S[k]]]])
                   \o << [op |-> "env", home |-> env.home, cwd |-> env.cwd, rc |-> env.rc, debug |-> FALSE] >>

Asked(I) == LET L == SetToSortSeq({i \in I : i < 100}, LAMBDA x, y : x < y)
            IN FoldLeft(LAMBDA acc, i : acc \o [k \in 1..Len(Probes) |->
                            [op |-> "pynorm", i |-> i, ref |-> i + 100, text |-> Probes[k]]], <<>>, L)
Log(ops) == /\ h' = h \o ops \o Asked(DOMAIN inst')
            /\ calls' = calls + 1
If(b, o) == IF b THEN <<o>> ELSE <<>>
Spend(plain) == /\ (plain \/ rich < Rich)
                /\ rich' = (IF plain THEN rich ELSE rich + 1)

TabNew(t, preset, csv, yaml) ==
    LET c == IF csv.set THEN ItemsIn(files, csv.p, "csv") ELSE Ok(<<>>)
        y == IF yaml.set THEN ItemsIn(files, yaml.p, "yaml") ELSE Ok(<<>>)
    IN /\ Spend(~preset /\ ~csv.set /\ yaml = F("o/g.yaml", "yaml"))
       /\ IF c.ok /\ y.ok THEN SetTab(t, Plus(Plus(IF preset THEN PresetItems ELSE <<>>, c.v), y.v))
          ELSE UNCHANGED vars
       /\ Log(<< [op |-> "pytabnew", t |-> t, preset |-> preset, csv |-> csv, yaml |-> yaml] >>)
TabAdd(t, c) == /\ Spend(c.c = "lit" /\ c.items[1][1] = <<97>>)
                /\ SetTab(t, Plus(tab[t], Of(c)))
                /\ Log(<< [op |-> "pytabadd", t |-> t, c |-> c] >>)

Make(i, cfg, rc, table, preset, neo) ==
    LET st == PyStages(cfg, rc, table, preset, neo)
        r == i + 100
    IN /\ Spend(~cfg.set /\ ~rc /\ ~preset /\ neo)
       /\ IF st.ok THEN /\ inst' = Put(Put(inst, i, st.v), r, st.v)
                        /\ UNCHANGED <<files, env>>
                        /\ tab' = (IF table.set THEN Put(tab, 100 + i, tab[table.t]) ELSE tab)
          ELSE UNCHANGED vars
       /\ Log(<< [op |-> "pynew", i |-> i, cfg |-> cfg, rc |-> rc, table |-> table, preset |-> preset, neo |-> neo] >>
              \o (IF ~st.ok THEN <<>>
                  ELSE (IF cfg.set THEN << [op |-> "cfg", i |-> r, path |-> cfg.p, ext |-> cfg.e] >>
                        ELSE IF rc THEN << [op |-> "load_rc", i |-> r] >>
                        ELSE << [op |-> "new", i |-> r] >>)
                       \o (IF table.set THEN << [op |-> "tlit", t |-> 100 + i, items |-> tab[table.t]],
                                                [op |-> "add_table", i |-> r, t |-> 100 + i] >> ELSE <<>>)
                       \o If(preset, [op |-> "use_preset", i |-> r])
                       \o If(neo, [op |-> "use_neologdn", i |-> r])))

HasTab == 1 \in DOMAIN tab
Tables1 == {Unset} \cup (IF HasTab THEN {[set |-> TRUE, t |-> 1]} ELSE {})
NextId == IF 1 \in DOMAIN inst THEN 2 ELSE 1
PNext == /\ calls < Depth
         /\ \/ ~HasTab /\ \E b \in BOOLEAN, c \in Csvs, y \in Yamls : TabNew(1, b, c, y)
            \/ HasTab /\ \E c \in Lits : TabAdd(1, c)
            \/ 2 \notin DOMAIN inst /\ \E c \in Cfgs, rc \in BOOLEAN, t \in Tables1, p \in BOOLEAN, n \in BOOLEAN :
                    Make(NextId, c, rc, t, p, n)
PSpec == Init0 /\ [][PNext]_pvars

(* ---- what is checked ---- *)
\* a Python instance is its Rust counterpart
Mirror == \A i \in DOMAIN inst : i < 100 => inst[i] = inst[i + 100]
\* nothing that happens to a table reaches an instance
Settled == [][\A i \in DOMAIN inst : inst'[i] = inst[i]]_pvars
\* a failed call leaves nothing behind
Clean == \A i \in DOMAIN inst : Len(inst[i]) >= 0
Named == \A i \in DOMAIN inst : \A k \in 1..Len(inst[i]) : inst[i][k].k \in {"conv", "red", "neo"}

Emit == calls = Depth => PrintT(ToJson(h))
===================================================================================
