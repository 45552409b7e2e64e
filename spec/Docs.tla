----------------------------------- MODULE Docs -----------------------------------
(* Configuration documents: every combination of an "items" node and a "modifiers"  *)
(* node from lists that contain each documented form and, for each place in it, each *)
(* wrong type of value.  A document is built up part by part; the complete one is     *)
(* printed with what loading it has to give.                                          *)
EXTENDS Config, Json

CONSTANTS Wide          \* TRUE: all combinations of items and single modifiers

VARIABLES part,         \* "start", "items", "done"
          its, mods,  \* chosen nodes, or Absent
          rows          \* for CSV documents, else <<>>
dvars == <<part, its, mods, rows>>

Absent == [y |-> "absent"]
Str(s) == [y |-> "str", s |-> s]
Seq1(v) == [y |-> "seq", v |-> v]
Map1(v) == [y |-> "map", m |-> v]
NullN == [y |-> "null"]  BoolN == [y |-> "bool"]  NumN == [y |-> "num"]
A == Str(<<97>>)  B == Str(<<98>>)  C == Str(<<99>>)
Empty == Str(<<>>)  Long == Str(<<97, 98>>)  Kana == Str(<<12363, 12443>>)
Wider == Str(<<128512>>)

Entry(f, t) == Map1(<< <<Str(KFrom), f>>, <<Str(KTo), t>> >>)

GoodItems == {
    Map1(<<>>), Map1(<< <<B, A>> >>), Map1(<< <<B, Seq1(<<A, C>>)>> >>), Map1(<< <<B, Seq1(<<>>)>> >>),
    Map1(<< <<B, Seq1(<<A>>)>>, <<C, A>> >>),                       \* one source twice: the last decides
    Map1(<< <<C, A>>, <<B, Seq1(<<C, A>>)>> >>),
    Map1(<< <<Long, Kana>>, <<Wider, Wider>> >>), Map1(<< <<Empty, A>>, <<B, Empty>> >>),
    Seq1(<<>>), Seq1(<< Entry(A, B) >>), Seq1(<< Entry(A, B), Entry(A, C) >>),
    Seq1(<< Entry(A, C), Entry(C, B), Entry(Wider, A) >>), Seq1(<< Entry(Long, Kana) >>),
    Seq1(<< Entry(Empty, A), Entry(B, Empty), Entry(C, B) >>),
    Seq1(<< Map1(<< <<Str(KTo), B>>, <<Str(<<120>>), NumN>>, <<Str(KFrom), A>> >>) >>) }

BadItems == {
    NullN, BoolN, NumN, A, Empty,
    Map1(<< <<B, NullN>> >>), Map1(<< <<B, NumN>> >>), Map1(<< <<B, BoolN>> >>), Map1(<< <<B, Map1(<< <<A, A>> >>)>> >>),
    Map1(<< <<B, Seq1(<<A, NumN>>)>> >>), Map1(<< <<B, Seq1(<<NullN>>)>> >>), Map1(<< <<B, Seq1(<<Seq1(<<A>>)>>)>> >>),
    Map1(<< <<NumN, A>> >>), Map1(<< <<NullN, A>> >>), Map1(<< <<B, A>>, <<BoolN, C>> >>),
    Seq1(<<A>>), Seq1(<<NullN>>), Seq1(<<NumN>>), Seq1(<<Seq1(<<A, B>>)>>), Seq1(<< Map1(<<>>) >>),
    Seq1(<< Map1(<< <<Str(KFrom), A>> >>) >>), Seq1(<< Map1(<< <<Str(KTo), A>> >>) >>),
    Seq1(<< Entry(NumN, B) >>), Seq1(<< Entry(A, NullN) >>), Seq1(<< Entry(Seq1(<<A>>), B) >>),
    Seq1(<< Entry(A, B), Entry(A, BoolN) >>), Seq1(<< Map1(<< <<A, B>> >>) >>) }

Values == {
    NullN, BoolN, NumN, Empty, A, Long, Kana, Wider,
    Seq1(<<>>), Seq1(<<A>>), Seq1(<<A, B, A>>), Seq1(<<Long, Wider>>), Seq1(<<Empty>>), Seq1(<<A, NumN>>),
    Seq1(<<NullN>>), Seq1(<<Seq1(<<A>>)>>), Seq1(<< Map1(<< <<A, B>> >>) >>),
    Map1(<<>>), Map1(<< <<A, B>> >>), Map1(<< <<A, B>>, <<B, A>>, <<C, Wider>> >>), Map1(<< <<Long, Kana>> >>),
    Map1(<< <<Kana, Str(<<12364>>)>>, <<Long, A>> >>),
    Map1(<< <<Str(<<97, 98>>), C>>, <<Str(<<97, 99>>), B>> >>),
    Map1(<< <<A, Empty>> >>), Map1(<< <<A, NumN>> >>), Map1(<< <<A, NullN>> >>), Map1(<< <<NumN, A>> >>),
    Map1(<< <<BoolN, A>> >>), Map1(<< <<A, Seq1(<<B>>)>> >>), Map1(<< <<A, B>>, <<B, BoolN>> >>) }
EmptyKey == Map1(<< <<Empty, B>> >>)

\* an empty source of a ligature is outside what is documented
ValuesOf(name) == Values \cup (IF name = KConverter THEN {EmptyKey} ELSE {})

Kinds7 == {KConverter, KEliminator, KReducer, KSpaces, KLigature, KTrim, KNeologdn}
WrongNames == { <<116, 114, 105, 109, 109>>, <<84, 114, 105, 109>>, <<>>, KItems,
                KTrim \o <<32>>, SubSeq(KReducer, 1, 22) }

Valid(name) ==
    CASE name = KConverter -> Map1(<< <<A, B>>, <<B, Kana>> >>)
      [] name = KEliminator -> Seq1(<<C, Str(<<12443>>)>>)
      [] name = KReducer -> B
      [] name = KSpaces -> NullN
      [] name = KLigature -> Map1(<< <<Kana, A>>, <<Str(<<98, 98>>), C>>, <<Str(<<97, 32>>), B>> >>)
      [] name = KTrim -> NullN
      [] name = KNeologdn -> NullN

One == {Map1(<< <<Str(n), v>> >>) : <<n, v>> \in UNION {{<<n, v>> : v \in ValuesOf(n)} : n \in Kinds7}}
       \cup {Map1(<< <<Str(n), NullN>> >>) : n \in WrongNames}
       \cup {Map1(<< <<n, NullN>> >>) : n \in {NumN, BoolN, NullN}}
Two == {Map1(<< <<Str(m), Valid(m)>>, <<Str(n), Valid(n)>> >>) :
           <<m, n>> \in {p \in Kinds7 \X Kinds7 : p[1] # p[2]}}
Three == {Map1(<< <<Str(m), Valid(m)>>, <<Str(n), Valid(n)>>, <<Str(k), Valid(k)>> >>) :
           <<m, n, k>> \in {p \in Kinds7 \X Kinds7 \X Kinds7 : Cardinality({p[1], p[2], p[3]}) = 3}}
GoodThenBad == {Map1(<< <<Str(m), Valid(m)>>, <<Str(n), NumN>> >>) :
                   <<m, n>> \in {p \in Kinds7 \X Kinds7 : p[1] # p[2]}}
WrongMods == {NullN, BoolN, NumN, A, Seq1(<<>>), Seq1(<< Str(KTrim) >>), Seq1(<< Map1(<< <<Str(KTrim), NullN>> >>) >>)}

\* whole documents that are no mappings are no configurations
Tops == {NullN, BoolN, NumN, A, Empty, Seq1(<<>>), Seq1(<<A>>), Seq1(<< Entry(A, B) >>)}

RowChoices == { <<A.s, B.s>>, <<A.s>>, <<B.s, C.s, A.s>>, <<Empty.s, B.s>>, <<A.s, Empty.s>>, <<Long.s, Kana.s>>,
                << <<34>>, <<44>> >>, << <<10>>, <<32>> >>, << <<32>>, <<34, 34>> >>, << <<13, 10>>, C.s >>,
                <<Wider.s, A.s, A.s, C.s>>, <<A.s, A.s>> }
Headers == { <<KFrom, KTo>>, <<A.s, B.s>>, << <<120>> >> }

None == Absent
DInit == part = "start" /\ its = None /\ mods = None /\ rows = <<>>

ChooseItems == /\ part = "start" /\ part' = "items" /\ rows' = rows /\ UNCHANGED mods
               /\ its' \in {None} \cup GoodItems \cup BadItems
Few == {None, Map1(<<>>), Map1(<< <<Str(KTrim), NullN>> >>), Map1(<< <<Str(KTrim), A>> >>),
        Map1(<< <<Str(KLigature), Valid(KLigature)>>, <<Str(KConverter), Valid(KConverter)>> >>)}
ChooseMods == /\ part = "items" /\ part' = "done" /\ UNCHANGED <<its, rows>>
              /\ mods' \in IF Wide \/ its \in {None, Map1(<< <<B, A>> >>)}
                           THEN {None} \cup Few \cup One \cup Two \cup Three \cup GoodThenBad \cup WrongMods
                           ELSE Few
ChooseTop == /\ part = "start" /\ part' = "top" /\ UNCHANGED <<mods, rows>>
             /\ its' \in Tops
ChooseHeader == /\ part = "start" /\ part' = "csv" /\ UNCHANGED <<its, mods>>
                /\ rows' \in {<<>>} \cup {<<hd>> : hd \in Headers}
ChooseRow == /\ part = "csv" /\ Len(rows) \in 1..2 /\ UNCHANGED <<part, its, mods>>
             /\ \E r \in RowChoices : rows' = Append(rows, r)
DNext == ChooseItems \/ ChooseMods \/ ChooseTop \/ ChooseHeader \/ ChooseRow
DSpec == DInit /\ [][DNext]_dvars 

Doc == IF part = "top" THEN its
       ELSE Map1((IF its = None THEN <<>> ELSE << <<Str(KItems), its>> >>)
                 \o (IF mods = None THEN <<>> ELSE << <<Str(KModifiers), mods>> >>))

IsCsv == part = "csv"
Path == IF IsCsv THEN "w/d.csv" ELSE "w/d.yaml"
Fmt == IF IsCsv THEN "csv" ELSE "yaml"
TheFile == IF IsCsv THEN [t |-> "file", f |-> "csv", rows |-> rows] ELSE [t |-> "file", f |-> "yaml", doc |-> Doc]
Files == [p \in {Path} |-> TheFile]
Complete == part \in {"done", "top", "csv"}

Loads == StagesIn(Files, Path, Fmt)
Listed == ItemsIn(Files, Path, Fmt)
Table0 == << << <<99>>, <<97>> >>, << <<97>>, <<98>> >> >>

Probes == << <<97, 98, 98, 32, 32, 97, 32, 99, 12363, 12443, 128512, 34, 10, 32, 32>>,
             <<32, 98, 98, 97, 65313, 32, 99, 12540, 12540, 126, 13>> >>

(* ---- what is checked ---- *)
Shapes ==
    Complete =>
      /\ IsCsv => Loads.ok /\ Listed.ok                     \* a CSV file cannot have a wrong shape
      /\ Loads.ok <=> FileFaults(Files, Path, Fmt) = {}
      /\ part = "top" => ~Loads.ok /\ ~Listed.ok
      /\ Loads.ok => Listed.ok /\ Loads.v[Len(Loads.v)] = ConvOf(Listed.v)
      /\ part = "done" => (Listed.ok <=> its \notin BadItems)
      /\ part = "done" /\ Loads.ok /\ mods # None => Len(Loads.v) = Len(mods.m) + 1
      /\ part = "done" /\ Loads.ok /\ mods = None => Len(Loads.v) = 1
      /\ part = "done" /\ mods \in WrongMods \cup GoodThenBad => ~Loads.ok

\* the output, and the text after every stage, the conversion by no items included
Norms == IF ~Loads.ok THEN <<>>
         ELSE Force([k \in 1..Len(Probes) |->
                LET O == Outputs(Loads.v, Probes[k]) IN
                IF k = 1 THEN [op |-> "normp", i |-> 1, text |-> Probes[k],
                               want |-> [p |-> 0, recs |-> O, final |-> Last(O)]]
                ELSE [op |-> "norm", i |-> 1, text |-> Probes[k], want |-> [p |-> 0, out |-> Last(O)]]])
OkWant(r) == [p |-> 0, ok |-> r.ok]
ItemsWant(r, v) == IF r.ok THEN [p |-> 0, ok |-> TRUE, items |-> v] ELSE [p |-> 0, ok |-> FALSE]
Emit == Complete => PrintT(ToJson(<<
          [op |-> "file", path |-> Path, x |-> TheFile],
          [op |-> "cfg", i |-> 1, path |-> Path, ext |-> Fmt, want |-> OkWant(Loads)] >>
          \o Norms \o <<
          [op |-> "tload", t |-> 1, path |-> Path, fmt |-> Fmt, how |-> "from",
           want |-> ItemsWant(Listed, Listed.v)],
          [op |-> "tlit", t |-> 2, items |-> Table0],
          [op |-> "tload", t |-> 2, path |-> Path, fmt |-> Fmt, how |-> "add",
           want |-> ItemsWant(Listed, Plus(Table0, Listed.v))] >>))
===================================================================================
