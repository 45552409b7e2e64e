--------------------------------- MODULE Trace ---------------------------------
(* Acceptance of recorded runs.  Every line of the trace is one operation with    *)
(* its arguments and the result r the real code gave (r.p = 1 if it panicked); it *)
(* is accepted if the corresponding action of Chanoma is possible and the result  *)
(* is the one the specification demands.  Panics are never accepted.              *)
EXTENDS Chanoma, Names, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          mem     \* results remembered by Probe: the same question has one answer

tvars == <<inst, tab, files, env, l, mem>>

TInit == Init /\ l = 1 /\ mem = <<>>

Must(tag, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, tag>>) /\ FALSE
Same(tag, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", l, tag, ToJson(want)>>) /\ FALSE

Ran(e) == Must("panic", e.r.p = 0)
NoChange == UNCHANGED <<vars, mem>>

LastText(s, recs) == IF recs = <<>> THEN s ELSE Last(recs)

(* ---- normalization against the meaning of the stages ---- *)
TNorm(e) == Ran(e) /\ NoChange /\ Same("out", e.r.out, Norm(e.i, e.text))

TNormP(e) == /\ Ran(e) /\ NoChange
             /\ LET O == Records(e.i, e.text)
                IN Same("recs", e.r.recs, O) /\ Same("final", e.r.final, LastText(e.text, O))

(* ---- positions, against the texts actually recorded ---- *)
Walked(s, ps) ==     \* all positions sound, given that they are ordered
    LET n == Len(ps)
        K == Force([k \in 1..n |-> ps[k][5] + 1])
        B == Offsets(s, K)
    IN \A k \in 1..n : LET p == ps[k]
                       IN /\ p[5] + p[6] <= Len(s) /\ p[6] = Len(p[1]) /\ p[4] = ByteLen(p[1])
                          /\ SubSeq(s, p[5] + 1, p[5] + p[6]) = p[1]
                          /\ p[3] = B[k]
Places(ps) == Force([k \in 1..Len(ps) |-> <<ps[k][1], ps[k][3], ps[k][4], ps[k][5], ps[k][6]>>])
WellFormed(ps) == \A k \in 1..Len(ps) : ps[k][5] >= 0 /\ ps[k][6] >= 0

PosRule(st, in, out, ps) ==
    IF st.k \in {"conv", "red", "trim"}
    THEN /\ Must("order", WellFormed(ps) /\ Ordered(ps))
         /\ Must("inside", \A k \in 1..Len(ps) : ps[k][5] + ps[k][6] <= Len(in))
         /\ Must("place", Walked(in, ps))
         /\ Must("patch", Patch(in, ps) = out)
         /\ st.k \in {"conv", "red"} => Must("exact", Places(ps) = Places(Positions(st, in)))
    ELSE Must("place", WellFormed(ps) /\ \A k \in 1..Len(ps) : Sound(ps[k], in))

TPos(e) == /\ Ran(e) /\ NoChange
           /\ Must("records", Len(e.r.recs) = Len(inst[e.i]))
           /\ \A k \in 1..Len(e.r.recs) :
                 PosRule(inst[e.i][k], IF k = 1 THEN e.text ELSE e.r.recs[k - 1].text,
                         e.r.recs[k].text, e.r.recs[k].ps)

(* ---- composition, the stages themselves left open ---- *)
(* singles[k] is an instance with just the k-th stage (and perhaps conversions by   *)
(* empty tables, which every YAML file ends with); mids[k] is its output on the      *)
(* output of singles[k-1].                                                            *)
Essential(stages) == SelectSeq(stages, LAMBDA st : ~(st.k = "conv" /\ DOMAIN st.m = {}))
SinglesOk(e) == Must("driver", /\ Len(e.singles) = Len(inst[e.i])
                               /\ \A k \in 1..Len(e.singles) :
                                     Essential(inst[e.singles[k]]) = Essential(<<inst[e.i][k]>>))
TChain(e) == /\ Ran(e) /\ NoChange /\ SinglesOk(e)
             /\ Same("chain", e.r.out, LastText(e.text, e.r.mids))

TRoutes(e) == /\ Ran(e) /\ NoChange /\ SinglesOk(e)
              /\ Must("count", Len(e.r.recs) = Len(inst[e.i]))
              /\ Same("final", e.r.final, e.r.out)
              /\ Same("debug", e.r.dout, e.r.out)
              /\ Same("debugfinal", e.r.dfinal, e.r.out)
              /\ Must("debugcount", Len(e.r.drecs) = Len(inst[e.i]))
              /\ Same("debugrecs", e.r.drecs, e.r.recs)
              /\ Must("debugpositions", e.r.dsame = 1)
              /\ Same("last", LastText(e.text, e.r.recs), e.r.out)
              /\ Must("kinds", \A k \in 1..Len(e.r.kinds) : e.r.kinds[k] = 1)
              \* single-stage instances on the previous record's text
              /\ Same("stage", e.r.recs, e.r.steps)

(* ---- purity ---- *)
Key(e) == [st |-> inst[e.i], text |-> e.text]
Known(k) == SelectSeq(mem, LAMBDA m : m.k.text = k.text /\ m.k.st = k.st)
TProbe(e) ==
    /\ Ran(e) /\ UNCHANGED vars
    /\ LET k == Key(e)
           m == Known(k)
       IN IF m = <<>> THEN mem' = Append(mem, [k |-> k, out |-> e.r.out, recs |-> e.r.recs])
          ELSE /\ Same("same text", e.r.out, m[1].out)
               /\ Same("same report", e.r.recs, m[1].recs)
               /\ UNCHANGED mem
\* the distinct results that all calls of all threads gave for each text
TPar(e) ==
    /\ Ran(e) /\ NoChange
    /\ \A j \in 1..Len(e.texts) :
          /\ Must("threads agree", Len(e.r.seen[j]) = 1)
          /\ Same("as single call", e.r.seen[j][1], e.r.single[j])

\* several threads at once make an instance each, one of which is kept; all give the answers
\* that the stages give
MadeStages(e) ==
    CASE e.how \in {"preset", "use_preset"}     -> Ok(<<PresetStage>>)
      [] e.how \in {"neologdn", "use_neologdn"} -> Ok(<<NeoStage>>)
      [] e.how = "from_table" -> Ok(<<ConvOf(tab[e.t])>>)
      [] e.how = "cfg"        -> StagesIn(files, e.path, e.ext)
      [] e.how = "load_rc"    -> Loaded(files, env.home, env.cwd, env.rc)
TMake(e) ==
    LET st == MadeStages(e)
    IN /\ Must("driver", st.ok) /\ Ran(e) /\ UNCHANGED mem
       /\ \A j \in 1..Len(e.texts) : Same("threads make", e.r.seen[j], << ApplyAll(st.v, e.texts[j]) >>)
       /\ SetInst(e.i, st.v)

(* ---- sweeps over all of Unicode ---- *)
(* The text pre.c^k.suf was normalized for every scalar c.  exc lists <<c, output>>  *)
(* for every c whose output was not tpre.c^k.tsuf.                                     *)
Special == DOMAIN NeoMap \cup {NeoMap[c] : c \in DOMAIN NeoMap}
           \cup DOMAIN PresetMap \cup {PresetMap[c] : c \in DOMAIN PresetMap}
           \cup Tildes \cup {Ten, Maru, SP} \cup DOMAIN TenMap \cup DOMAIN MaruMap
           \cup {c \in 0..127 : IsAlnum(c)}
StageChars(st) == CASE st.k = "conv" -> DOMAIN st.m
                    [] st.k = "elim" -> st.s
                    [] st.k = "red"  -> {st.c}
                    [] st.k = "lig"  -> UNION {SetOfChars(f) : f \in DOMAIN st.m}
                    [] OTHER -> {}
Interesting(stages, ctx) ==
    Special \cup UNION {StageChars(stages[k]) : k \in 1..Len(stages)} \cup SetOfChars(ctx)

TSweep(e) ==
    LET st  == inst[e.i]
        f(c) == ApplyAll(st, e.pre \o Repeat(c, e.k) \o e.suf)
        same(c) == e.r.tpre \o Repeat(c, e.k) \o e.r.tsuf
        I   == Interesting(st, e.pre \o e.suf)
        X   == {e.r.exc[j][1] : j \in 1..Len(e.r.exc)}
    IN /\ Ran(e) /\ NoChange
       \* an ordinary character leaves the context as it is without it
       /\ Same("ordinary", same(1114111), f(1114111))
       /\ Must("scalars", e.r.n = 1112064)
       /\ \A j \in 1..Len(e.r.exc) : Same("swept", e.r.exc[j][2], f(e.r.exc[j][1]))
       /\ Must("only these", X \subseteq I)
       /\ \A c \in {x \in I : IsScalar(x)} \ X : Same("unswept", same(c), f(c))

(* The reports for pre.c.suf; exc lists <<c, report>> for every c whose report is not  *)
(* that for U+10FFFF with c in its place.                                              *)
Reported(st, s, rep) ==
    LET O == Outputs(st, s)
    IN /\ Same("swept", [k \in 1..Len(rep) |-> rep[k][1]], O)
       /\ \A k \in 1..Len(st) : PosRule(st[k], IF k = 1 THEN s ELSE O[k - 1], O[k], rep[k][2])
PutFor(x, c, s) == Force([j \in 1..Len(s) |-> IF s[j] = x THEN c ELSE s[j]])
PlaceOf(x, s) == CHOOSE j \in 1..Len(s) : s[j] = x
Replaced(rep, s, x, c) ==
    LET in(k) == IF k = 1 THEN s ELSE rep[k - 1][1]
        moved(p, j) == IF p[5] + 1 < j THEN p ELSE [p EXCEPT ![3] = @ + U8(c) - U8(x)]
    IN Force([k \in 1..Len(rep) |->
                <<PutFor(x, c, rep[k][1]),
                  LET j == PlaceOf(x, in(k))
                  IN Force([i \in 1..Len(rep[k][2]) |-> moved(rep[k][2][i], j)])>>])
TPSweep(e) ==
    LET st == inst[e.i]
        x  == 1114111
        s(c) == e.pre \o <<c>> \o e.suf
        I  == Interesting(st, e.pre \o e.suf)
        X  == {e.r.exc[j][1] : j \in 1..Len(e.r.exc)}
    IN /\ Ran(e) /\ NoChange
       /\ Reported(st, s(x), e.r.rep)
       /\ Must("scalars", e.r.n = 1112064)
       /\ \A j \in 1..Len(e.r.exc) : Reported(st, s(e.r.exc[j][1]), e.r.exc[j][2])
       /\ Must("only these", X \subseteq I)
       /\ \A c \in {y \in I : IsScalar(y)} \ X : Reported(st, s(c), Replaced(e.r.rep, s(x), x, c))

(* ---- file names ---- *)
(* The extension decides the format: what follows the last full stop of the file name, *)
(* unless that is the first character of the name.                                      *)
SLASH == 47
DOT == 46
FileName(p) ==
    LET P == SplitAt(p, SLASH)
        \* empty components and single full stops after the first name nothing
        Q == SelectSeq(Idx(P), LAMBDA k : P[k] # <<>> /\ ~(P[k] = <<DOT>>))
    IN IF Q = <<>> THEN <<>> ELSE P[Last(Q)]
ExtKind(x) == CASE x = <<99, 115, 118>> -> "csv"
                [] x = <<121, 97, 109, 108>> -> "yaml"
                [] x = <<121, 109, 108>> -> "yaml"
                [] OTHER -> "other"
NameExt(f) == LET D == SelectSeq(Idx(f), LAMBDA k : f[k] = DOT /\ k > 1)
              IN IF f = <<DOT, DOT>> \/ D = <<>> THEN "none"
                 ELSE ExtKind(SubSeq(f, Last(D) + 1, Len(f)))
TExt(e) == /\ Ran(e) /\ NoChange
           /\ LET x == NameExt(FileName(e.text))
              IN /\ Same("ok", e.r.ok, x \in {"csv", "yaml"})
                 /\ e.r.ok => Same("format", e.r.ext, x) /\ Must("back", e.r.back = 1)
           \* the text taken for an extension itself, with or without its full stop
           /\ LET y == ExtKind(IF e.text # <<>> /\ Head(e.text) = DOT THEN Tail(e.text) ELSE e.text)
              IN Same("extension", e.r.parsed, IF y \in {"csv", "yaml"} THEN y ELSE "none")

(* ---- tables ---- *)
SetNamed(n) == CASE n = "digits" -> DigitItems [] n = "alphabets" -> AlphabetItems
                 [] n = "punctuations" -> PunctuationItems [] n = "kanas" -> KanaItems
                 [] n = "cjk" -> CjkItems [] n = "all" -> PresetItems
CorrItems(c) == CASE c.c = "lit" -> c.items [] c.c = "set" -> SetNamed(c.name) [] c.c = "tab" -> tab[c.t]
                  [] c.c = "const" -> <<NamedItem(c.set, c.name)>>

TTabLit(e) == Ran(e) /\ UNCHANGED mem /\ Same("items", e.r.items, e.items) /\ SetTab(e.t, e.items)
TTabAdd(e) == Ran(e) /\ UNCHANGED mem /\ Must("union", IsPlus(e.r.items, tab[e.t], CorrItems(e.c)))
              /\ SetTab(e.t, e.r.items)
TTabRem(e) == Ran(e) /\ UNCHANGED mem /\ Must("difference", IsMinus(e.r.items, tab[e.t], CorrItems(e.c)))
              /\ SetTab(e.t, e.r.items)
\* several steps asked of one builder: a load that fails leaves it as it was
ChainStep(acc, s) ==
    CASE s.do = "add"    -> Plus(acc, CorrItems(s.c))
      [] s.do = "rem"    -> Minus(acc, CorrItems(s.c))
      [] s.do = "preset" -> Plus(acc, PresetItems)
      [] OTHER           -> LET x == ItemsIn(files, s.path, s.fmt) IN IF x.ok THEN Plus(acc, x.v) ELSE acc
TTabChain(e) ==
    LET loads == SelectSeq(e.steps, LAMBDA s : s.do = "load")
    IN /\ Ran(e) /\ UNCHANGED mem
       /\ Same("loaded", e.r.oks, [j \in 1..Len(loads) |-> ItemsIn(files, loads[j].path, loads[j].fmt).ok])
       /\ Same("items", e.r.items, FoldLeft(ChainStep, tab[e.t], e.steps))
       /\ SetTab(e.t, e.r.items)
TTabItems(e) == Ran(e) /\ NoChange /\ Same("items", e.r.items, tab[e.t]) /\ Same("corr", e.r.corr, tab[e.t])
                /\ Same("synthesized", e.r.synth, tab[e.t]) /\ Same("as items", e.r.from, tab[e.t])
                /\ Same("by target", e.r.map, ByTarget(tab[e.t]))
TTabCopy(e) == Ran(e) /\ UNCHANGED mem /\ Same("items", e.r.items, tab[e.t]) /\ TableCopy(e.t, e.u)
TCalc(e) == LET A == CorrItems(e.a)
                B == CorrItems(e.b)
            IN /\ Ran(e) /\ NoChange
               /\ Must("operator", IF e.sign = "+" THEN IsPlus(e.r.res, A, B) ELSE IsMinus(e.r.res, A, B))
               /\ Same("assigning form", e.r.assign, e.r.res)
               /\ Same("table form", e.r.table, e.r.res)
               /\ Same("builder form", e.r.builder, e.r.res)
               /\ Same("right operand", e.r.b, B)
               /\ Same("twice", e.r.again, e.r.res) /\ Same("clone between", e.r.between, e.r.res)
               /\ \A k \in SetOf(e.r.kept) : Same("clones", k, A)
               /\ Must("equality", e.r.eq = (IF A = B THEN 1 ELSE 0) /\ e.r.ne = 1 - e.r.eq)
TSetItems(e) == /\ Ran(e) /\ NoChange
                /\ Must("one each", Len(e.r.items) = Len(SetNamed(e.name)))
                /\ Same("pairs", SetOf(e.r.items), SetOf(SetNamed(e.name)))
TConsts(e) == /\ Ran(e) /\ NoChange
              /\ Must("every name", {x.name : x \in SetOf(e.r.named)} = DOMAIN NamesOf(e.name))
              /\ \A x \in SetOf(e.r.named) : Same(x.name, x.items, <<NamedItem(e.name, x.name)>>)
TExport(e) == /\ Ran(e) /\ NoChange
              /\ Must("csv loads", e.r.csv_ok) /\ Must("yaml loads", e.r.yaml_ok)
              /\ Same("csv", SortItems(e.r.csv), SortItems(tab[e.t]))
              /\ Same("yaml", SortItems(e.r.yaml), SortItems(tab[e.t]))
              \* what was written, read by the specification below a header line
              /\ LET read == CsvRead(<<120, LF>> \o e.r.csv_text)
                 IN Must("csv syntax", read.wf) /\ Same("csv text", SortItems(CsvItems(read.rows)), SortItems(tab[e.t]))
TOutput(e) == /\ Ran(e) /\ NoChange
              /\ Must("loads", e.r.ok)
              /\ Same("preset", SortItems(e.r.items), PresetItems)
              /\ e.fmt = "csv" => Same("csv text", SortItems(CsvItems(CsvRowsOf(e.r.text))), PresetItems)

(* ---- files, environment, loading ---- *)
TFile(e) == ("text" \in DOMAIN e.x => Must("driver", CsvWellFormed(e.x.text))) /\ UNCHANGED mem /\ SetFile(e.path, e.x)
TDel(e)  == UNCHANGED mem /\ DelFile(e.path)
TEnv(e)  == UNCHANGED mem /\ SetEnv([home |-> e.home, cwd |-> e.cwd, rc |-> e.rc, debug |-> e.debug])

\* what an error says, where that is asked for
HasPart(s, w) == \E k \in 0..(Len(s) - Len(w)) : SubSeq(s, k + 1, k + Len(w)) = w
Tells(w, f) == /\ w.k = f.k
               /\ f.k \in {"rc", "noext", "extstr"} => w.named = 1
               /\ f.k = "ext" => w.ext = f.ext
               /\ f.k # "modifier" => w.shown = 1
               /\ "name" \in DOMAIN f => HasPart(w.msg, f.name)
Says(e, F) == ("why" \in DOMAIN e /\ F # {}) => Must("fault", \E f \in F : Tells(e.r.why, f))

TCfg(e) == /\ Ran(e) /\ UNCHANGED mem
           /\ Same("ok", e.r.ok, StagesIn(files, e.path, e.ext).ok)
           /\ Says(e, FileFaults(files, e.path, e.ext))
           /\ FromConfigFile(e.i, e.path, e.ext)
TLoadRc(e) == /\ Ran(e) /\ UNCHANGED mem
              /\ Same("ok", e.r.ok, Loaded(files, env.home, env.cwd, env.rc).ok)
              /\ Says(e, LoadFaults(files, env.home, env.cwd, env.rc))
              /\ LoadRc(e.i)

\* how = "from": a new table, its items in the order of the file; "add": union
TTabLoad(e) ==
    LET x == ItemsIn(files, e.path, e.fmt)
    IN /\ Ran(e) /\ UNCHANGED mem
       /\ Same("ok", e.r.ok, x.ok)
       /\ Says(e, ItemsFaults(files, e.path, e.fmt))
       \* a table says from which file it comes; additions from other files do not change that
       /\ x.ok => Same("origin", e.r.origin, IF e.how = "from" THEN "file" ELSE e.r.before)
       /\ IF ~x.ok THEN UNCHANGED vars
          ELSE IF e.how = "from" THEN Same("items", e.r.items, x.v) /\ SetTab(e.t, e.r.items)
          ELSE Must("union", IsPlus(e.r.items, tab[e.t], x.v)) /\ SetTab(e.t, e.r.items)

(* ---- the command-line tool: compared with what the library gives in-process ---- *)
TCli(e) ==
    LET st == CliStages(e.preset, e.neo)
    IN /\ NoChange
       /\ "late" \in DOMAIN e.r => Must("answers at once", e.r.late = 0)
       /\ ("why" \in DOMAIN e /\ ~st.ok) => Must("tells", e.r.shown = 1)
       /\ IF ~st.ok \/ ("wrong" \in DOMAIN e /\ e.wrong) THEN Must("fails", e.r.code # 0 /\ e.r.out = <<>>)
          ELSE /\ Must("driver", inst[e.i] = st.v)
               /\ Must("driver text", e.r.line = IF e.hasinput THEN e.input ELSE FirstLine(e.stdin))
               /\ Same("exit", e.r.code, 0)
               /\ Same("stdout", e.r.out, Append(e.r.lib, 10))

(* ---- the Python binding ---- *)
TPyNew(e) ==
    LET st == PyStages(e.cfg, e.rc, e.table, e.preset, e.neo)
    IN /\ UNCHANGED mem
       /\ Must("raises instead", e.r.crash = 0)
       /\ Same("ok", e.r.ok, st.ok)
       /\ ("why" \in DOMAIN e /\ ~st.ok) => Must("tells", e.r.told = 1)
       /\ IF st.ok THEN SetInst(e.i, st.v) ELSE UNCHANGED vars
\* e.i in Python, e.ref the same stages in Rust
TPyNorm(e) == NoChange /\ Must("driver", inst[e.i] = inst[e.ref])
              /\ Must("raises instead", e.r.crash = 0)
              /\ Same("python", e.r.out, e.r.lib)
TPyTabNew(e) ==
    LET none == Ok(<<>>)
        c == IF e.csv.set THEN ItemsIn(files, e.csv.p, "csv") ELSE none
        y == IF e.yaml.set THEN ItemsIn(files, e.yaml.p, "yaml") ELSE none
        base == IF e.preset THEN PresetItems ELSE <<>>
    IN /\ UNCHANGED mem
       /\ Must("raises instead", e.r.crash = 0)
       /\ Same("ok", e.r.ok, c.ok /\ y.ok)
       /\ ("why" \in DOMAIN e /\ ~(c.ok /\ y.ok)) => Must("tells", e.r.told = 1)
       /\ IF c.ok /\ y.ok THEN SetTab(e.t, Plus(Plus(base, c.v), y.v)) ELSE UNCHANGED vars
\* what is no correspondence, but has items, may be refused
TPyTabAdd(e) == /\ UNCHANGED mem /\ Must("raises instead", e.r.crash = 0)
                /\ IF "as" \in DOMAIN e.c /\ e.c.as = "duck" /\ e.r.ok = FALSE THEN UNCHANGED vars
                   ELSE Same("ok", e.r.ok, TRUE) /\ SetTab(e.t, Plus(tab[e.t], CorrItems(e.c)))
\* one instance shared by threads of Python
TPyPar(e) == /\ NoChange /\ Must("driver", inst[e.i] = inst[e.ref])
             /\ Must("raises instead", e.r.crash = 0)
             /\ \A j \in 1..Len(e.texts) : Same("threads in python", e.r.seen[j], << e.r.lib[j] >>)
\* a call with arguments that no function takes
TPyBad(e) == NoChange /\ Must("raises instead", e.r.crash = 0) /\ Must("raises", e.r.ok = FALSE)
\* the object is given up; what was made from it stays
TPyDel(e) == /\ UNCHANGED mem /\ Must("raises instead", e.r.crash = 0)
             /\ tab' = [t \in DOMAIN tab \ {e.t} |-> tab[t]] /\ UNCHANGED <<inst, files, env>>
TPySet(e) == NoChange /\ Must("one each", Len(e.r.items) = Len(e.r.lib))
             /\ Same("pairs", e.r.items, e.r.lib)

Event(e) ==
    CASE e.op = "reset"      -> inst' = Nothing /\ tab' = Nothing /\ files' = Nothing /\ env' = InitEnv
                                /\ UNCHANGED mem
      [] e.op = "new"        -> Ran(e) /\ UNCHANGED mem /\ New(e.i)
      [] e.op = "default"    -> Ran(e) /\ UNCHANGED mem /\ New(e.i)
      [] e.op = "preset"     -> Ran(e) /\ UNCHANGED mem /\ Preset(e.i)
      [] e.op = "neologdn"   -> Ran(e) /\ UNCHANGED mem /\ NeologdnNew(e.i)
      [] e.op = "from_table" -> Ran(e) /\ UNCHANGED mem /\ FromTable(e.i, e.t)
      [] e.op = "use_preset"   -> Ran(e) /\ UNCHANGED mem /\ UsePreset(e.i)
      [] e.op = "use_neologdn" -> Ran(e) /\ UNCHANGED mem /\ UseNeologdn(e.i)
      [] e.op = "add_table"    -> Ran(e) /\ UNCHANGED mem /\ AddTable(e.i, e.t)
      [] e.op = "cfg"        -> TCfg(e)
      [] e.op = "load_rc"    -> TLoadRc(e)
      [] e.op = "debug"      -> UNCHANGED mem /\ SetDebug(e.on)
      [] e.op = "norm"       -> TNorm(e)
      [] e.op = "normp"      -> TNormP(e)
      [] e.op = "pos"        -> TPos(e)
      [] e.op = "chain"      -> TChain(e)
      [] e.op = "routes"     -> TRoutes(e)
      [] e.op = "probe"      -> TProbe(e)
      [] e.op = "make"       -> TMake(e)
      [] e.op = "par"        -> TPar(e)
      [] e.op = "sweep"      -> TSweep(e)
      [] e.op = "psweep"     -> TPSweep(e)
      [] e.op = "fext"       -> TExt(e)
      [] e.op = "tlit"       -> TTabLit(e)
      [] e.op = "tadd"       -> TTabAdd(e)
      [] e.op = "trem"       -> TTabRem(e)
      [] e.op = "tchain"     -> TTabChain(e)
      [] e.op = "titems"     -> TTabItems(e)
      [] e.op = "tcopy"      -> TTabCopy(e)
      [] e.op = "tload"      -> TTabLoad(e)
      [] e.op = "calc"       -> TCalc(e)
      [] e.op = "setitems"   -> TSetItems(e)
      [] e.op = "consts"     -> TConsts(e)
      [] e.op = "export"     -> TExport(e)
      [] e.op = "output"     -> TOutput(e)
      [] e.op = "file"       -> TFile(e)
      [] e.op = "del"        -> TDel(e)
      [] e.op = "linkdir"    -> NoChange      \* what is in the directory is found as before
      [] e.op = "env"        -> TEnv(e)
      [] e.op = "cli"        -> TCli(e)
      [] e.op = "pynew"      -> TPyNew(e)
      [] e.op = "pynorm"     -> TPyNorm(e)
      [] e.op = "pytabnew"   -> TPyTabNew(e)
      [] e.op = "pytabadd"   -> TPyTabAdd(e)
      [] e.op = "pyset"      -> TPySet(e)
      [] e.op = "pybad"      -> TPyBad(e)
      [] e.op = "pypar"      -> TPyPar(e)
      [] e.op = "pydel"      -> TPyDel(e)

TNext == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1

TSpec == TInit /\ [][TNext]_tvars

\* results are checked as they are consumed; the position alone identifies a state
TView == l

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=================================================================================
