--------------------------------- MODULE Config ---------------------------------
(* Configuration: documents (as abstract syntax) to stages or error, and which   *)
(* files are in effect.                                                           *)
(*                                                                                *)
(* A file is [t |-> "file", f |-> format, ...] or [t |-> "dir"]:                  *)
(*   f = "csv"   rows |-> sequence of rows of texts, the first being the header,  *)
(*               or text |-> the text of the file (CsvText.tla)                    *)
(*   f = "yaml"  doc  |-> node                                                     *)
(*   f = "bad"   not readable as its format (syntax, invalid UTF-8)                *)
(* A node is [y |-> "null" | "bool" | "num"], [y |-> "str", s |-> text],           *)
(* [y |-> "seq", v |-> nodes] or [y |-> "map", m |-> <<<<key, value>>, ...>>].      *)
EXTENDS Corr, CjkData, CsvText

Err == [ok |-> FALSE]
Ok(x) == [ok |-> TRUE, v |-> x]

IsStr(n)  == n.y = "str"
IsMap(n)  == n.y = "map"
IsSeq(n)  == n.y = "seq"
IsNull(n) == n.y = "null"
IsText(n) == IsStr(n) /\ n.s # <<>>

(* Names that occur as keys. *)
KItems == <<105, 116, 101, 109, 115>>
KModifiers == <<109, 111, 100, 105, 102, 105, 101, 114, 115>>
KFrom == <<102, 114, 111, 109>>
KTo == <<116, 111>>

\* "character_converter" and so on, letter by letter
KConverter == <<99,104,97,114,97,99,116,101,114,95,99,111,110,118,101,114,116,101,114>>
KEliminator == <<99,104,97,114,97,99,116,101,114,95,101,108,105,109,105,110,97,116,111,114>>
KReducer == <<99,111,110,115,101,99,117,116,105,118,101,95,99,104,97,114,97,99,116,101,114,95,
              114,101,100,117,99,101,114>>
KSpaces == <<100,111,116,116,101,100,95,115,112,97,99,101,95,101,108,105,109,105,110,97,116,111,114>>
KLigature == <<108,105,103,97,116,117,114,101,95,116,114,97,110,115,108,97,116,111,114>>
KTrim == <<116,114,105,109>>
KNeologdn == <<110,101,111,108,111,103,100,110>>

Has(n, key) == IsMap(n) /\ \E i \in 1..Len(n.m) : IsStr(n.m[i][1]) /\ n.m[i][1].s = key
Get(n, key) == n.m[CHOOSE i \in 1..Len(n.m) : IsStr(n.m[i][1]) /\ n.m[i][1].s = key][2]

Every(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

(* ---- items ---- *)
EntryOk(e) == Has(e, KFrom) /\ Has(e, KTo) /\ IsStr(Get(e, KFrom)) /\ IsStr(Get(e, KTo))
EntryItem(e) == <<Get(e, KFrom).s, Get(e, KTo).s>>

GroupOk(p) == IsStr(p[1]) /\ \/ IsStr(p[2])
                             \/ IsSeq(p[2]) /\ Every(p[2].v, IsStr)
GroupItems(p) == IF IsStr(p[2]) THEN << <<p[2].s, p[1].s>> >>
                 ELSE [j \in 1..Len(p[2].v) |-> <<p[2].v[j].s, p[1].s>>]

\* a document that is no mapping is no configuration
YamlItems(doc) ==
    IF ~IsMap(doc) THEN Err
    ELSE IF ~Has(doc, KItems) THEN Ok(<<>>)
    ELSE LET n == Get(doc, KItems)
         IN IF IsSeq(n) THEN IF Every(n.v, EntryOk)
                             THEN Ok(Force([j \in 1..Len(n.v) |-> EntryItem(n.v[j])]))
                             ELSE Err
            ELSE IF IsMap(n) THEN IF Every(n.m, GroupOk)
                                  THEN Ok(FoldLeft(LAMBDA acc, p : acc \o GroupItems(p), <<>>, n.m))
                                  ELSE Err
            ELSE Err

(* ---- modifiers ---- *)
PairsOk(n, P(_), Q(_)) == IsMap(n) /\ \A i \in 1..Len(n.m) : P(n.m[i][1]) /\ Q(n.m[i][2])

\* keys of a mapping are distinct, but their first characters need not be: the last decides
PairMap(n) == FoldLeft(LAMBDA m, p : [m EXCEPT ![p[1].s[1]] = p[2].s[1]],
                       [c \in {n.m[i][1].s[1] : i \in 1..Len(n.m)} |-> 0], n.m)
LigMap(n) == [f \in {n.m[i][1].s : i \in 1..Len(n.m)} |-> Get(n, f).s]

Stage(key, n) ==
    IF ~IsStr(key) THEN Err
    ELSE CASE key.s = KConverter  -> IF PairsOk(n, IsText, IsText) THEN Ok([k |-> "conv", m |-> PairMap(n)]) ELSE Err
           [] key.s = KEliminator -> IF IsSeq(n) /\ Every(n.v, IsText)
                                     THEN Ok([k |-> "elim", s |-> {n.v[i].s[1] : i \in 1..Len(n.v)}]) ELSE Err
           [] key.s = KReducer    -> IF IsText(n) THEN Ok([k |-> "red", c |-> n.s[1]]) ELSE Err
           [] key.s = KSpaces     -> IF IsNull(n) THEN Ok([k |-> "dse"]) ELSE Err
           [] key.s = KLigature   -> IF PairsOk(n, IsStr, IsStr) THEN Ok([k |-> "lig", m |-> LigMap(n)]) ELSE Err
           [] key.s = KTrim       -> IF IsNull(n) THEN Ok([k |-> "trim"]) ELSE Err
           [] key.s = KNeologdn   -> IF IsNull(n) THEN Ok([k |-> "neo"]) ELSE Err
           [] OTHER               -> Err

YamlStages(doc) ==
    IF ~IsMap(doc) THEN Err
    ELSE IF ~Has(doc, KModifiers) THEN Ok(<<>>)
    ELSE LET n == Get(doc, KModifiers)
         IN IF ~IsMap(n) THEN Err
            ELSE LET st == Force([i \in 1..Len(n.m) |-> Stage(n.m[i][1], n.m[i][2])])
                 IN IF Every(st, LAMBDA r : r.ok) THEN Ok(Force([i \in 1..Len(st) |-> st[i].v])) ELSE Err

(* ---- files ---- *)
(* The extension decides the format a file is read as: e is "csv" or "yaml" for  *)
(* the documented extensions, anything else is unsupported.                       *)
FormatOf(ext) == CASE ext = "csv" -> "csv" [] ext = "yaml" -> "yaml" [] ext = "yml" -> "yaml"
                   [] OTHER -> "none"

\* the items of the file at path p with extension ext, read as format fmt
ItemsIn(files, p, fmt) ==
    IF p \notin DOMAIN files \/ fmt = "none" THEN Err
    ELSE LET x == files[p]
         IN IF x.t # "file" \/ x.f # fmt THEN Err
            ELSE IF fmt # "csv" THEN YamlItems(x.doc)
            ELSE Ok(CsvItems(IF "text" \in DOMAIN x THEN CsvRowsOf(x.text) ELSE x.rows))

StagesIn(files, p, ext) ==
    LET fmt == FormatOf(ext)
        items == ItemsIn(files, p, fmt)
    IN IF ~items.ok THEN Err
       ELSE LET st == IF fmt = "csv" THEN Ok(<<>>) ELSE YamlStages(files[p].doc)
            IN IF ~st.ok THEN Err ELSE Ok(Append(st.v, ConvOf(items.v)))

(* ---- discovery ---- *)
IsFile(files, p) == p \in DOMAIN files /\ files[p].t = "file"

Names == << "chanomarc", ".chanomarc" >>
Exts  == << "csv", "yaml", "yml" >>
Dirs(home, cwd) == << home \o "/.config/chanoma", home, cwd >>

\* all 18 locations in order, as <<path, extension>>
Locations(home, cwd) ==
    LET D == Dirs(home, cwd)
    IN Force([i \in 1..18 |->
          LET d == D[((i - 1) \div 6) + 1]
              n == Names[(((i - 1) \div 3) % 2) + 1]
              e == Exts[((i - 1) % 3) + 1]
          IN << d \o "/" \o n \o "." \o e, e >>])

\* rc = [set |-> FALSE] or [set |-> TRUE, p |-> path, e |-> extension]
InEffect(files, home, cwd, rc) ==
    IF rc.set
    THEN IF IsFile(files, rc.p) /\ FormatOf(rc.e) # "none" THEN Ok(<< <<rc.p, rc.e>> >>) ELSE Err
    ELSE Ok(SelectSeq(Locations(home, cwd), LAMBDA l : IsFile(files, l[1])))

(* The stages of the configuration in effect, or error: one bad file spoils all. *)
Loaded(files, home, cwd, rc) ==
    LET fs == InEffect(files, home, cwd, rc)
    IN IF ~fs.ok THEN Err
       ELSE LET st == Force([i \in 1..Len(fs.v) |-> StagesIn(files, fs.v[i][1], fs.v[i][2])])
            IN IF Every(st, LAMBDA r : r.ok)
               THEN Ok(FoldLeft(LAMBDA acc, r : acc \o r.v, <<>>, st))
               ELSE Err

(* ---- what is at fault ---- *)
(* The faults of a file: [k |-> kind] and, where there is one, the name.  "io": it     *)
(* cannot be opened or read.  An error tells one of them; of several files, it is about  *)
(* the first that has any.                                                                *)
StageFaults(key, n) ==
    IF Stage(key, n).ok THEN {}
    ELSE IF IsStr(key) /\ key.s \notin {KConverter, KEliminator, KReducer, KSpaces, KLigature, KTrim, KNeologdn}
         THEN {[k |-> "modifier", name |-> key.s]}
         ELSE {[k |-> "modifier"]}

ItemsFaults(files, p, fmt) ==
    IF p \notin DOMAIN files \/ files[p].t # "file" THEN {[k |-> "io"]}
    ELSE IF ItemsIn(files, p, fmt).ok THEN {}
    ELSE IF files[p].f = "eio" THEN {[k |-> "io"], [k |-> fmt]}    \* cannot be read
    ELSE {[k |-> fmt]}

StagesFaults(doc) ==
    IF ~Has(doc, KModifiers) THEN {}
    ELSE LET n == Get(doc, KModifiers)
         IN IF ~IsMap(n) THEN {[k |-> "yaml"]}
            ELSE UNION {StageFaults(n.m[i][1], n.m[i][2]) : i \in 1..Len(n.m)}

\* an extension that is not UTF-8 is written "?bytes" here; the empty one of a name that
\* ends with a dot is written "." and may be called missing as well as unsupported
NameFaults(ext) ==
    IF ext = "" THEN {[k |-> "noext"]}
    ELSE IF ext = "." THEN {[k |-> "noext"], [k |-> "ext", ext |-> ""]}
    ELSE IF ext = "?bytes" THEN {[k |-> "extstr"]}
    ELSE IF FormatOf(ext) = "none" THEN {[k |-> "ext", ext |-> ext]}
    ELSE {}

FileFaults(files, p, ext) ==
    LET fmt == FormatOf(ext)
        I == ItemsFaults(files, p, fmt)
    IN IF fmt = "none" THEN NameFaults(ext) \cup {f \in I : f.k = "io"}
       ELSE I \cup (IF fmt = "yaml" /\ IsFile(files, p) /\ files[p].f = "yaml" THEN StagesFaults(files[p].doc) ELSE {})

LoadFaults(files, home, cwd, rc) ==
    IF rc.set
    THEN IF ~IsFile(files, rc.p) THEN {[k |-> "rc"]} \cup NameFaults(rc.e) ELSE FileFaults(files, rc.p, rc.e)
    ELSE LET L == SelectSeq(Locations(home, cwd), LAMBDA l : IsFile(files, l[1]) /\ FileFaults(files, l[1], l[2]) # {})
         IN IF L = <<>> THEN {} ELSE FileFaults(files, L[1][1], L[1][2])
=================================================================================
