--------------------------------- MODULE CsvText ---------------------------------
(* The concrete syntax of CSV files, character by character: records end at line    *)
(* breaks (LF, CR or CRLF), fields at commas; a field that begins with a quotation   *)
(* mark extends to the closing one and may contain anything, a quotation mark being   *)
(* written twice; lines without any character are no records; a byte order mark at    *)
(* the beginning is no part of the first field.                                        *)
EXTENDS Text

QT == 34  COMMA == 44  LF == 10  CR == 13  BOM == 65279

(* Where the reader stands: at the beginning of a record ("record") or of a field     *)
(* ("field"), inside a plain field ("plain") or a quoted one ("quoted"), or after a    *)
(* quotation mark within a quoted field ("closing").  wf: nothing was read that the    *)
(* description above leaves open.                                                       *)
CsvStart == [at |-> "record", field |-> <<>>, row |-> <<>>, rows |-> <<>>, wf |-> TRUE]

EndField(r)  == [r EXCEPT !.at = "field", !.row = Append(@, r.field), !.field = <<>>]
EndRecord(r) == [r EXCEPT !.at = "record", !.rows = Append(@, Append(r.row, r.field)),
                          !.row = <<>>, !.field = <<>>]

CsvStep(r, c) ==
    CASE r.at = "quoted" -> IF c = QT THEN [r EXCEPT !.at = "closing"] ELSE [r EXCEPT !.field = Append(@, c)]
      [] r.at = "record" /\ c \in {LF, CR} -> r
      [] r.at = "closing" /\ c = QT -> [r EXCEPT !.at = "quoted", !.field = Append(@, QT)]
      [] r.at \in {"record", "field"} /\ c = QT -> [r EXCEPT !.at = "quoted"]
      [] c = COMMA -> EndField(r)
      [] c \in {LF, CR} -> EndRecord(r)
      \* a plain character; out of place after a closing quotation mark, as is a quotation
      \* mark within a plain field
      [] OTHER -> [r EXCEPT !.wf = @ /\ r.at # "closing" /\ c # QT, !.at = "plain", !.field = Append(@, c)]

CsvEnd(r) == IF r.at = "record" THEN r
             ELSE [EndRecord(r) EXCEPT !.wf = @ /\ r.at # "quoted"]

CsvRead(s) == LET t == IF s # <<>> /\ s[1] = BOM THEN Tail(s) ELSE s
              IN CsvEnd(FoldLeft(CsvStep, CsvStart, t))
CsvRowsOf(s) == CsvRead(s).rows
CsvWellFormed(s) == CsvRead(s).wf

(* ---- writing ---- *)
(* A field has to be quoted if it could be mistaken; it may be quoted in any case.   *)
MustQuote(f, alone) == \/ f = <<>> /\ alone
                       \/ \E i \in 1..Len(f) : f[i] \in {QT, COMMA, LF, CR}
Quoted(f) == <<QT>> \o ReplaceEvery(f, <<QT>>, <<QT, QT>>) \o <<QT>>
\* q: which fields are quoted without need
CsvField(f, alone, q) == IF q \/ MustQuote(f, alone) THEN Quoted(f) ELSE f
CsvLine(row, q) ==
    FoldLeft(LAMBDA acc, j : acc \o (IF j = 1 THEN <<>> ELSE <<COMMA>>) \o CsvField(row[j], Len(row) = 1, q[j]),
             <<>>, [j \in 1..Len(row) |-> j])
==================================================================================
