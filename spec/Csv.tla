----------------------------------- MODULE Csv -----------------------------------
(* Explores CSV texts in two ways.  Growing: every text up to a length, character by   *)
(* character.  Writing: every small table, written with every choice of quotation       *)
(* marks, line breaks, empty lines and byte order mark there is.                         *)
(* What is checked: the reader takes every written text for the table it was written     *)
(* from, whatever the choices; and writing what was read from a well-formed text and     *)
(* reading it again changes nothing.                                                      *)
EXTENDS CsvText, Corr, Json

CONSTANTS MaxLen,       \* length of grown texts
          MaxRows, MaxFields

VARIABLES mode, text, read, rows
cvars == <<mode, text, read, rows>>

Alphabet == {97, 12354, COMMA, QT, LF, CR, 32}

Fields == { <<>>, <<97>>, <<QT>>, <<COMMA, 98>>, <<LF>>, <<32, 97>>, <<CR, LF>>, <<QT, QT>> }
Few == { <<>>, <<97>>, <<QT, COMMA>>, <<LF>> }

CInit == /\ text = <<>> /\ read = CsvStart /\ rows = <<>>
         /\ mode \in {"grow", "write"}

Grow == /\ mode = "grow" /\ Len(text) < MaxLen /\ UNCHANGED <<mode, rows>>
        /\ \E c \in Alphabet : text' = Append(text, c) /\ read' = CsvStep(read, c)

RowsOver(F, n) == UNION {[1..k -> F] : k \in 1..n}
\* the text is written row by row; before the first there may be a byte order mark
Mark == /\ mode = "write" /\ text = <<>> /\ text' = <<BOM>> /\ UNCHANGED <<mode, read, rows>>
Write == /\ mode = "write" /\ Len(rows) < MaxRows /\ UNCHANGED <<mode, read>>
         /\ \E row \in RowsOver(IF rows = <<>> THEN Fields ELSE Few, IF rows = <<>> THEN MaxFields ELSE 2) :
            \E q \in {[j \in 1..Len(row) |-> FALSE], [j \in 1..Len(row) |-> TRUE], [j \in 1..Len(row) |-> j = 1]} :
            \E nl \in {<<LF>>, <<CR, LF>>, <<CR>>, <<LF, CR, LF>>} :
               /\ rows' = Append(rows, row)
               /\ text' = text \o CsvLine(row, q) \o nl
\* the last line break may be missing
Chop == /\ mode = "write" /\ rows # <<>> /\ Last(text) \in {LF, CR}
        /\ mode' = "chopped" /\ UNCHANGED <<read, rows>>
        /\ LET n == CHOOSE k \in 0..Len(text) : /\ \A j \in k + 1..Len(text) : text[j] \in {LF, CR}
                                                /\ k = 0 \/ text[k] \notin {LF, CR}
           IN text' = SubSeq(text, 1, n)
CNext == Grow \/ Mark \/ Write \/ Chop
CSpec == CInit /\ [][CNext]_cvars

Rewritten(rs) == FoldLeft(LAMBDA acc, r : acc \o CsvLine(r, [j \in 1..Len(r) |-> FALSE]) \o <<LF>>, <<>>, rs)

Incremental == mode = "grow" /\ text # <<>> => CsvRead(text) = CsvEnd(read)
Reads == mode # "grow" => CsvRead(text).rows = rows /\ CsvWellFormed(text)
Rereads == mode = "grow" => LET r == CsvRead(text)
                            IN CsvRead(Rewritten(r.rows)).rows = r.rows /\ CsvWellFormed(Rewritten(r.rows))
\* every record has a field, so a last one
NoEmptyRecord == \A i \in 1..Len(CsvRead(text).rows) : CsvRead(text).rows[i] # <<>>

Emit == (mode = "grow" => Len(text) >= MaxLen - 1) =>
          LET r == CsvRead(text)
          IN PrintT(ToJson(IF r.wf THEN [text |-> text, wf |-> TRUE, items |-> CsvItems(r.rows)]
                           ELSE [text |-> text, wf |-> FALSE]))
==================================================================================
