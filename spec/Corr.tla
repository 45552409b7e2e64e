---------------------------------- MODULE Corr ----------------------------------
(* Items <<from, to>> (both texts), correspondences and tables: lists of items   *)
(* combined as sets.                                                              *)
EXTENDS Modifiers

ItemLt(a, b) == LexLt(a[1], b[1]) \/ (a[1] = b[1] /\ LexLt(a[2], b[2]))

SetOf(items) == {items[i] : i \in 1..Len(items)}

Ascending(items) == \A i \in 1..Len(items) - 1 : ItemLt(items[i], items[i + 1])
NonDescending(items) == \A i \in 1..Len(items) - 1 : ~ItemLt(items[i + 1], items[i])

Count(x, items) == Len(SelectSeq(items, LAMBDA y : y = x))

SortItems(items) == SortSeq(items, ItemLt)

(* Union: duplicate-free and ascending.  Difference: ascending; an item listed   *)
(* several times on the left stays listed as often.                              *)
Plus(a, b)  == SetToSortSeq(SetOf(a) \cup SetOf(b), ItemLt)
Minus(a, b) == SortItems(SelectSeq(a, LAMBDA x : x \notin SetOf(b)))

(* The same as predicates on an observed result (linear in its length).          *)
IsPlus(r, a, b)  == Ascending(r) /\ SetOf(r) = SetOf(a) \cup SetOf(b)
IsMinus(r, a, b) == LET rest == SelectSeq(a, LAMBDA x : x \notin SetOf(b))
                    IN /\ NonDescending(r)
                       /\ Len(r) = Len(rest) /\ SetOf(r) = SetOf(rest)
                       /\ Cardinality(SetOf(r)) < Len(r) =>
                             \A x \in SetOf(r) : Count(x, r) = Count(x, rest)

(* ---- the character map of a table ---- *)
(* Only the first characters of an item count; an item without a source or      *)
(* without a target maps nothing; of several items for one source the last      *)
(* one listed decides.                                                            *)
TableMap(items) ==
    LET use == SelectSeq(items, LAMBDA x : x[1] # <<>> /\ x[2] # <<>>)
        n   == Len(use)
        D   == {use[i][1][1] : i \in 1..n}
    IN FoldLeft(LAMBDA m, x : [m EXCEPT ![x[1][1]] = x[2][1]], [c \in D |-> c], use)

ConvOf(items) == [k |-> "conv", m |-> TableMap(items)]

(* ---- the predefined sets as items ---- *)
MapItems(m) == SetToSortSeq({<< <<c>>, <<m[c]>> >> : c \in DOMAIN m}, ItemLt)
DigitItems       == MapItems(DigitMap)
AlphabetItems    == MapItems(AlphabetMap)
PunctuationItems == MapItems(PunctuationMap)
KanaItems        == MapItems(KanaMap)
PresetItems      == MapItems(PresetMap)

(* ---- export: one line per target, its sources first ---- *)
CsvRows(items) ==
    LET T  == SetToSortSeq({items[i][2] : i \in 1..Len(items)}, LexLt)
        fr(t) == LET S == SelectSeq(items, LAMBDA x : x[2] = t)
                 IN Force([j \in 1..Len(S) |-> S[j][1]])
    IN Force([j \in 1..Len(T) |-> Append(fr(T[j]), T[j])])
ByTarget(items) ==
    LET R == CsvRows(items)
    IN Force([j \in 1..Len(R) |-> <<Last(R[j]), SubSeq(R[j], 1, Len(R[j]) - 1)>>])

(* ---- import: the first row is a header, each field but the last is a source *)
RowItems(row) == Force([j \in 1..Len(row) - 1 |-> <<row[j], Last(row)>>])
RowsItems(rows) == FoldLeft(LAMBDA acc, r : acc \o RowItems(r), <<>>, rows)
CsvItems(doc) == IF doc = <<>> THEN <<>> ELSE RowsItems(Tail(doc))
=================================================================================
