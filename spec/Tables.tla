---------------------------------- MODULE Tables ----------------------------------
(* All short histories of table operations on two tables: additions and removals    *)
(* of literal lists, of a predefined set and of the other table, and copies.  After   *)
(* every call both tables are listed.                                                  *)
EXTENDS Chanoma, Json

CONSTANTS Depth

VARIABLE h
hvars == <<inst, tab, files, env, h>>

I1 == << <<97>>, <<120>> >>   I2 == << <<97>>, <<121>> >>   I3 == << <<98>>, <<120>> >>
Lits == << <<I1>>, <<I3, I2, I3>>, <<I2, I1>> >>

Lit(s) == [c |-> "lit", items |-> s]
Listing == LET T == SetToSortSeq(DOMAIN tab', LAMBDA p, q : p < q)
           IN Force([k \in 1..Len(T) |-> [op |-> "titems", t |-> T[k],
                       want |-> [p |-> 0, items |-> tab'[T[k]], corr |-> tab'[T[k]]]]])
Log(op) == h' = Append(h, op) \o Listing

Start1 == <<I3, I1, I3>>      \* neither sorted nor free of duplicates

HInit == /\ inst = Nothing /\ env = InitEnv /\ files = Nothing
         /\ tab = [t \in {1, 2} |-> IF t = 1 THEN Start1 ELSE <<>>]
         /\ h = << [op |-> "reset"], [op |-> "tlit", t |-> 1, items |-> Start1],
                   [op |-> "tlit", t |-> 2, items |-> <<>>] >>

DoAdd(t, c, items) == LET r == Plus(tab[t], items)
                      IN TableAdd(t, items, r)
                         /\ Log([op |-> "tadd", t |-> t, c |-> c, want |-> [p |-> 0, items |-> r]])
DoRem(t, c, items) == LET r == Minus(tab[t], items)
                      IN TableRemove(t, items, r)
                         /\ Log([op |-> "trem", t |-> t, c |-> c, want |-> [p |-> 0, items |-> r]])

Calls == Len(SelectSeq(h, LAMBDA o : o.op # "titems")) - 3

HNext == /\ Calls < Depth
         /\ \E t \in {1, 2} :
               \/ \E k \in 1..Len(Lits) : DoAdd(t, Lit(Lits[k]), Lits[k]) \/ DoRem(t, Lit(Lits[k]), Lits[k])
               \/ DoAdd(t, [c |-> "tab", t |-> 3 - t], tab[3 - t])
               \/ DoRem(t, [c |-> "tab", t |-> 3 - t], tab[3 - t])
               \/ TableCopy(t, 3 - t)
                    /\ Log([op |-> "tcopy", t |-> t, u |-> 3 - t, want |-> [p |-> 0, items |-> tab[t]]])
HSpec == HInit /\ [][HNext]_hvars

\* only the table an operation is called on changes
OneTable == [][\A t \in {1, 2} : tab'[t] # tab[t] => tab'[3 - t] = tab[3 - t]]_hvars
\* whatever has been added is duplicate-free and ascending; the rest is at least a list of known items
Shape == \A t \in {1, 2} : SetOf(tab[t]) \subseteq {I1, I2, I3}
AddSorts == [][\A t \in {1, 2} : SetOf(tab[t]) # SetOf(tab'[t]) /\ SetOf(tab[t]) \subseteq SetOf(tab'[t])
                  /\ tab'[t] # tab[3 - t] => Ascending(tab'[t])]_hvars
TableMeaning == \A t \in {1, 2} :      \* the map of a table is a function of its listed items
                   LET m == TableMap(tab[t]) IN \A f \in DOMAIN m : << <<f>>, <<m[f]>> >> \in SetOf(tab[t])

Emit == Calls = Depth => PrintT(ToJson(h))
====================================================================================
