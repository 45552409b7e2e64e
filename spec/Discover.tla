--------------------------------- MODULE Discover ---------------------------------
(* Which configuration files are in effect, and in what order: files, directories   *)
(* and broken files at the 18 documented locations, and the environment variable.    *)
(* The file at location k is built so that the order in which two files are applied   *)
(* shows in the result: it turns p(k,m) into q(k,m) for m > k, q(j,k) into r(j,k) for *)
(* j < k, and its own s(k) into t(k).                                                  *)
EXTENDS Chanoma, Json

CONSTANTS MaxFiles,     \* locations in use in every combination
          MaxWithEnv    \* the same while CHANOMARC is set

VARIABLES step, last
dvars == <<inst, tab, files, env, step, last>>

H == "h"  W == "w"
L == Locations(H, W)
N == 18

Base == 57344            \* private use characters
PairNo(j, k) == (j - 1) * N + (k - 1)
p(j, k) == Base + 3 * PairNo(j, k)
q(j, k) == p(j, k) + 1
r(j, k) == p(j, k) + 2
s(k) == Base + 2000 + 2 * k
t(k) == s(k) + 1
Bystander == N + 1        \* files that are at none of the locations
Sx(k) == Base + 3000 + 2 * k

ItemsAt(k) ==
    Force([m \in 1..(N - k) |-> << <<p(k, k + m)>>, <<q(k, k + m)>> >>])
    \o Force([j \in 1..(k - 1) |-> << <<q(j, k)>>, <<r(j, k)>> >>])
    \o << << <<s(k)>>, <<t(k)>> >> >>
Str(x) == [y |-> "str", s |-> x]
Map1(v) == [y |-> "map", m |-> v]
Seq1(v) == [y |-> "seq", v |-> v]
Content(k, ext, its) ==
    IF ext = "csv"
    THEN [t |-> "file", f |-> "csv", rows |-> << <<KFrom, KTo>> >> \o its]
    ELSE [t |-> "file", f |-> "yaml", doc |->
            Map1(<< <<Str(KItems),
              IF k % 2 = 0 THEN Map1(Force([j \in 1..Len(its) |-> <<Str(its[j][2]), Str(its[j][1])>>]))
              ELSE Seq1(Force([j \in 1..Len(its) |->
                      Map1(<< <<Str(KFrom), Str(its[j][1])>>, <<Str(KTo), Str(its[j][2])>> >>)]))>> >>)]
FileAt(k) == Content(k, L[k][2], ItemsAt(k))
Broken == [t |-> "file", f |-> "bad"]
Dir == [t |-> "dir"]

Probe == LET P == SelectSeq(Force([x \in 1..(N * N) |-> x]), LAMBDA x : ((x - 1) \div N) < ((x - 1) % N))
         IN Force([x \in 1..Len(P) |-> Base + 3 * (P[x] - 1)])
            \o Force([k \in 1..N |-> s(k)]) \o Force([k \in 1..5 |-> Sx(k)])

(* other places CHANOMARC may name: a file of its own in each format *)
Own(k, ext) == Content(k, ext, << << <<Sx(k)>>, <<Sx(k) + 1>> >> >>)
Elsewhere == { <<"o/own.csv", "csv", Own(1, "csv")>>, <<"o/own.yaml", "yaml", Own(2, "yaml")>>,
               <<"o/own.yml", "yml", Own(3, "yml")>>, <<"o/own.txt", "txt", Own(4, "csv")>>,
               <<"o/own", "", Own(5, "csv")>>, <<"o/csv", "", Own(5, "csv")>>,
               <<"o/.csv", "", Own(5, "csv")>>,
               <<"o/bad.csv", "csv", Broken>>, <<"o/bad.yaml", "yaml", Broken>>,
               <<"o/dir.csv", "csv", Dir>>, <<"o/dir.yaml", "yaml", Dir>> }
Missing == { <<"o/none.csv", "csv">>, <<"o/none", "">> }
OthersF == [x \in {e[1] : e \in Elsewhere} |-> (CHOOSE e \in Elsewhere : e[1] = x)[3]]

Vars == {[set |-> TRUE, p |-> e[1], e |-> e[2]] : e \in Elsewhere}
        \cup {[set |-> TRUE, p |-> e[1], e |-> e[2]] : e \in Missing}
Unset == [set |-> FALSE]

DInit == inst = Nothing /\ tab = Nothing /\ files = OthersF /\ env = InitEnv /\ step = "env" /\ last = 0

SetVar == /\ step = "env" /\ step' = "files" /\ UNCHANGED last
          /\ \E v \in Vars \cup {Unset} \cup {[set |-> TRUE, p |-> L[k][1], e |-> L[k][2]] : k \in {1, 5, 12, 18}} :
                SetEnv([env EXCEPT !.rc = v])

Count2 == Cardinality({k \in 1..N : L[k][1] \in DOMAIN files})
Strange == {k \in 1..N : L[k][1] \in DOMAIN files /\ files[L[k][1]] \in {Dir, Broken}}
Bound == IF env.rc.set THEN MaxWithEnv ELSE MaxFiles
Create(k) == SetFile(L[k][1], FileAt(k))
\* at most one location holds something that is not a good file
Spoil(k) == Strange = {} /\ Count2 < 2 /\ \E x \in {Dir, Broken} : SetFile(L[k][1], x)
AddFile == /\ step = "files" /\ Count2 < Bound /\ UNCHANGED step
           /\ \E k \in (last + 1)..N : last' = k /\ (Create(k) \/ Spoil(k))
\* all of them, and all but one
AddAll == /\ step = "files" /\ last = 0 /\ ~env.rc.set /\ step' = "full" /\ last' = N
          /\ \E miss \in 0..N :
                /\ files' = [x \in DOMAIN files \cup {L[k][1] : k \in (1..N) \ {miss}} |->
                               IF x \in DOMAIN files THEN files[x]
                               ELSE FileAt(CHOOSE k \in 1..N : L[k][1] = x)]
                /\ UNCHANGED <<inst, tab, env>>
Load == /\ step \in {"files", "full"} /\ step' = "done" /\ LoadRc(1) /\ UNCHANGED last
DNext == SetVar \/ (AddFile) \/ AddAll \/ Load
DSpec == DInit /\ [][DNext]_dvars

(* ---- what is checked ---- *)
Present == {k \in 1..N : IsFile(files, L[k][1])}
Effect == InEffect(files, env.home, env.cwd, env.rc)
Ordering ==
    step = "done" =>
      /\ ~env.rc.set => /\ Effect.ok /\ Len(Effect.v) = Cardinality(Present)
                        /\ \A j \in 1..Len(Effect.v) : IsFile(files, Effect.v[j][1])
                        /\ \A j, k \in Present : j < k =>
                              \E x, y \in 1..Len(Effect.v) : x < y /\ Effect.v[x] = L[j] /\ Effect.v[y] = L[k]
      /\ env.rc.set => (Effect.ok => Effect.v = << <<env.rc.p, env.rc.e>> >>)
      /\ env.rc.set /\ env.rc.p \notin DOMAIN files => ~Effect.ok
      /\ Loaded(files, env.home, env.cwd, env.rc).ok <=> LoadFaults(files, env.home, env.cwd, env.rc) = {}
      /\ 1 \in DOMAIN inst <=> Loaded(files, env.home, env.cwd, env.rc).ok
      /\ 1 \in DOMAIN inst => Len(inst[1]) = (IF env.rc.set THEN 1 ELSE Cardinality(Present))
      /\ Present = {} /\ ~env.rc.set => inst[1] = <<>>
      /\ (\E k \in Present : files[L[k][1]] = Broken) /\ ~env.rc.set => 1 \notin DOMAIN inst
\* the probe tells the order of any two files
Discerning ==
    step = "done" /\ ~env.rc.set /\ 1 \in DOMAIN inst =>
      \A j, k \in Present : j < k =>
         \E x \in 1..Len(Probe) : Probe[x] = p(j, k) /\ Norm(1, Probe)[x] = r(j, k)

FileOps == LET S == SetToSeq(DOMAIN files)
           IN Force([k \in 1..Len(S) |-> [op |-> "file", path |-> S[k], x |-> files[S[k]]]])
Emit == step = "done" =>
          PrintT(ToJson(FileOps
             \o << [op |-> "env", home |-> env.home, cwd |-> env.cwd, rc |-> env.rc, debug |-> FALSE],
                   [op |-> "load_rc", i |-> 1,
                    want |-> [p |-> 0, ok |-> Loaded(files, env.home, env.cwd, env.rc).ok]] >>
             \o (IF 1 \in DOMAIN inst
                 THEN << [op |-> "norm", i |-> 1, text |-> Probe, want |-> [p |-> 0, out |-> Norm(1, Probe)]],
                         [op |-> "normp", i |-> 1, text |-> Probe,
                          want |-> [p |-> 0, recs |-> Records(1, Probe),
                                    final |-> Norm(1, Probe)]] >>
                 ELSE <<>>)))
===================================================================================
