-------------------------------- MODULE Chanoma --------------------------------
(* The library as a state machine.                                               *)
(*                                                                               *)
(*   inst   instance id -> list of stages                                        *)
(*   tab    table id -> list of items                                            *)
(*   files  path -> file or directory (Config.tla)                               *)
(*   env    [home, cwd, rc, debug]                                               *)
(*                                                                               *)
(* Every public operation that changes something is an action; normalization is  *)
(* a function of the state (inst[i]) and the text and changes nothing: not the   *)
(* instance, not the debug switch's effect, no hidden history.                   *)
EXTENDS Config

VARIABLES inst, tab, files, env

vars == <<inst, tab, files, env>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing      == <<>>                                       \* the empty function

InitEnv == [home |-> "h", cwd |-> "w", rc |-> [set |-> FALSE], debug |-> FALSE]

Init == inst = Nothing /\ tab = Nothing /\ files = Nothing /\ env = InitEnv

PresetStage == [k |-> "conv", m |-> PresetMap]
NeoStage    == [k |-> "neo"]

(* ---- instances ---- *)
SetInst(i, st) == inst' = Put(inst, i, st) /\ UNCHANGED <<tab, files, env>>

New(i)          == SetInst(i, <<>>)
Preset(i)       == SetInst(i, <<PresetStage>>)
NeologdnNew(i)  == SetInst(i, <<NeoStage>>)
FromTable(i, t) == SetInst(i, <<ConvOf(tab[t])>>)

AddStage(i, st) == SetInst(i, Append(inst[i], st))
UsePreset(i)    == AddStage(i, PresetStage)
UseNeologdn(i)  == AddStage(i, NeoStage)
AddTable(i, t)  == AddStage(i, ConvOf(tab[t]))

\* a configuration yields an instance or an error and no instance
FromResult(i, res) == IF res.ok THEN SetInst(i, res.v) ELSE UNCHANGED vars
FromConfigFile(i, p, e) == FromResult(i, StagesIn(files, p, e))
LoadRc(i)               == FromResult(i, Loaded(files, env.home, env.cwd, env.rc))

(* ---- tables: the new item list r of table t is given and must be right ---- *)
SetTab(t, items) == tab' = Put(tab, t, items) /\ UNCHANGED <<inst, files, env>>

TableAdd(t, c, r)    == IsPlus(r, tab[t], c) /\ SetTab(t, r)
TableRemove(t, c, r) == IsMinus(r, tab[t], c) /\ SetTab(t, r)
TableCopy(t, u)      == SetTab(u, tab[t])

(* ---- surroundings ---- *)
SetFile(p, x)  == files' = Put(files, p, x) /\ UNCHANGED <<inst, tab, env>>
DelFile(p)     == files' = Cut(files, p) /\ UNCHANGED <<inst, tab, env>>
SetEnv(e)      == env' = e /\ UNCHANGED <<inst, tab, files>>
SetDebug(b)    == SetEnv([env EXCEPT !.debug = b])

(* ---- results ---- *)
Norm(i, s)    == ApplyAll(inst[i], s)
Records(i, s) == Outputs(inst[i], s)

(* The command: configuration, then the preset, then neologdn. *)
CliStages(preset, neo) ==
    LET c == Loaded(files, env.home, env.cwd, env.rc)
    IN IF ~c.ok THEN Err
       ELSE Ok(c.v \o (IF preset THEN <<PresetStage>> ELSE <<>>) \o (IF neo THEN <<NeoStage>> ELSE <<>>))

\* its input: the argument, or the first line of standard input without its line feed
FirstLine(s) == LET N == SelectSeq(Idx(s), LAMBDA i : s[i] = 10)
                IN IF N = <<>> THEN s ELSE SubSeq(s, 1, Head(N) - 1)

(* The Python constructor: file, or else discovery, or else nothing; then table,  *)
(* preset, neologdn.                                                               *)
PyStages(cfg, rc, table, preset, neo) ==
    LET base == IF cfg.set THEN StagesIn(files, cfg.p, cfg.e)
                ELSE IF rc THEN Loaded(files, env.home, env.cwd, env.rc)
                ELSE Ok(<<>>)
    IN IF ~base.ok THEN Err
       ELSE Ok(base.v \o (IF table.set THEN <<ConvOf(tab[table.t])>> ELSE <<>>)
                      \o (IF preset THEN <<PresetStage>> ELSE <<>>)
                      \o (IF neo THEN <<NeoStage>> ELSE <<>>))
=================================================================================
