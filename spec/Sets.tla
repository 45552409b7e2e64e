---------------------------------- MODULE Sets ----------------------------------
(* The predefined one-to-one character sets, written from Unicode's block       *)
(* arithmetic and the documentation, not from the implementation's tables.      *)
(* A character map is a function from code points to code points.               *)
EXTENDS Text

Pairs(S) == [c \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = c)[2]]

(* Full-width forms lie 0xFEE0 above ASCII. *)
FullWidth == 65248
Shift(lo, hi) == [c \in (lo + FullWidth)..(hi + FullWidth) |-> c - FullWidth]

Over(f, g) == [c \in DOMAIN f \cup DOMAIN g |-> IF c \in DOMAIN f THEN f[c] ELSE g[c]]

DigitMap    == Shift(48, 57)
AlphabetMap == Over(Shift(65, 90), Shift(97, 122))

(* Every full-width punctuation mark but the straight quotes and the tilde;     *)
(* the quotes are the typographic ones, the tilde is the wave dash, and the yen *)
(* sign stays a yen sign.                                                        *)
PunctShift == LET P == (33..47) \cup (58..64) \cup (91..96) \cup (123..125)
                  Q == P \ {34, 39}
              IN [c \in {q + FullWidth : q \in Q} |-> c - FullWidth]
PunctuationMap == Over(PunctShift,
                       Pairs({<<8221, 34>>,      \* right double quotation mark
                              <<8217, 39>>,      \* right single quotation mark
                              <<65509, 165>>,    \* full-width yen sign -> yen sign
                              <<12316, 126>>}))  \* wave dash -> tilde

(* Half-width katakana FF66..FF9D in code point order, prolonged sound mark     *)
(* (FF70) left out.                                                              *)
HalfKana == <<
  (* ｦ *) 12530,
  (* ｧｨｩｪｫ *) 12449, 12451, 12453, 12455, 12457,
  (* ｬｭｮ *) 12515, 12517, 12519,
  (* ｯ *) 12483,
  (* ｰ *) 0,
  (* ｱｲｳｴｵ *) 12450, 12452, 12454, 12456, 12458,
  (* ｶｷｸｹｺ *) 12459, 12461, 12463, 12465, 12467,
  (* ｻｼｽｾｿ *) 12469, 12471, 12473, 12475, 12477,
  (* ﾀﾁﾂﾃﾄ *) 12479, 12481, 12484, 12486, 12488,
  (* ﾅﾆﾇﾈﾉ *) 12490, 12491, 12492, 12493, 12494,
  (* ﾊﾋﾌﾍﾎ *) 12495, 12498, 12501, 12504, 12507,
  (* ﾏﾐﾑﾒﾓ *) 12510, 12511, 12512, 12513, 12514,
  (* ﾔﾕﾖ *) 12516, 12518, 12520,
  (* ﾗﾘﾙﾚﾛ *) 12521, 12522, 12523, 12524, 12525,
  (* ﾜ *) 12527, (* ﾝ *) 12531 >>
KanaLetterMap == [c \in (65382..65437) \ {65392} |-> HalfKana[c - 65381]]
KanaMap == Over(KanaLetterMap,
                Pairs({<<65377, 12290>>,    \* ｡ 。
                       <<65378, 12300>>,    \* ｢ 「
                       <<65379, 12301>>,    \* ｣ 」
                       <<65380, 12289>>,    \* ､ 、
                       <<65381, 12539>>,    \* ･ ・
                       <<12288, 32>>}))     \* ideographic space

PresetMap == Over(Over(DigitMap, PunctuationMap), Over(AlphabetMap, KanaMap))

(* ---- neologdn ---- *)
Choonpu == 12540                                                   \* ー
ChoonpuVariants == {65123, 65392, 8212, 8213, 9472, 9473}          \* ﹣ ｰ — ― ─ ━
HyphenVariants  == {727, 1418, 8208, 8209, 8210, 8211, 8259, 8315, 8331, 8722, 65293}
Tildes          == {126, 8764, 8766, 12316, 12336, 65374}          \* ~ ∼ ∾ 〜 〰 ～
EqualSign       == 65309                                           \* ＝

NeoMap == Over([c \in ChoonpuVariants |-> Choonpu],
          Over([c \in HyphenVariants |-> 45],
               [c \in DOMAIN PresetMap \ {EqualSign} |-> PresetMap[c]]))

(* Kana that compose with the full-width voiced sound mark (to the next code    *)
(* point, except u) and with the semi-voiced mark (to the second next).         *)
Ten  == 12443                                                      \* ゛
Maru == 12444                                                      \* ゜
HiraTen == {12363, 12365, 12367, 12369, 12371, 12373, 12375, 12377, 12379, 12381,
            12383, 12385, 12388, 12390, 12392, 12399, 12402, 12405, 12408, 12411}
HiraMaru == {12399, 12402, 12405, 12408, 12411}
KataOf(S) == {c + 96 : c \in S}
TenMap  == Over([c \in HiraTen \cup KataOf(HiraTen) |-> c + 1],
                Pairs({<<12358, 12436>>, <<12454, 12532>>}))        \* う゛ ゔ, ウ゛ ヴ
MaruMap == [c \in HiraMaru \cup KataOf(HiraMaru) |-> c + 2]

Composes(a, b) == (b = Ten /\ a \in DOMAIN TenMap) \/ (b = Maru /\ a \in DOMAIN MaruMap)
Composed(a, b) == IF b = Ten THEN TenMap[a] ELSE MaruMap[a]

(* The same as a table of sequences, for the ligature stage. *)
KanaLigatures ==
    [p \in {<<c, Ten>> : c \in DOMAIN TenMap} \cup {<<c, Maru>> : c \in DOMAIN MaruMap}
       |-> <<Composed(p[1], p[2])>>]

ASSUME SetsShape ==
    /\ Cardinality(DOMAIN DigitMap) = 10
    /\ Cardinality(DOMAIN AlphabetMap) = 52
    /\ Cardinality(DOMAIN PunctuationMap) = 33
    /\ Cardinality(DOMAIN KanaMap) = 61
    /\ Cardinality(DOMAIN PresetMap) = 10 + 52 + 33 + 61     \* no source in common
    /\ Cardinality(DOMAIN TenMap) = 42 /\ Cardinality(DOMAIN MaruMap) = 10
    \* no target is a source again: conversion by the preset is idempotent
    /\ \A c \in DOMAIN PresetMap : PresetMap[c] \notin DOMAIN PresetMap
    /\ \A c \in DOMAIN NeoMap : NeoMap[c] \notin DOMAIN NeoMap
=================================================================================
