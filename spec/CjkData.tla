---------------------------------- MODULE CjkData ----------------------------------
(* Generated by tools/gen_cjk.py: U+3300..U+33FF and their compatibility equivalents. *)
EXTENDS Text

CjkTargets == <<
  <<12450, 12497, 12540, 12488>>,
  <<12450, 12523, 12501, 12449>>,
  <<12450, 12531, 12506, 12450>>,
  <<12450, 12540, 12523>>,
  <<12452, 12491, 12531, 12464>>,
  <<12452, 12531, 12481>>,
  <<12454, 12457, 12531>>,
  <<12456, 12473, 12463, 12540, 12489>>,
  <<12456, 12540, 12459, 12540>>,
  <<12458, 12531, 12473>>,
  <<12458, 12540, 12512>>,
  <<12459, 12452, 12522>>,
  <<12459, 12521, 12483, 12488>>,
  <<12459, 12525, 12522, 12540>>,
  <<12460, 12525, 12531>>,
  <<12460, 12531, 12510>>,
  <<12462, 12460>>,
  <<12462, 12491, 12540>>,
  <<12461, 12517, 12522, 12540>>,
  <<12462, 12523, 12480, 12540>>,
  <<12461, 12525>>,
  <<12461, 12525, 12464, 12521, 12512>>,
  <<12461, 12525, 12513, 12540, 12488, 12523>>,
  <<12461, 12525, 12527, 12483, 12488>>,
  <<12464, 12521, 12512>>,
  <<12464, 12521, 12512, 12488, 12531>>,
  <<12463, 12523, 12476, 12452, 12525>>,
  <<12463, 12525, 12540, 12493>>,
  <<12465, 12540, 12473>>,
  <<12467, 12523, 12490>>,
  <<12467, 12540, 12509>>,
  <<12469, 12452, 12463, 12523>>,
  <<12469, 12531, 12481, 12540, 12512>>,
  <<12471, 12522, 12531, 12464>>,
  <<12475, 12531, 12481>>,
  <<12475, 12531, 12488>>,
  <<12480, 12540, 12473>>,
  <<12487, 12471>>,
  <<12489, 12523>>,
  <<12488, 12531>>,
  <<12490, 12494>>,
  <<12494, 12483, 12488>>,
  <<12495, 12452, 12484>>,
  <<12497, 12540, 12475, 12531, 12488>>,
  <<12497, 12540, 12484>>,
  <<12496, 12540, 12524, 12523>>,
  <<12500, 12450, 12473, 12488, 12523>>,
  <<12500, 12463, 12523>>,
  <<12500, 12467>>,
  <<12499, 12523>>,
  <<12501, 12449, 12521, 12483, 12489>>,
  <<12501, 12451, 12540, 12488>>,
  <<12502, 12483, 12471, 12455, 12523>>,
  <<12501, 12521, 12531>>,
  <<12504, 12463, 12479, 12540, 12523>>,
  <<12506, 12477>>,
  <<12506, 12491, 12498>>,
  <<12504, 12523, 12484>>,
  <<12506, 12531, 12473>>,
  <<12506, 12540, 12472>>,
  <<12505, 12540, 12479>>,
  <<12509, 12452, 12531, 12488>>,
  <<12508, 12523, 12488>>,
  <<12507, 12531>>,
  <<12509, 12531, 12489>>,
  <<12507, 12540, 12523>>,
  <<12507, 12540, 12531>>,
  <<12510, 12452, 12463, 12525>>,
  <<12510, 12452, 12523>>,
  <<12510, 12483, 12495>>,
  <<12510, 12523, 12463>>,
  <<12510, 12531, 12471, 12519, 12531>>,
  <<12511, 12463, 12525, 12531>>,
  <<12511, 12522>>,
  <<12511, 12522, 12496, 12540, 12523>>,
  <<12513, 12460>>,
  <<12513, 12460, 12488, 12531>>,
  <<12513, 12540, 12488, 12523>>,
  <<12516, 12540, 12489>>,
  <<12516, 12540, 12523>>,
  <<12518, 12450, 12531>>,
  <<12522, 12483, 12488, 12523>>,
  <<12522, 12521>>,
  <<12523, 12500, 12540>>,
  <<12523, 12540, 12502, 12523>>,
  <<12524, 12512>>,
  <<12524, 12531, 12488, 12466, 12531>>,
  <<12527, 12483, 12488>>,
  <<48, 28857>>,
  <<49, 28857>>,
  <<50, 28857>>,
  <<51, 28857>>,
  <<52, 28857>>,
  <<53, 28857>>,
  <<54, 28857>>,
  <<55, 28857>>,
  <<56, 28857>>,
  <<57, 28857>>,
  <<49, 48, 28857>>,
  <<49, 49, 28857>>,
  <<49, 50, 28857>>,
  <<49, 51, 28857>>,
  <<49, 52, 28857>>,
  <<49, 53, 28857>>,
  <<49, 54, 28857>>,
  <<49, 55, 28857>>,
  <<49, 56, 28857>>,
  <<49, 57, 28857>>,
  <<50, 48, 28857>>,
  <<50, 49, 28857>>,
  <<50, 50, 28857>>,
  <<50, 51, 28857>>,
  <<50, 52, 28857>>,
  <<104, 80, 97>>,
  <<100, 97>>,
  <<65, 85>>,
  <<98, 97, 114>>,
  <<111, 86>>,
  <<112, 99>>,
  <<100, 109>>,
  <<100, 109, 50>>,
  <<100, 109, 51>>,
  <<73, 85>>,
  <<24179, 25104>>,
  <<26157, 21644>>,
  <<22823, 27491>>,
  <<26126, 27835>>,
  <<26666, 24335, 20250, 31038>>,
  <<112, 65>>,
  <<110, 65>>,
  <<181, 65>>,
  <<109, 65>>,
  <<107, 65>>,
  <<75, 66>>,
  <<77, 66>>,
  <<71, 66>>,
  <<99, 97, 108>>,
  <<107, 99, 97, 108>>,
  <<112, 70>>,
  <<110, 70>>,
  <<181, 70>>,
  <<181, 103>>,
  <<109, 103>>,
  <<107, 103>>,
  <<72, 122>>,
  <<107, 72, 122>>,
  <<77, 72, 122>>,
  <<71, 72, 122>>,
  <<84, 72, 122>>,
  <<181, 108>>,
  <<109, 108>>,
  <<100, 108>>,
  <<107, 108>>,
  <<102, 109>>,
  <<110, 109>>,
  <<181, 109>>,
  <<109, 109>>,
  <<99, 109>>,
  <<107, 109>>,
  <<109, 109, 50>>,
  <<99, 109, 50>>,
  <<109, 50>>,
  <<107, 109, 50>>,
  <<109, 109, 51>>,
  <<99, 109, 51>>,
  <<109, 51>>,
  <<107, 109, 51>>,
  <<109, 47, 115>>,
  <<109, 47, 115, 50>>,
  <<80, 97>>,
  <<107, 80, 97>>,
  <<77, 80, 97>>,
  <<71, 80, 97>>,
  <<114, 97, 100>>,
  <<114, 97, 100, 47, 115>>,
  <<114, 97, 100, 47, 115, 50>>,
  <<112, 115>>,
  <<110, 115>>,
  <<181, 115>>,
  <<109, 115>>,
  <<112, 86>>,
  <<110, 86>>,
  <<181, 86>>,
  <<109, 86>>,
  <<107, 86>>,
  <<77, 86>>,
  <<112, 87>>,
  <<110, 87>>,
  <<181, 87>>,
  <<109, 87>>,
  <<107, 87>>,
  <<77, 87>>,
  <<107, 937>>,
  <<77, 937>>,
  <<97, 46, 109, 46>>,
  <<66, 113>>,
  <<99, 99>>,
  <<99, 100>>,
  <<67, 47, 107, 103>>,
  <<67, 111, 46>>,
  <<100, 66>>,
  <<71, 121>>,
  <<104, 97>>,
  <<72, 80>>,
  <<105, 110>>,
  <<75, 46, 75, 46>>,
  <<75, 77>>,
  <<107, 116>>,
  <<108, 109>>,
  <<108, 110>>,
  <<108, 111, 103>>,
  <<108, 120>>,
  <<109, 98>>,
  <<109, 105, 108>>,
  <<109, 111, 108>>,
  <<112, 72>>,
  <<112, 46, 109, 46>>,
  <<112, 112, 109>>,
  <<80, 82>>,
  <<115, 114>>,
  <<83, 118>>,
  <<87, 98>>,
  <<86, 47, 109>>,
  <<65, 47, 109>>,
  <<49, 26085>>,
  <<50, 26085>>,
  <<51, 26085>>,
  <<52, 26085>>,
  <<53, 26085>>,
  <<54, 26085>>,
  <<55, 26085>>,
  <<56, 26085>>,
  <<57, 26085>>,
  <<49, 48, 26085>>,
  <<49, 49, 26085>>,
  <<49, 50, 26085>>,
  <<49, 51, 26085>>,
  <<49, 52, 26085>>,
  <<49, 53, 26085>>,
  <<49, 54, 26085>>,
  <<49, 55, 26085>>,
  <<49, 56, 26085>>,
  <<49, 57, 26085>>,
  <<50, 48, 26085>>,
  <<50, 49, 26085>>,
  <<50, 50, 26085>>,
  <<50, 51, 26085>>,
  <<50, 52, 26085>>,
  <<50, 53, 26085>>,
  <<50, 54, 26085>>,
  <<50, 55, 26085>>,
  <<50, 56, 26085>>,
  <<50, 57, 26085>>,
  <<51, 48, 26085>>,
  <<51, 49, 26085>>,
  <<103, 97, 108>>
>>

CjkFirst == 13056
CjkItems == Force([i \in 1..Len(CjkTargets) |-> << <<CjkFirst + i - 1>>, CjkTargets[i] >>])

Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
ASSUME CjkShape ==
    /\ Len(CjkTargets) = 256
    \* hours 0..24 of a day and days 1..31 of a month
    /\ \A h \in 0..24 : CjkTargets[89 + h] = Decimal(h) \o <<28857>>
    /\ \A d \in 1..31 : CjkTargets[224 + d] = Decimal(d) \o <<26085>>
=====================================================================================
