---- MODULE MCSplitDeque ----
EXTENDS SplitDeque
\* Spawns by level; the levels below spawn nothing
Sp2 == <<2, 0, 0, 0, 0>>
Sp11 == <<1, 1, 0, 0, 0>>
Sp3 == <<3, 0, 0, 0, 0>>
Sp31 == <<3, 1, 0, 0, 0>>
Sp21 == <<2, 1, 0, 0, 0>>
Sp22 == <<2, 2, 0, 0, 0>>
Sp4 == <<4, 0, 0, 0, 0>>
Sp5 == <<5, 0, 0, 0, 0>>
====
