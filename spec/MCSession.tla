---- MODULE MCSession ----
EXTENDS Session
Ops1 == <<1>>
Ops2 == <<2>>
Ops3 == <<3>>
Ops4 == <<4>>
Ops5 == <<5>>
Ops11 == <<1, 1>>
Ops21 == <<2, 1>>
Ops22 == <<2, 2>>
Ops111 == <<1, 1, 1>>
Ops211 == <<2, 1, 1>>
Ops0111 == <<0, 1, 1, 1>>
====
