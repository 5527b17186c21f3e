------------------------------- MODULE MC_Make ------------------------------
(***************************************************************************)
(* C29 (and C02): what a constructor makes of its parameters, for every    *)
(* kind, each of the three constructors, every combination of given and    *)
(* missing texts and small bounds.                                         *)
(***************************************************************************)
EXTENDS ArgTable, Json, IOUtils, TLC
CONSTANT Max0
Gen == IOEnv.GEN = "1"
Maybe(x) == {<<>>, <<B(x)>>}
VARIABLES d
Init == d \in [k : {"l", "i", "d", "s", "r", "f", "t"}, sh : Maybe("x"), lo : Maybe("xx"), dt : Maybe("T"), gl : Maybe("text"),
               mn : 0..Max0, mx : -1..Max0, opt : BOOLEAN, aux : Maybe("%H"), fl : {0}, ct : {"0", "1", "n"}]
        /\ (d.k = "l" => d.dt = <<>> /\ ~d.opt) /\ (d.k \notin {"r", "t"} => d.aux = <<>>) /\ (d.k = "r" => d.aux # <<>>)
        /\ (d.ct # "n" => d.mn = 0 /\ d.mx = 0)
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
e == Entry(d)
Described == /\ e.k = d.k /\ e.sh = d.sh /\ e.lo = d.lo /\ e.gl = d.gl /\ e.opt = d.opt
             /\ d.dt # <<>> => e.dt = d.dt
             /\ d.dt = <<>> /\ d.k # "l" => e.dt # <<>>
             /\ d.k = "l" => e.dt = <<>>
             /\ d.k = "r" => e.aux = d.aux
             /\ d.k = "t" => e.aux # <<>> /\ (d.aux # <<>> => e.aux = d.aux)
Bounds == /\ 0 <= e.mn /\ e.mn <= e.mx
          /\ d.ct = "0" => e.mn = 0 /\ e.mx = 1
          /\ d.ct = "1" => e.mn = 1 /\ e.mx = 1
          /\ d.ct = "n" => e.mn = d.mn /\ (d.mx >= d.mn => e.mx = d.mx)
Room == Slots(e) = IF d.k = "l" THEN 0 ELSE e.mx
Emit == IF Gen THEN PrintT(ToJson(<<"MAKE", d>>)) ELSE TRUE
=============================================================================
