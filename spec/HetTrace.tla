------------------------------ MODULE HetTrace ------------------------------
(***************************************************************************)
(* Keys in several representations.  A key of the specification is a class *)
(* of equal key values; every call of HashTrace may name it through any    *)
(* representation, and every representation of one class must hash to the  *)
(* same value.                                                             *)
(***************************************************************************)
EXTENDS HashTrace
VARIABLE hv      \* the hash values seen so far, by kind of hash and key class

HetInit == TraceInit /\ hv = <<>>
Hash(e) ==       \* kind class hi mid lo
    LET p == <<e[2], e[3]>> v == <<e[4], e[5], e[6]>> IN
    /\ p \in DOMAIN hv => hv[p] = v
    /\ hv' = IF p \in DOMAIN hv THEN hv ELSE (p :> v) @@ hv
    /\ Same /\ UNCHANGED arch
HetNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ IF Hd.ev[l][1] = "hsh" THEN Hash(Hd.ev[l]) ELSE Step(Hd.ev[l]) /\ UNCHANGED <<hv, arch>>
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, hvars, hv>>
HetSpec == HetInit /\ [][HetNext]_<<tvars, hvars, hv>>
=============================================================================
