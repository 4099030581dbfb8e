---------------------------- MODULE AllocProp ----------------------------
(***************************************************************************)
(* Which allocator a container has after a copy, a move or a swap.         *)
(* x, y: the allocators of the target and of the source before the call,   *)
(* g: an allocator given in the call, p: the set of propagation traits the *)
(* allocator type has ("ca": on copy assignment, "ma": on move assignment, *)
(* "sw": on swap).  The allocator of a moved-from container is left open.  *)
(***************************************************************************)
EXTENDS Integers

Bit(n, b) == (n \div b) % 2 = 1
Traits(n) == (IF Bit(n, 1) THEN {"ca"} ELSE {}) \cup (IF Bit(n, 2) THEN {"ma"} ELSE {}) \cup (IF Bit(n, 4) THEN {"sw"} ELSE {})

TargetAlloc(kind, x, y, g, p) ==
    CASE kind \in {"cc", "mc"} -> y                  \* construction takes the source's
      [] kind \in {"cg", "mg"} -> g                  \* ... or the one given
      [] kind \in {"ca", "ma"} -> IF kind \in p THEN y ELSE x
      [] kind = "sw" -> IF "sw" \in p THEN y ELSE x

AllocOk(kind, x, y, g, p, x2, y2) ==
    /\ x2 = TargetAlloc(kind, x, y, g, p)
    /\ kind \in {"cc", "cg", "ca"} => y2 = y
    /\ kind = "sw" => y2 = TargetAlloc(kind, y, x, g, p)

AllocEv(e) == AllocOk(e[2], e[3], e[4], e[5], Traits(e[8]), e[6], e[7])
==========================================================================
