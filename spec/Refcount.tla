------------------------------ MODULE Refcount ------------------------------
(***************************************************************************)
(* Intrusive reference counting.                                           *)
(*                                                                         *)
(* Slots hold counted pointers (0 = null); raw[o] counts the references    *)
(* handed out by detach and not yet adopted.  An object is alive exactly   *)
(* as long as a slot or an outstanding raw reference refers to it.         *)
(*                                                                         *)
(* Slots have static types: "B" base, "D" derived, "C" pointer to const    *)
(* base.  Object o is of the derived class iff der[o].                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    ptr,    \* slot -> object or 0
    raw,    \* object -> outstanding raw references
    alive,  \* the objects that exist
    der,    \* objects of the derived class
    val,    \* object -> value stored in it
    rel     \* slots being released (concurrent executions)
rvars == <<ptr, raw, alive, der, val, rel>>

Slots == DOMAIN ptr
Objs == DOMAIN raw
Refs(p, r, o) == Cardinality({i \in DOMAIN p : p[i] = o}) + r[o]
Count(o) == Refs(ptr, raw, o)

\* the state after the pointers became p and the raw references r: whatever lost its last reference is destroyed
Becomes(p, r) ==
    /\ ptr' = p /\ raw' = r
    /\ alive' = {o \in alive : Refs(p, r, o) > 0}

RInit(nslots, nobjs) ==
    /\ ptr = [i \in 1..nslots |-> 0] /\ raw = [o \in 1..nobjs |-> 0]
    /\ alive = {} /\ der = {} /\ val = [o \in 1..nobjs |-> 0] /\ rel = {}

\* a new object o, owned by slot i
Make(i, o, isder, v) ==
    /\ o \notin alive
    /\ LET p == [ptr EXCEPT ![i] = o] IN
       ptr' = p /\ raw' = raw /\ alive' = {x \in alive : Refs(p, raw, x) > 0} \cup {o}
    /\ der' = (IF isder = 1 THEN der \cup {o} ELSE der \ {o})
    /\ val' = [val EXCEPT ![o] = v]
    /\ UNCHANGED rel
Same == UNCHANGED <<der, val, rel>>
Copy(i, j)  == Becomes([ptr EXCEPT ![i] = ptr[j]], raw) /\ Same
Move(i, j)  == Becomes(IF i = j THEN ptr ELSE [ptr EXCEPT ![i] = ptr[j], ![j] = 0], raw) /\ Same
Swap(i, j)  == Becomes([ptr EXCEPT ![i] = ptr[j], ![j] = ptr[i]], raw) /\ Same
Reset(i)    == Becomes([ptr EXCEPT ![i] = 0], raw) /\ Same
Point(i, o) == o \in alive /\ Becomes([ptr EXCEPT ![i] = o], raw) /\ Same              \* from a raw pointer, adding a reference
Detach(i)   == /\ Becomes([ptr EXCEPT ![i] = 0], IF ptr[i] = 0 THEN raw ELSE [raw EXCEPT ![ptr[i]] = @ + 1]) /\ Same
Adopt(i, o) == raw[o] > 0 /\ Becomes([ptr EXCEPT ![i] = o], [raw EXCEPT ![o] = @ - 1]) /\ Same
\* dynamic cast to the derived class: null for other objects; the moving form leaves the source alone when it fails
DynCopy(i, j) == Becomes([ptr EXCEPT ![i] = IF ptr[j] \in der THEN ptr[j] ELSE 0], raw) /\ Same
DynMove(i, j) == Becomes(IF ptr[j] \in der THEN [ptr EXCEPT ![i] = ptr[j], ![j] = 0] ELSE [ptr EXCEPT ![i] = 0], raw) /\ Same
Write(i, v) == ptr[i] # 0 /\ val' = [val EXCEPT ![ptr[i]] = v] /\ UNCHANGED <<ptr, raw, alive, der, rel>>
\* assigning or copying the objects themselves leaves the counts alone
Assign(i, j) == ptr[i] # 0 /\ ptr[j] # 0 /\ val' = [val EXCEPT ![ptr[i]] = val[ptr[j]]] /\ UNCHANGED <<ptr, raw, alive, der, rel>>

(***************************************************************************)
(* Concurrent executions: a release begins and ends, and the destruction   *)
(* of the object is an event of its own in between.                        *)
(***************************************************************************)
RelBegin(i) == i \notin rel /\ rel' = rel \cup {i} /\ UNCHANGED <<ptr, raw, alive, der, val>>
Destroyed(o) ==
    /\ o \in alive
    /\ \A i \in Slots : ptr[i] = o => i \in rel
    /\ raw[o] = 0
    /\ alive' = alive \ {o}
    /\ UNCHANGED <<ptr, raw, der, val, rel>>
RelEnd(i) ==
    LET o == ptr[i] IN
    /\ i \in rel
    /\ (o # 0 /\ Cardinality({j \in Slots : ptr[j] = o}) = 1) => o \notin alive       \* the last one out has destroyed it
    /\ ptr' = [ptr EXCEPT ![i] = 0]
    /\ rel' = rel \ {i}
    /\ UNCHANGED <<raw, alive, der, val>>
\* a concurrent copy: the target counts from the start, the source keeps the object alive
Share(i, j) == ptr[i] = 0 /\ i \notin rel /\ j \notin rel /\ ptr' = [ptr EXCEPT ![i] = ptr[j]] /\ UNCHANGED <<raw, alive, der, val, rel>>
Use(i, v) == ptr[i] \in alive /\ i \notin rel /\ val[ptr[i]] = v /\ UNCHANGED rvars

AliveIffReferenced == rel = {} => \A o \in Objs : (o \in alive) <=> (Count(o) > 0)
NoDangling == \A i \in Slots : i \notin rel => (ptr[i] = 0 \/ ptr[i] \in alive)
=============================================================================
