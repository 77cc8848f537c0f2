------------------------------ MODULE Lifetime ------------------------------
(***************************************************************************)
(* Who owns which object, and until when.                                   *)
(*                                                                          *)
(* An object is a piece of dynamic storage, named by a number that is never *)
(* used again.  A call of the library goes through                          *)
(*                                                                          *)
(*    out --Enter--> in --Return--> result --Leave--> out                   *)
(*                                                                          *)
(* `mark` is what the caller owned at Enter (its graph, its weights).       *)
(* Between Enter and Return the library allocates and frees its own         *)
(* objects; whatever is left then belongs to the result and dies with it.   *)
(* A descriptor that the call hands out may only refer to storage that the  *)
(* caller owned before: storage of the library may be gone, now or when the *)
(* result is destroyed.  When the result is gone nothing may be left.       *)
(*                                                                          *)
(* There is no step for a fault (an access outside live objects, of freed   *)
(* or uninitialised storage, an overflow ...): a run in which a monitor     *)
(* reports one is no behaviour of this specification.                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
VARIABLES live, mark, next, phase
lvars == <<live, mark, next, phase>>

LInit == live = {} /\ mark = {} /\ next = 1 /\ phase = "out"

Alloc(o) == /\ o >= next /\ next' = o + 1
            /\ live' = live \cup {o}
            /\ UNCHANGED <<mark, phase>>
\* free: only what is alive, and inside a call only what the caller did not have before
CanFree(o, L) == o \in L /\ (phase = "out" \/ o \notin mark)
Free(o) == /\ CanFree(o, live)
           /\ live' = live \ {o}
           /\ UNCHANGED <<mark, next, phase>>
Enter == phase = "out" /\ phase' = "in" /\ mark' = live /\ UNCHANGED <<live, next>>
Return == phase = "in" /\ phase' = "result" /\ UNCHANGED <<live, mark, next>>
\* a descriptor inside the result refers to object o
Handed(o) == phase = "result" /\ o \in live \cap mark /\ UNCHANGED lvars
Leave == phase = "result" /\ live = mark /\ phase' = "out" /\ UNCHANGED <<live, mark, next>>

TypeOK == live \subseteq 1 .. next - 1 /\ mark \subseteq 1 .. next - 1 /\ phase \in {"out", "in", "result"}
CallerKept == phase # "out" => mark \subseteq live
=============================================================================
