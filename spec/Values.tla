------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Traces, trace headers and exceptions as values: objects the user        *)
(* creates, copies, moves, assigns and changes.  An object is a value of   *)
(* its own; no operation on one is seen through another, except that a     *)
(* moved-from object may only be assigned to or destroyed.                 *)
(*                                                                         *)
(* A trace is [k |-> "T", hdr |-> name -> value, smp |-> samples], a       *)
(* header [k |-> "H", hdr |-> ...], an exception [k |-> "E", msg |-> bytes]*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE obj
Gone == [k |-> "moved"]
Live(h) == h \in DOMAIN obj /\ obj[h].k # "moved"

Rng(s) == {s[i] : i \in 1..Len(s)}
Drop(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]

New(h, v) == obj' = (h :> v) @@ obj
Destroy(h) == h \in DOMAIN obj /\ obj' = Drop(obj, h)
(* construction of h, assignment to an existing h, from g *)
CopyTo(h, g) == Live(g) /\ obj' = (h :> obj[g]) @@ obj
MoveTo(h, g) == /\ Live(g)
                /\ obj' = IF h = g THEN obj
                          ELSE (h :> obj[g]) @@ (g :> Gone) @@ obj
Swap(h, g) == Live(h) /\ Live(g)
              /\ obj' = (h :> obj[g]) @@ (g :> obj[h]) @@ obj
(* hs[i] gets what hs[i + by] had *)
Rotate(hs, by) ==
    /\ \A i \in 1..Len(hs) : Live(hs[i])
    /\ LET at(x) == CHOOSE i \in 1..Len(hs) : hs[i] = x
           from(x) == hs[1 + ((at(x) - 1 + by) % Len(hs))]
       IN obj' = [x \in DOMAIN obj |-> IF x \in Rng(hs) THEN obj[from(x)]
                                       ELSE obj[x]]
Set(h, key, v) ==
    /\ Live(h)
    /\ obj' = [obj EXCEPT ![h].hdr = (key :> v) @@ @]
(* the header of a trace replaced by, or copied to, a header object *)
HeaderOf(h, t) == Live(t) /\ obj' = (h :> [k |-> "H", hdr |-> obj[t].hdr])
                                    @@ obj
SetHeader(t, h, move) ==
    /\ Live(t) /\ Live(h)
    /\ obj' = IF move THEN (t :> [obj[t] EXCEPT !.hdr = obj[h].hdr])
                           @@ (h :> Gone) @@ obj
              ELSE (t :> [obj[t] EXCEPT !.hdr = obj[h].hdr]) @@ obj

(* observations *)
GetOK(h, key, has, v) ==
    /\ Live(h) /\ has = (key \in DOMAIN obj[h].hdr)
    /\ has => v = obj[h].hdr[key]
KeysOK(h, ks) ==
    /\ Live(h)
    /\ Rng(ks) = DOMAIN obj[h].hdr
    /\ Len(ks) = Cardinality(DOMAIN obj[h].hdr)
LookOK(h, hdr, smp) ==
    /\ Live(h) /\ DOMAIN hdr = DOMAIN obj[h].hdr
    /\ \A n \in DOMAIN hdr : hdr[n] = obj[h].hdr[n]
    /\ obj[h].k = "T" => smp = obj[h].smp
WhatOK(h, msg) == Live(h) /\ msg = obj[h].msg
=============================================================================
