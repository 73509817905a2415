------------------------------ MODULE FaultIO ------------------------------
(***************************************************************************)
(* Readers and writers on a device that fails.  A file is seen as its      *)
(* number of bytes: size[k] is the length of the file after k traces, as   *)
(* the same program produces it on a healthy device.  The device fails     *)
(* when the budget of bytes is used up, for good or once.                  *)
(*                                                                         *)
(* Writers buffer, so a call may return before its bytes are stored; but   *)
(* never more than Buffer bytes late, never after a call has failed, and   *)
(* what is stored is always a beginning of the intended file.  Readers     *)
(* deliver the true traces or fail.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Buffer

VARIABLES size,    \* sizes of the intended file, size[1] without traces
          w,       \* [open, n traces accepted, failed]
          r        \* [open, n traces delivered]
vars == <<size, w, r>>
None == [open |-> FALSE, n |-> 0, failed |-> FALSE]
Init == size = <<>> /\ w = None /\ r = None

Total == Len(size) - 1
Reference(s) == size' = s /\ w' = None /\ r' = None

(* fired: the device failed during this call *)
OpenWriter(res, fired) ==
    /\ ~w.open
    /\ \/ res = "ok" /\ ~fired /\ w' = [None EXCEPT !.open = TRUE]
       \/ res = "exc" /\ fired /\ w' = None
    /\ UNCHANGED <<size, r>>
Write(res, stored, fired) ==
    /\ w.open /\ w.n < Total
    /\ \/ /\ res = "ok" /\ ~w.failed /\ ~fired
          /\ stored <= size[w.n + 2] /\ stored >= size[w.n + 2] - Buffer
          /\ w' = [w EXCEPT !.n = @ + 1]
       \/ /\ res = "exc" /\ (w.failed \/ fired)
          /\ w' = [w EXCEPT !.failed = TRUE]
    /\ UNCHANGED <<size, r>>
(* the file is complete, or the device failed and it is a beginning of it  *)
CloseWriter(stored, prefix, fired) ==
    /\ w.open /\ prefix
    /\ stored = size[w.n + 1] \/ w.failed \/ fired
    /\ w' = None /\ UNCHANGED <<size, r>>

OpenReader(res, fired) ==
    /\ \/ res = "ok" /\ r' = [None EXCEPT !.open = TRUE]
       \/ res = "exc" /\ fired /\ r' = None
    /\ UNCHANGED <<size, w>>
Read(res, same, fired) ==
    /\ r.open
    /\ \/ res = "ok" /\ r.n < Total /\ same /\ r' = [r EXCEPT !.n = @ + 1]
       \/ res = "exc" /\ (fired \/ r.n = Total) /\ r' = None
    /\ UNCHANGED <<size, w>>
CloseReader == r' = None /\ UNCHANGED <<size, w>>
=============================================================================
