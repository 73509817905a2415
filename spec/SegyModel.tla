----------------------------- MODULE SegyModel -----------------------------
(***************************************************************************)
(* SEG-Y writer and readers at the level of whole traces: the design that  *)
(* SegyIO refines to bytes.  A trace is a sort key and a number of         *)
(* samples; a file is the sequence of traces its writer accepted.  TLC     *)
(* visits every interleaving of calls within the bounds, and prints the    *)
(* programs (sequences of calls) that are then run on the real library.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Keys, Lens, MaxTraces, MaxCalls, Seqs, Srts, Record

VARIABLES fixed,     \* all traces of the file have this many samples; -1: any
          trcs,      \* traces written so far
          phase,     \* "write", "closed"
          rd,        \* handle -> [n |-> traces delivered, out |-> their
                     \*            indices, last |-> last answer of has_trace]
          calls,     \* number of reader calls made
          hist       \* the program
vars == <<fixed, trcs, phase, rd, calls, hist>>

Log(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
Readers == Seqs \cup Srts

Init == /\ fixed \in {-1} \cup Lens
        /\ trcs = <<>> /\ phase = "write" /\ rd = <<>> /\ calls = 0
        /\ hist = <<>>

-----------------------------------------------------------------------------
Write(k, n) ==
    /\ phase = "write" /\ Len(trcs) < MaxTraces
    /\ fixed # -1 => n = fixed
    /\ trcs' = Append(trcs, [k |-> k, n |-> n])
    /\ Log([op |-> "write", k |-> k, n |-> n])
    /\ UNCHANGED <<fixed, phase, rd, calls>>
Close ==
    /\ phase = "write" /\ phase' = "closed"
    /\ Log([op |-> "close"])
    /\ UNCHANGED <<fixed, trcs, rd, calls>>

(* the order in which a reader delivers the traces *)
Before(h, i, j) == IF h \in Srts /\ trcs[i].k # trcs[j].k
                   THEN trcs[i].k < trcs[j].k ELSE i < j
Order(h) == SetToSortSeq(1..Len(trcs), LAMBDA i, j : Before(h, i, j))

Call(h) == phase = "closed" /\ calls < MaxCalls /\ calls' = calls + 1
           /\ UNCHANGED <<fixed, trcs, phase>>
Live(h) == h \in DOMAIN rd
Open(h) ==
    /\ Call(h) /\ ~Live(h)
    /\ rd' = (h :> [n |-> 0, out |-> <<>>, last |-> TRUE]) @@ rd
    /\ Log([op |-> IF h \in Srts THEN "sopen" ELSE "ropen", h |-> h])
Has(h) ==
    /\ Call(h) /\ Live(h)
    /\ rd' = [rd EXCEPT ![h].last = rd[h].n < Len(trcs)]
    /\ Log([op |-> "has", h |-> h])
Read(h, op) ==
    /\ Call(h) /\ Live(h)
    /\ rd' = IF rd[h].n < Len(trcs)
             THEN [rd EXCEPT ![h].n = @ + 1,
                             ![h].out = Append(@, Order(h)[rd[h].n + 1])]
             ELSE [x \in DOMAIN rd \ {h} |-> rd[x]]    \* throws
    /\ Log([op |-> op, h |-> h])
CloseR(h) ==
    /\ Call(h) /\ Live(h)
    /\ rd' = [x \in DOMAIN rd \ {h} |-> rd[x]]
    /\ Log([op |-> "rclose", h |-> h])
(* queries of a sorted reader do not move it *)
Query(h, op, k, max) ==
    /\ Call(h) /\ Live(h) /\ h \in Srts
    /\ UNCHANGED rd
    /\ Log([op |-> op, h |-> h, k |-> k, max |-> max])

Next == \/ \E k \in Keys, n \in Lens : Write(k, n)
        \/ Close
        \/ \E h \in Readers :
              \/ Open(h) \/ Has(h) \/ CloseR(h)
              \/ \E op \in {"rhdr", "rtrc"} : Read(h, op)
        \/ \E h \in Srts : \/ Query(h, "keys", 0, 0)
                           \/ \E k \in Keys, m \in {0, 1, 9},
                                 op \in {"geth", "gett"} : Query(h, op, k, m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* file order: what a sequential reader delivered is the first n traces    *)
SeqExact == \A h \in DOMAIN rd \cap Seqs :
    rd[h].out = [i \in 1..rd[h].n |-> i]
(* sorted order: keys never decrease, equal keys keep file order, nothing   *)
(* is delivered before a smaller trace that is still waiting               *)
SrtExact == \A h \in DOMAIN rd \cap Srts :
    /\ \A i \in 1..(Len(rd[h].out) - 1) :
          LET a == rd[h].out[i] b == rd[h].out[i + 1] IN
          \/ trcs[a].k < trcs[b].k
          \/ trcs[a].k = trcs[b].k /\ a < b
    /\ \A i \in 1..Len(trcs), j \in Range(rd[h].out) :
          i \notin Range(rd[h].out) => trcs[j].k <= trcs[i].k
OnceEach == \A h \in DOMAIN rd : IsInjective(rd[h].out)
                                 /\ Len(rd[h].out) = rd[h].n
(* a reader that said it has no more traces delivered every one            *)
Complete == \A h \in DOMAIN rd :
    ~rd[h].last => Range(rd[h].out) = 1..Len(trcs)

(* for -simulate: prints the finished programs *)
Emit == (calls = MaxCalls) => PrintT("PROGRAM " \o ToJson(
            [fixed |-> fixed, calls |-> hist]))
=============================================================================
