---------------------------- MODULE ValuesModel ----------------------------
(***************************************************************************)
(* Every program over a few trace, header and exception objects, within    *)
(* bounds.  TLC visits them all, checks that objects stay independent, and *)
(* prints the programs that are run on the real library.                   *)
(***************************************************************************)
EXTENDS Values, Json

CONSTANTS TH, HH, EH,     \* names of trace, header and exception objects
          Keys, Vals, MaxOps, Record

VARIABLES hist, n, prev, touched
vars == <<obj, hist, n, prev, touched>>
Do(a, who, e) ==
    /\ n < MaxOps /\ a
    /\ n' = n + 1 /\ prev' = obj /\ touched' = who
    /\ hist' = IF Record THEN Append(hist, e) ELSE hist
Kind(h) == IF h \in TH THEN "T" ELSE IF h \in HH THEN "H" ELSE "E"
Names == TH \cup HH \cup EH
Fresh(h) == CASE h \in TH -> [k |-> "T", hdr |-> <<>>, smp |-> <<n>>]
              [] h \in HH -> [k |-> "H", hdr |-> <<>>]
              [] OTHER -> [k |-> "E", msg |-> <<n>>]

Init == obj = <<>> /\ hist = <<>> /\ n = 0 /\ prev = <<>> /\ touched = {}
Next ==
    \/ \E h \in Names \ DOMAIN obj :
          Do(New(h, Fresh(h)), {h}, [op |-> "new", h |-> h])
    \/ \E h \in DOMAIN obj : Do(Destroy(h), {h}, [op |-> "del", h |-> h])
    \/ \E h \in Names \ DOMAIN obj, g \in DOMAIN obj :
          Kind(h) = Kind(g) /\
          \/ Do(CopyTo(h, g), {h}, [op |-> "cpy", h |-> h, g |-> g])
          \/ Do(MoveTo(h, g), {h, g}, [op |-> "mov", h |-> h, g |-> g])
          \/ /\ h \in EH
             /\ Do(CopyTo(h, g), {h}, [op |-> "throw", h |-> h, g |-> g])
    \/ \E h \in DOMAIN obj \ EH, g \in DOMAIN obj \ EH :
          Kind(h) = Kind(g) /\
          \/ Do(CopyTo(h, g), {h}, [op |-> "asg", h |-> h, g |-> g])
          \/ Do(MoveTo(h, g), {h, g}, [op |-> "mas", h |-> h, g |-> g])
          \/ h # g /\ Do(Swap(h, g), {h, g}, [op |-> "swp", h |-> h, g |-> g])
    \/ \E h \in DOMAIN obj \ EH, k \in Keys, v \in Vals :
          Do(Set(h, k, v), {h}, [op |-> "set", h |-> h, k |-> k, v |-> v])
    \/ \E h \in HH \ DOMAIN obj, t \in TH \cap DOMAIN obj :
          Do(HeaderOf(h, t), {h}, [op |-> "hof", h |-> h, g |-> t])
    \/ \E h \in HH \cap DOMAIN obj, t \in TH \cap DOMAIN obj, m \in BOOLEAN :
          Do(SetHeader(t, h, m), {t, h},
             [op |-> "hset", h |-> t, g |-> h, move |-> m])
Spec == Init /\ [][Next]_vars

(* an operation changes the objects it names and no other *)
Independent == \A x \in (DOMAIN obj \cup DOMAIN prev) \ touched :
    x \in DOMAIN obj /\ x \in DOMAIN prev /\ obj[x] = prev[x]
(* what a copy holds is what its source held *)
TypeOK == \A h \in DOMAIN obj : obj[h].k \in {"moved", Kind(h)}
Emit == (n = MaxOps) => PrintT("PROGRAM " \o ToJson([calls |-> hist]))
=============================================================================
