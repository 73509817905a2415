------------------------------- MODULE HugeIO -------------------------------
(***************************************************************************)
(* Files larger than 2 and 4 GiB.  Positions are counted in units of four  *)
(* bytes, so a file may have up to 8 GiB; of a trace only its number, its  *)
(* number of samples and its length are seen, and of a short one the       *)
(* samples.  Traces are delivered in the order of the file, or of their    *)
(* numbers, wherever in the file they lie and however many there are.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, SequencesExt

VARIABLES files,   \* file -> [key, hdr, first, ntrl, tr, at]
          rd       \* reader -> [kind, f, pos or n, order]
vars == <<files, rd>>
Init == files = <<>> /\ rd = <<>>
Gone(f, x) == [k \in DOMAIN f \ {x} |-> f[k]]

(* where the traces start, and where the last one ends *)
RECURSIVE Place(_, _, _, _)
Place(L, i, p, s) ==
    IF i > Len(L.tr) THEN Append(s, p)
    ELSE LET b == p + L.tr[i].gap
         IN Place(L, i + 1, TLCEval(b + L.hdr + L.tr[i].u),
                  TLCEval(Append(s, b)))
Stanza == 800
Create(f, L, size) ==
    \E at \in {Place(L, 1, L.first, <<>>)} :
    /\ size = at[Len(at)] + Stanza * L.ntrl + L.rest   \* as it is on the disk
    /\ files' = (f :> (L @@ [at |-> at])) @@ files
    /\ rd' = [h \in {x \in DOMAIN rd : rd[x].f # f} |-> rd[h]]

Sorted(L) == SortSeq([i \in 1..Len(L.tr) |-> i],
                     LAMBDA a, b : L.tr[a].id < L.tr[b].id)
OpenReader(h, f, o) ==
    /\ o.res = "ok"
    /\ rd' = (h :> [kind |-> "seq", f |-> f, n |-> 1,
                    order |-> [i \in 1..Len(files[f].tr) |-> i]]) @@ rd
    /\ UNCHANGED files
OpenSorted(h, f, o) ==
    /\ o.res = "ok"
    /\ \E s \in {Sorted(files[f])} :
       rd' = (h :> [kind |-> "srt", f |-> f, n |-> 1, order |-> s]) @@ rd
    /\ UNCHANGED files
(* the trailer lies behind the last trace: stanza i is full of i *)
TrailerOK(f, t) ==
    /\ Len(t) = files[f].ntrl
    /\ \A i \in 1..Len(t) : Len(t[i]) = 4 * Stanza /\ t[i][4 * Stanza] = i

More(h) == rd[h].n <= Len(rd[h].order)
Has(h, res) == res = More(h) /\ UNCHANGED vars

Num(x) == <<0>> \o FromNat(x, 8)
TrcOK(L, i, hdr) ==
    /\ L.key \in DOMAIN hdr /\ hdr[L.key] = Num(L.tr[i].id)
    /\ L.tr[i].ns # <<>> => hdr["SAMP_NUM"] = <<0>> \o L.tr[i].ns
SmpOK(L, i, s) == L.tr[i].ns = <<>> \/      \* not known
    /\ Len(s) = Len(L.tr[i].smp)
    /\ \A k \in 1..Len(s) : SameDbl(s[k], L.tr[i].smp[k])
Advance(h) == rd' = [rd EXCEPT ![h].n = @ + 1] /\ UNCHANGED files
ReadHeader(h, o) ==
    \E r \in {rd[h]} :
    IF More(h) THEN /\ o.res = "ok"
                    /\ TrcOK(files[r.f], r.order[r.n], o.hdr) = TRUE
                    /\ Advance(h)
    ELSE o.res = "exc" /\ UNCHANGED vars
ReadTrace(h, o) ==
    \E r \in {rd[h]} :
    IF More(h) THEN /\ o.res = "ok"
                    /\ TrcOK(files[r.f], r.order[r.n], o.hdr) = TRUE
                    /\ SmpOK(files[r.f], r.order[r.n], o.smp) = TRUE
                    /\ Advance(h)
    ELSE o.res = "exc" /\ UNCHANGED vars

(* a run of traces, alike but for their numbers, is one entry *)
Skip(h, o) ==
    /\ o.res = "ok"
    /\ More(h)
    /\ \E r \in {rd[h]} : o.n = files[r.f].tr[r.order[r.n]].times
    /\ Advance(h)

Which(L, v) == CHOOSE i \in 1..Len(L.tr) : Num(L.tr[i].id) = v
Keys(h, o) ==
    /\ \E L \in {files[rd[h].f]} :
       o.keys = [i \in 1..Len(L.tr) |-> Num(L.tr[rd[h].order[i]].id)]
    /\ UNCHANGED vars
GetHeaders(h, v, o) ==
    /\ o.res = "ok" /\ Len(o.hdrs) = 1
    /\ \E L \in {files[rd[h].f]} : TrcOK(L, Which(L, v), o.hdrs[1]) = TRUE
    /\ UNCHANGED vars
GetTraces(h, v, o) ==
    /\ o.res = "ok" /\ Len(o.trcs) = 1
    /\ \E L \in {files[rd[h].f]} :
          /\ TrcOK(L, Which(L, v), o.trcs[1].hdr) = TRUE
          /\ SmpOK(L, Which(L, v), o.trcs[1].smp) = TRUE
    /\ UNCHANGED vars
Close(h) == rd' = Gone(rd, h) /\ UNCHANGED files
=============================================================================
