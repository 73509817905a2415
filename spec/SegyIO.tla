------------------------------- MODULE SegyIO -------------------------------
(***************************************************************************)
(* The SEG-Y half of the library as a state machine.  One action per       *)
(* public call; the parameter o of an action is what the call returned or  *)
(* left behind, so that the module can be run against a recorded history.  *)
(* o.res is "ok" or "exc" (the call threw).                                *)
(*                                                                         *)
(* Aspects selects what is compared.  The position of every cursor and the *)
(* set of calls that must throw are always compared; the rest of what a    *)
(* call returns is compared when its aspect is selected, so that a check   *)
(* of one property does not report a violation of another one.             *)
(***************************************************************************)
EXTENDS SegyFormat

CONSTANT Aspects
(* "= TRUE" makes TLC evaluate the condition as a value; as a conjunct of an
   action every disjunction in it would be explored as a separate branch. *)
Chk(a, c) == ((a \in Aspects) => c) = TRUE

VARIABLES disk,    \* file name -> bytes
          rd,      \* handle -> reader
          wr,      \* handle -> writer
          wrote    \* file name -> traces written to it by a closed writer
vars == <<disk, rd, wr, wrote>>

Without(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]

Init == disk = <<>> /\ rd = <<>> /\ wr = <<>> /\ wrote = <<>>

CreateFile(f, bytes) ==
    /\ disk' = (f :> bytes) @@ disk
    /\ wrote' = Without(wrote, f)
    /\ UNCHANGED <<rd, wr>>

-----------------------------------------------------------------------------
(* Sequential reader *)

OpenObsOK(o, f, ly) ==
    /\ Chk("bh", BhMatches(o.bh, ly.bh, f))
    /\ Chk("text", o.text = TextRecords(f, ly))
    /\ Chk("trl", o.trl = TrailerRecords(f, ly))

LayoutOf(f, hasOvr, ovr, maps) ==
    IF f \in DOMAIN disk THEN Layout(disk[f], hasOvr, ovr, maps) ELSE NotOk

(* here and below, a quantifier over one value binds it once *)
OpenReader(h, f, maps, hasOvr, ovr, o) ==
    \E ly \in {LayoutOf(f, hasOvr, ovr, maps)} :
    /\ o.res = (IF ly.ok THEN "ok" ELSE "exc")
    /\ (ly.ok => OpenObsOK(o, disk[f], ly)) = TRUE
    /\ rd' = IF ly.ok
             THEN (h :> [kind |-> "seq", f |-> f, ly |-> ly, pos |-> ly.first,
                         n |-> 0]) @@ rd
             ELSE rd
    /\ UNCHANGED <<disk, wr, wrote>>

(* ISEGY::read_binary_header *)
ReadBinary(f, o) ==
    /\ (o.res = "ok" =>
          /\ EndianOK(disk[f])
          /\ Chk("bh", BhMatches(o.bh, FileBh(disk[f]), disk[f]))) = TRUE
    /\ UNCHANGED vars

Has(h, o) ==
    LET r == rd[h] IN
    /\ o.res = (IF r.kind = "seq" THEN r.pos # r.ly.end
                ELSE r.n < Len(r.order))
    /\ UNCHANGED vars

(* where the next trace of reader r starts; -1 when there is none *)
Cursor(r) == IF r.kind = "seq" THEN (IF r.pos = r.ly.end THEN -1 ELSE r.pos)
             ELSE IF r.n < Len(r.order) THEN r.order[r.n + 1] ELSE -1

(* every trace lies before the end of the trace data *)
HdrFits(F, p, ly) == p >= 0 /\ HdrIn(F, p, ly, ly.end)
TrcFits(F, p, ly) == HdrFits(F, p, ly) /\ p + TrcLen(F, p, ly) <= ly.end
(* skipping the samples of a fixed-length trace does not look at them *)
HdrReadable(F, p, ly) == IF ly.fixed THEN HdrFits(F, p, ly)
                         ELSE TrcFits(F, p, ly)

HdrObsOK(hdr, F, p, ly) == Chk("hdr", HdrMatches(hdr, F, p,
                                                    EffAt(F, p, ly), ly.little))
SmpObsOK(smp, F, p, ly) ==
    /\ Chk("nsmp", Len(smp) = SampNum(F, p, ly))
    /\ Chk("smp", SamplesMatch(smp, F, p + HdrLen(F, p, ly), SampNum(F, p, ly), ly))

(* the trace read is the trace that was written, for files this library    *)
(* wrote and that are read back in file order                              *)
(* an integer stored in a floating field reads back as a floating number   *)
SameNum(a, b) == \/ SameVal(a, b)
                 \/ a[1] # b[1] /\ SameDbl(ValDbl(a), ValDbl(b))
RoundTripOK(r, o, withSmp) ==
    r.kind = "seq" /\ r.f \in DOMAIN wrote =>
        /\ r.n < Len(wrote[r.f])
        /\ LET t == wrote[r.f][r.n + 1] IN
           /\ LET e == EffAt(disk[r.f], Cursor(r), r.ly) IN
              \A k \in 1..Len(e) : e[k][3] \in DOMAIN o.hdr
           /\ \A n \in DOMAIN o.hdr :
                 SameNum(o.hdr[n], IF n \in DOMAIN t.hdr THEN t.hdr[n]
                                   ELSE <<o.hdr[n][1]>> \o Zeros(8))
           /\ withSmp => /\ Len(o.smp) = Len(t.smp)
                         /\ \A i \in 1..Len(t.smp) : SameDbl(o.smp[i], t.smp[i])

Advance(h, F, p) ==
    LET r == rd[h] IN
    rd' = [rd EXCEPT ![h] = [r EXCEPT !.n = @ + 1,
                                      !.pos = p + TrcLen(F, p, r.ly)]]

(* A read past the last trace is refused and changes nothing; after any    *)
(* other failed read nothing is specified of the reader (Lost)             *)
AtEnd(r) == IF r.kind = "seq" THEN r.pos = r.ly.end ELSE r.n >= Len(r.order)
Refused(h) == rd' = IF AtEnd(rd[h]) THEN rd ELSE Without(rd, h)
Lost(h) == h \notin DOMAIN rd /\ UNCHANGED vars
ReadHeader(h, o) ==
    \E r \in {rd[h]}, F \in {disk[rd[h].f]}, p \in {Cursor(rd[h])} :
    LET fits == HdrReadable(F, p, r.ly) IN
    /\ o.res = (IF fits THEN "ok" ELSE "exc")
    /\ IF fits
       THEN /\ HdrObsOK(o.hdr, F, p, r.ly) = TRUE
            /\ Chk("rt", RoundTripOK(r, o, FALSE))
            /\ Advance(h, F, p)
       ELSE Refused(h)
    /\ UNCHANGED <<disk, wr, wrote>>

ReadTrace(h, o) ==
    \E r \in {rd[h]}, F \in {disk[rd[h].f]}, p \in {Cursor(rd[h])} :
    LET fits == TrcFits(F, p, r.ly) IN
    /\ o.res = (IF fits THEN "ok" ELSE "exc")
    /\ IF fits
       THEN /\ HdrObsOK(o.hdr, F, p, r.ly) = TRUE
            /\ SmpObsOK(o.smp, F, p, r.ly) = TRUE
            /\ Chk("rt", RoundTripOK(r, o, TRUE))
            /\ Advance(h, F, p)
       ELSE Refused(h)
    /\ UNCHANGED <<disk, wr, wrote>>

CloseReader(h) ==
    /\ rd' = Without(rd, h)
    /\ UNCHANGED <<disk, wr, wrote>>

(* a reader that says it has no more traces, on a file this library wrote, *)
(* has delivered all of them                                               *)
DrainOK(h) == LET r == rd[h] IN
    r.kind = "seq" /\ r.f \in DOMAIN wrote /\ r.pos = r.ly.end
        => r.n = Len(wrote[r.f])

-----------------------------------------------------------------------------
(* Reader sorted by one header *)

KeyAt(F, p, key, ly) ==
    LET e == Entry(EffAt(F, p, ly), key) IN DecField(e[4], FieldBytes(F, p, e, ly.little))
ValLess(a, b) == IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE IF a[1] = 0 THEN IntLess(Tail(a), Tail(b))
                 ELSE DblLess(Tail(a), Tail(b))

(* stable merge sort of the positions i..j by key *)
RECURSIVE Merge(_, _, _, _, _, _)
Merge(a, b, i, j, acc, keys) ==
    IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
    ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
    ELSE IF ValLess(keys[b[j]], keys[a[i]])
         THEN Merge(a, b, i, j + 1, TLCEval(Append(acc, b[j])), keys)
         ELSE Merge(a, b, i + 1, j, TLCEval(Append(acc, a[i])), keys)
RECURSIVE SortIdx(_, _, _)
SortIdx(i, j, keys) ==
    IF i > j THEN <<>>
    ELSE IF i = j THEN <<i>>
    ELSE LET m == (i + j) \div 2
             a == TLCEval(SortIdx(i, m, keys))
             b == TLCEval(SortIdx(m + 1, j, keys))
         IN Merge(a, b, 1, 1, <<>>, keys)

HasKey(F, p, key, ly) == Entry(EffAt(F, p, ly), key) # <<>>

OpenSorted(h, f, key, maps, hasOvr, ovr, o) ==
    \E ly \in {LayoutOf(f, hasOvr, ovr, maps)} :
    \E ps \in {IF ly.ok THEN Positions(disk[f], ly.first, ly) ELSE <<>>} :
    LET F == disk[f]
        bad == \E i \in 1..Len(ps) : ps[i] = -1 \/ ~HasKey(F, ps[i], key, ly)
        ok == ly.ok /\ ~bad
    IN /\ o.res = (IF ok THEN "ok" ELSE "exc")
       /\ (ok => OpenObsOK(o, F, ly)) = TRUE
       /\ IF ok
          THEN \E keys \in {[i \in 1..Len(ps) |-> KeyAt(F, ps[i], key, ly)]} :
               \E idx \in {SortIdx(1, Len(ps), keys)} :
                  rd' = (h :> [kind |-> "srt", f |-> f, ly |-> ly,
                               pos |-> 0, n |-> 0,
                               order |-> [i \in 1..Len(idx) |-> ps[idx[i]]],
                               keys |-> [i \in 1..Len(idx) |-> keys[idx[i]]]])
                        @@ rd
          ELSE rd' = rd
       /\ UNCHANGED <<disk, wr, wrote>>

Keys(h, o) ==
    LET r == rd[h]
        firsts == SelectSeq([i \in 1..Len(r.keys) |-> i],
                    LAMBDA i : i = 1 \/ ValLess(r.keys[i-1], r.keys[i]))
    IN /\ Chk("keys", /\ Len(o.keys) = Len(firsts)
                      /\ \A i \in 1..Len(firsts) :
                            SameVal(o.keys[i], r.keys[firsts[i]]))
       /\ UNCHANGED vars

(* positions answering a query for key v, at most max of them *)
Answer(r, v, max) ==
    LET all == SelectSeq([i \in 1..Len(r.keys) |-> i],
                         LAMBDA i : SameVal(r.keys[i], v))
    IN [i \in 1..(IF Len(all) < max THEN Len(all) ELSE max)
            |-> r.order[all[i]]]
GetHeaders(h, v, max, o) ==
    LET r == rd[h] a == Answer(r, v, max) IN
    /\ o.res = "ok"
    /\ Chk("get", /\ Len(o.hdrs) = Len(a)
                  /\ \A i \in 1..Len(a) : HdrMatches(o.hdrs[i], disk[r.f], a[i],
                                                     EffAt(disk[r.f], a[i], r.ly),
                                                     r.ly.little))
    /\ UNCHANGED vars
GetTraces(h, v, max, o) ==
    LET r == rd[h] a == Answer(r, v, max) F == disk[r.f] IN
    /\ o.res = "ok"
    /\ Chk("get", /\ Len(o.trcs) = Len(a)
                  /\ \A i \in 1..Len(a) :
                        /\ HdrMatches(o.trcs[i].hdr, F, a[i],
                                      EffAt(F, a[i], r.ly), r.ly.little)
                        /\ SamplesMatch(o.trcs[i].smp, F,
                                        a[i] + HdrLen(F, a[i], r.ly),
                                        SampNum(F, a[i], r.ly), r.ly))
    /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Writers.  texts is the sequence of text headers given (empty: default). *)

WOpenFails(rev, texts, bh, trls, maps) ==
    \/ ~MapOK(maps)
    \/ /\ ToInt(bh["SEGY_rev_major_ver"]) > 1
       /\ Nadd(bh) # 0 /\ Len(maps) # Nadd(bh) + 1
    \/ \E i \in 1..Len(texts) : Len(texts[i]) # TEXT
    \/ \E i \in 1..Len(trls) : Len(trls[i]) # TEXT
    \/ ~WEndianOK(bh)
    \/ ToInt(bh["format_code"]) \notin (Formats \cup {0})

OpenWriter(h, f, rev, texts, bh, trls, maps, o) ==
    LET fails == WOpenFails(rev, texts, bh, trls, maps)
        nt == IF Len(texts) = 0 THEN 1 ELSE Len(texts)
        wbh == WriterBh(rev, bh, nt, Len(trls))
        def == BhIsDefault(rev, bh)
    IN /\ o.res = (IF fails THEN "exc" ELSE "ok")
       /\ wr' = IF fails THEN wr
                ELSE (h :> [f |-> f, rev |-> rev, texts |-> texts,
                            trls |-> trls, maps |-> maps, bh |-> wbh,
                            def |-> def,
                            fixed |-> rev = 0 \/
                                      ~AllZero(wbh["fixed_tr_length"]),
                            nadd |-> IF rev = 2 THEN Nadd(wbh) ELSE 0,
                            trcs |-> <<>>]) @@ wr
       /\ disk' = Without(disk, f)
       /\ wrote' = Without(wrote, f)
       /\ UNCHANGED rd

(* What write_trace must do with t: "ok" or "rej" (throw, nothing written, *)
(* the writer can go on)                                                   *)
Int16Max == 32767
HasInt(t, n) == n \in DOMAIN t.hdr /\ t.hdr[n][1] = 0
FirstOfDefault(w) == w.def /\ Len(w.trcs) = 0
DefaultRejects(w, t) ==
    \/ ~HasInt(t, "SAMP_NUM")
    \/ ToInt(Tail(t.hdr["SAMP_NUM"])) > Int16Max
    \/ "SAMP_INT" \notin DOMAIN t.hdr
    \/ LET i == DblToInt(ValDbl(t.hdr["SAMP_INT"]), 8)
           big == /\ ~AllZero(ValDbl(t.hdr["SAMP_INT"]))
                  /\ DblSign(ValDbl(t.hdr["SAMP_INT"])) = 0
                  /\ DblLess(IntDbl(<<127, 255>>, TRUE),
                             ValDbl(t.hdr["SAMP_INT"]))
       IN big \/ AllZero(i)
BhAfter(w, t) ==
    IF FirstOfDefault(w)
    THEN [w.bh EXCEPT !["samp_per_tr"] = Tail(t.hdr["SAMP_NUM"]),
                      !["samp_int"] = DblToInt(ValDbl(t.hdr["SAMP_INT"]), 8)]
    ELSE w.bh
(* number of additional headers of trace t; see NaddAt *)
Integer == {"int8", "uint8", "int16", "uint16", "int24", "uint24", "int32",
            "uint32", "int64", "uint64"}
WNadd(w, t) ==
    LET e == Entry(EffEntries(w.maps, 1), "ADD_TRC_HDR_NUM") IN
    IF w.fixed \/ w.nadd < 2 \/ e = <<>> THEN w.nadd
    ELSE IF e[4] \notin Integer \/ "ADD_TRC_HDR_NUM" \notin DOMAIN t.hdr
    THEN w.nadd
    ELSE LET v == t.hdr["ADD_TRC_HDR_NUM"] IN
         Fewer(IF v[1] = 0 THEN v ELSE <<0>> \o DblToInt(Tail(v), 8), w.nadd)
(* the number of samples of a trace can be found again in its headers,     *)
(* without it nobody finds the next trace                                  *)
CountFits(w, t) ==
    LET e == Entry(EffEntries(w.maps, WNadd(w, t)), "SAMP_NUM")
        n == Len(t.smp)
    IN IF e = <<>> THEN n = 0
       ELSE CASE e[4] = "int8" -> n < 128
              [] e[4] = "uint8" -> n < 256
              [] e[4] \in {"int16", "uint16"} -> n < 65536
              [] OTHER -> e[4] \in Integer
WriteOutcome(w, t) ==
    IF FirstOfDefault(w) /\ DefaultRejects(w, t) THEN "rej"
    ELSE IF w.fixed
         THEN IF Len(t.smp) = Spt(BhAfter(w, t)) THEN "ok" ELSE "rej"
         ELSE IF HasInt(t, "SAMP_NUM")
                 /\ Tail(t.hdr["SAMP_NUM"]) = FromNat(Len(t.smp), 8)
                 /\ CountFits(w, t)
              THEN "ok" ELSE "rej"

WriteTrace(h, t, o) ==
    LET w == wr[h] oc == WriteOutcome(w, t) IN
    /\ o.res = (IF oc = "ok" THEN "ok" ELSE "exc")
    /\ wr' = IF oc = "ok"
             THEN [wr EXCEPT ![h] = [w EXCEPT !.bh = BhAfter(w, t),
                                              !.trcs = Append(@, t)]]
             ELSE wr
    /\ UNCHANGED <<disk, rd, wrote>>

WBps(w) == Bps(Fmt(w.bh))
WTrcLen(w, t) == TRH * (1 + WNadd(w, t)) + Len(t.smp) * WBps(w)
(* where the traces start, and where the last one ends *)
RECURSIVE StartsFrom(_, _)
StartsFrom(w, s) ==
    IF Len(s) > Len(w.trcs) THEN s
    ELSE StartsFrom(w, TLCEval(Append(s, s[Len(s)] +
                                         WTrcLen(w, w.trcs[Len(s)]))))
WStarts(w) ==
    StartsFrom(w, <<TEXT + BIN + TEXT * (IF Len(w.texts) = 0 THEN 0
                                         ELSE Len(w.texts) - 1)>>)

(* The default text header: 40 card images of 80 columns, numbered, in     *)
(* EBCDIC for revision 0 and in ASCII from revision 1 on                   *)
CardStart(k) == <<67, IF k < 10 THEN 32 ELSE 48 + (k \div 10), 48 + (k % 10)>>
EbcdicOf(c) == CASE c = 67 -> 195 [] c = 32 -> 64 [] OTHER -> c - 48 + 240
DefaultTextOK(rev, f) ==
    \A k \in 1..40 : LET got == Slice(f, 80 * (k - 1), 3)
                         c == CardStart(k) IN
        IF rev = 0 THEN got = [i \in 1..3 |-> EbcdicOf(c[i])] ELSE got = c

FileOK(w, F, starts) ==
    LET n == Len(w.trcs)
        nt == IF Len(w.texts) = 0 THEN 1 ELSE Len(w.texts)
        dataEnd == starts[n + 1]
        lt == WLittle(w.bh)
    IN /\ Len(F) = dataEnd + TEXT * Len(w.trls)
       /\ Chk("wtext",
              IF Len(w.texts) = 0 THEN DefaultTextOK(w.rev, F)
              ELSE /\ Slice(F, 0, TEXT) = w.texts[1]
                   /\ \A i \in 2..nt :
                        Slice(F, TEXT * (i - 1) + BIN, TEXT) = w.texts[i])
       /\ Chk("wtrl", \A i \in 1..Len(w.trls) :
                        Slice(F, dataEnd + TEXT * (i - 1), TEXT) = w.trls[i])
       /\ Chk("wbh", BinBytesOK(F, w.bh))
       /\ \A k \in 1..n :
            LET p == starts[k]
                na == WNadd(w, w.trcs[k]) IN
            /\ Chk("whdr", HeaderBlocksOK(F, p, w.maps, na,
                                          w.trcs[k].hdr, lt))
            /\ Chk("wsmp", WSamplesOK(F, p + TRH * (1 + na),
                                      w.trcs[k].smp, Fmt(w.bh), lt))

CloseWriter(h, F) ==
    \E w \in {wr[h]}, starts \in {WStarts(wr[h])} :
    /\ FileOK(w, F, starts) = TRUE
    /\ wr' = Without(wr, h)
    /\ disk' = (w.f :> F) @@ disk
    /\ wrote' = (w.f :> w.trcs) @@ wrote
    /\ UNCHANGED rd
=============================================================================
