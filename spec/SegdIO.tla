------------------------------- MODULE SegdIO -------------------------------
(***************************************************************************)
(* The SEG-D half of the library as a state machine: ISEGD and             *)
(* OSEGDRev2_1.  One action per public call; the parameter o of an action  *)
(* is what the call returned, so that the module can be run against a      *)
(* recorded history.                                                       *)
(*                                                                         *)
(* Aspects selects what is compared beyond the cursor and the set of calls *)
(* that must throw, which are always compared.                             *)
(***************************************************************************)
EXTENDS SegdFormat

CONSTANT Aspects
Chk(a, c) == ((a \in Aspects) => c) = TRUE

VARIABLES disk,    \* file name -> bytes
          rd,      \* handle -> reader
          wr,      \* handle -> writer
          wrote    \* file name -> traces written to it by a closed writer
vars == <<disk, rd, wr, wrote>>

Without(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]

Init == disk = <<>> /\ rd = <<>> /\ wr = <<>> /\ wrote = <<>>

CreateFile(f, bytes) ==
    /\ disk' = (f :> bytes) @@ disk
    /\ wrote' = Without(wrote, f)
    /\ UNCHANGED <<rd, wr>>

-----------------------------------------------------------------------------
(* Reader.  A file is a sequence of records, a record is headers, as many  *)
(* traces as its channel sets have channels, and a trailer.  The headers   *)
(* of a record are read together with the last trace of the one before it. *)

(* a quantifier over one value binds it once *)
OpenReader(h, f, maps, o) ==
    \E rec \in {IF f \in DOMAIN disk /\ MapOK(maps) THEN NextRec(disk[f], 0)
               ELSE NotRec} :
       /\ o.res = (IF rec.ok THEN "ok" ELSE "exc")
       /\ rd' = IF rec.ok
                THEN (h :> [f |-> f, maps |-> maps, rec |-> rec,
                            pos |-> rec.start, left |-> rec.total, n |-> 0,
                            live |-> TRUE]) @@ rd
                ELSE rd
       /\ UNCHANGED <<disk, wr, wrote>>

(* after the last trace of the file there is no record to look at *)
Snapshot(h, o) ==
    LET r == rd[h] F == disk[r.f] IN
    /\ (r.live =>
          /\ Chk("gen", SnapGeneralOK(o, F, r.rec))
          /\ Chk("blk", SnapBlocksOK(o, F, r.rec))
          /\ Chk("chs", SnapSetsOK(o, F, r.rec))
          /\ Chk("ext", SnapExtOK(o, F, r.rec))) = TRUE
    /\ UNCHANGED vars

(* a reader that says it has no more, on a file this library wrote, has    *)
(* delivered all of it                                                     *)
DrainOK(r) == r.f \in DOMAIN wrote /\ r.left = 0 => r.n >= Len(wrote[r.f])
Has(h, o) ==
    LET r == rd[h] IN
    /\ o.rec = (r.pos < Len(disk[r.f]))
    /\ o.trc = (r.left > 0)
    /\ Chk("rt", DrainOK(r))
    /\ UNCHANGED vars

(* the trace at the cursor; ok = FALSE: there is none, or it is cut short, *)
(* or it belongs to no channel set, or its length is not to be known       *)
NotTrc == [ok |-> FALSE]
NumSamples(r, H, set) ==
    IF "SAMP_NUM" \in DOMAIN H
    THEN IF H["SAMP_NUM"][1] = 0 THEN ToInt(Tail(H["SAMP_NUM"])) ELSE -1
    ELSE IF set.r3 THEN set.ns
    ELSE IF r.rec.base > 0 /\ set.en >= set.st
    THEN TimedSamples(set.en - set.st, set.sub, r.rec.base)
    ELSE -1
TraceAt(r) ==
    LET F == disk[r.f] p == r.pos IN
    IF r.left = 0 \/ p + TRH > Len(F) THEN NotTrc ELSE
    LET s == p + TRH + BLK * F[p + 10] IN
    IF s > Len(F) THEN NotTrc ELSE
    LET H == TraceHdr(F, p, r.maps, r.rec.major)
        sc == IF H["SCAN_TYPE_NUM"][1] = 0 THEN ToInt(Tail(H["SCAN_TYPE_NUM"]))
              ELSE 0
        cs == IF H["CH_SET_NUM"][1] = 0 THEN ToInt(Tail(H["CH_SET_NUM"])) ELSE 0
    IN IF sc < 1 \/ sc > Len(r.rec.sets) THEN NotTrc
       ELSE IF cs < 1 \/ cs > Len(r.rec.sets[sc]) THEN NotTrc ELSE
    LET set == r.rec.sets[sc][cs]
        n == NumSamples(r, H, set)
    IN IF n < 0 \/ n > Len(F) THEN NotTrc
       ELSE IF s + SampBytes(r.rec.fmt, n) > Len(F) THEN NotTrc
       ELSE [ok |-> TRUE, hdr |-> H, s |-> s, n |-> n, k |-> set.k,
             end |-> s + SampBytes(r.rec.fmt, n)]

(* the reader after trace t; ok = FALSE: the next record is malformed *)
After(r, t) ==
    LET F == disk[r.f]
        tr == r.rec.trailer
        q == IF tr > Len(F) THEN Len(F) + 1 ELSE t.end + BLK * tr
        next == IF q < Len(F) THEN NextRec(F, q) ELSE NotRec
        last == r.left = 1
    IN IF ~last
       THEN [ok |-> TRUE, r |-> [r EXCEPT !.pos = t.end, !.left = @ - 1,
                                          !.n = @ + 1]]
       ELSE IF q >= Len(F)
       THEN [ok |-> TRUE, r |-> [r EXCEPT !.pos = q, !.left = 0, !.n = @ + 1,
                                          !.live = FALSE]]
       ELSE IF next.ok
       THEN [ok |-> TRUE, r |-> [r EXCEPT !.pos = next.start, !.rec = next,
                                          !.left = next.total, !.n = @ + 1]]
       ELSE [ok |-> FALSE]

HdrOK(hdr, H) == /\ DOMAIN hdr = DOMAIN H
                 /\ \A n \in DOMAIN H : SameVal(hdr[n], H[n])
SmpOK(smp, F, t, fmt) == \A i \in 1..Len(smp) :
    i <= t.n => ScaledOK(smp[i], RawSample(F, t.s, i, fmt), t.k)

SameNum(a, b) == \/ SameVal(a, b)
                 \/ a[1] # b[1] /\ SameDbl(ValDbl(a), ValDbl(b))
Given(t, n) == IF n \in DOMAIN t.hdr THEN t.hdr[n]
               ELSE IF n \in {"SCAN_TYPE_NUM", "CH_SET_NUM"} THEN VN(1)
               ELSE VN(0)
(* channel numbers above 9999 do not fit in a revision 2 trace header *)
RoundTripOK(r, o) ==
    r.f \in DOMAIN wrote =>
        /\ r.n < Len(wrote[r.f])
        /\ LET t == wrote[r.f][r.n + 1] IN
           /\ \A n \in DOMAIN o.hdr : SameNum(o.hdr[n], Given(t, n))
           /\ Len(o.smp) = Len(t.smp)
           /\ \A i \in 1..Len(t.smp) : SameDbl(o.smp[i], t.smp[i])

(* A read past the last trace is refused and changes nothing; after any    *)
(* other failed read nothing is specified of the reader (Lost)             *)
Lost(h) == h \notin DOMAIN rd /\ UNCHANGED vars
ReadTrace(h, o) ==
    \E r \in {rd[h]}, t \in {TraceAt(rd[h])} :
    \E a \in {IF t.ok THEN After(r, t) ELSE [ok |-> FALSE]} :
       /\ o.res = (IF t.ok /\ a.ok THEN "ok" ELSE "exc")
       /\ IF t.ok /\ a.ok
          THEN /\ Chk("hdr", HdrOK(o.hdr, t.hdr))
               /\ Chk("nsmp", Len(o.smp) = t.n)
               /\ Chk("smp", SmpOK(o.smp, disk[r.f], t, r.rec.fmt))
               /\ Chk("rt", RoundTripOK(r, o))
               /\ rd' = [rd EXCEPT ![h] = a.r]
          ELSE rd' = IF r.left = 0 THEN rd ELSE Without(rd, h)
       /\ UNCHANGED <<disk, wr, wrote>>

CloseReader(h) ==
    /\ rd' = Without(rd, h)
    /\ UNCHANGED <<disk, wr, wrote>>

-----------------------------------------------------------------------------
(* Writer, revision 2.1 *)
I(v) == ToInt(v)
(* a count that may be moved to general header 2 *)
Count(g, g2) == IF I(g) > 99 THEN I(g2) ELSE I(g)
NSets(w) == Count(w.gh.channel_sets_per_scan_type,
                  w.gh2.ext_ch_sets_per_scan_type)
NExt(w) == Count(w.gh.extended_hdr_blocks, w.gh2.extended_hdr_blocks)
NExtl(w) == Count(w.gh.external_hdr_blocks, w.gh2.external_hdr_blocks)
GhnNums(w) == {w.ghn[i].gen_hdr_block_num[8] : i \in 1..Len(w.ghn)}
RECURSIVE SumCh(_, _)
SumCh(s, i) == IF i = 0 THEN 0 ELSE I(s[i].number_of_channels) + SumCh(s, i-1)
RECURSIVE Channels(_, _)
Channels(chs, i) == IF i = 0 THEN 0
                    ELSE SumCh(chs[i], Len(chs[i])) + Channels(chs, i - 1)

WOpenFails(w) ==
    \/ Len(w.chs) # I(w.gh.scan_types_per_record)
    \/ I(w.gh.format_code) \notin Formats
    \/ ~MapOK(w.maps)
    \/ I(w.gh2.segd_rev_major) > 2
    \/ w.blk3
    \/ I(w.gh.add_gen_hdr_blocks) > 15
    \/ I(w.gh.add_gen_hdr_blocks) # 1 + Cardinality(GhnNums(w))
    \/ I(w.gh.scan_types_per_record) > 99
    \/ I(w.gh.skew_blocks) > 99
    \/ \E s \in 1..Len(w.chs) :
         \/ Len(w.chs[s]) # NSets(w)
         \/ \E j \in 1..Len(w.chs[s]) :
                I(w.chs[s][j].number_of_channels) > 9999
    \/ Len(w.ext) # NExt(w) \/ Len(w.extl) # NExtl(w)
    \/ Len(w.ext) > 65535 \/ Len(w.extl) > 65535
    \/ \E i \in 1..Len(w.ext) : Len(w.ext[i]) # BLK
    \/ \E i \in 1..Len(w.extl) : Len(w.extl[i]) # BLK

OpenWriter(h, f, w, o) ==
    LET fails == WOpenFails(w) IN
    /\ o.res = (IF fails THEN "exc" ELSE "ok")
    /\ wr' = IF fails THEN wr
             ELSE (h :> (w @@ [f |-> f, trcs |-> <<>>])) @@ wr
    /\ disk' = Without(disk, f)
    /\ wrote' = Without(wrote, f)
    /\ UNCHANGED rd

HasH(t, n) == n \in DOMAIN t.hdr
IntH(t, n) == ToInt(ValInt(Given(t, n), 8))
Used(w, t) == LET e == IntH(t, "TR_HDR_EXT")
              IN IF e < Len(w.maps) THEN e ELSE Len(w.maps)
Even(v) == 2 * (v \div 2)
Base16(w) == ToInt(DblToInt(Scale(w.gh.base_scan_int, 4), 8))
SetLen(w, set) ==
    LET st == I(set.channel_set_start_time) en == I(set.channel_set_end_time)
        b == Base16(w)
    IN IF b > 0 /\ en >= st
       THEN TimedSamples(Even(en) - Even(st), I(set.subscans_per_ch_set), b)
       ELSE -1

(* the number of samples has to be read back from the last place it has in  *)
(* the extensions of the trace; only integers are numbers of samples        *)
CountType(w, t) ==
    LET ms == [i \in 1..Used(w, t) |-> MapOrder(w.maps[i])]
        at == {i * BLK + j : i \in 1..Len(ms), j \in 1..BLK}
        in == {k \in at : LET i == (k - 1) \div BLK j == k - i * BLK IN
                 j <= Len(ms[i]) /\ ms[i][j][2] = "SAMP_NUM"}
    IN IF in = {} THEN "uint24"
       ELSE LET k == CHOOSE x \in in : \A y \in in : y <= x
                i == (k - 1) \div BLK
            IN ms[i][k - i * BLK][3]
CountFits(w, t) ==
    LET ty == CountType(w, t) n == Len(t.smp)
    IN CASE ty = "int8" -> n < 128
         [] ty = "uint8" -> n < 256
         [] ty = "int16" -> n < 32768
         [] ty = "uint16" -> n < 65536
         [] ty = "int24" -> n < 8388608
         [] ty = "uint24" -> n < 16777216
         [] OTHER -> ty \in {"int32", "uint32", "int64", "uint64"}

(* a trace that could not be read back is refused, and nothing is written *)
WriteFails(w, t) ==
    IF Len(w.trcs) = Channels(w.chs, Len(w.chs)) THEN TRUE ELSE
    LET sc == IntH(t, "SCAN_TYPE_NUM") cs == IntH(t, "CH_SET_NUM")
        e == IntH(t, "TR_HDR_EXT")
    IN IF sc < 1 \/ sc > Len(w.chs) THEN TRUE
       ELSE IF cs < 1 \/ cs > Len(w.chs[sc]) THEN TRUE
       ELSE IF e < 0 \/ e > 255 THEN TRUE
       ELSE IF \E i \in 1..Used(w, t) : \E j \in 1..Len(w.maps[i]) :
                    ~HasH(t, w.maps[i][j][2]) THEN TRUE
       ELSE LET inExt == \/ e > 0 /\ Len(w.maps) = 0
                         \/ \E i \in 1..Used(w, t) :
                              \E j \in 1..Len(w.maps[i]) :
                                w.maps[i][j][2] = "SAMP_NUM"
            IN IF inExt
               THEN \/ ~SameDbl(ValDbl(Given(t, "SAMP_NUM")),
                                IntDbl(FromNat(Len(t.smp), 8), TRUE))
                    \/ ~CountFits(w, t)
               ELSE SetLen(w, w.chs[sc][cs]) # Len(t.smp)

WriteTrace(h, t, o) ==
    LET w == wr[h] fails == WriteFails(w, t) IN
    /\ o.res = (IF fails THEN "exc" ELSE "ok")
    /\ wr' = IF fails THEN wr
             ELSE [wr EXCEPT ![h] = [w EXCEPT !.trcs = Append(@, t)]]
    /\ UNCHANGED <<disk, rd, wrote>>

(* what the file holds of the headers given *)
RECURSIVE ScansStored(_)
ScansStored(v) == IF v > 255 THEN 2 * ScansStored(v \div 2) ELSE v
GhStored(w) ==
    LET g == w.gh
        c(n) == IF I(g[n]) > 99 THEN FromInt8(165) ELSE g[n]
    IN [g EXCEPT
        !.file_number = IF I(g.file_number) > 9999 THEN FromInt8(16665) ELSE @,
        !.scans_per_block = FromInt8(ScansStored(I(@))),
        !.record_length = IF AllZero(w.gh2.ext_record_len) THEN @
                          ELSE FromInt8(1665),
        !.channel_sets_per_scan_type = c("channel_sets_per_scan_type"),
        !.extended_hdr_blocks = c("extended_hdr_blocks"),
        !.external_hdr_blocks = c("external_hdr_blocks")]
NotInR2 == {"extended_skew_blocks", "record_set_number",
            "ext_num_add_blks_in_gen_hdr", "dominant_sampling_int"}
Gh2Stored(w) == [n \in DOMAIN w.gh2 |-> IF n \in NotInR2 THEN Zeros(8)
                                        ELSE w.gh2[n]]
SetStored(c) == [c EXCEPT
    !.channel_set_number = IF I(@) > 99 THEN FromInt8(165) ELSE @,
    !.channel_set_start_time = FromInt8(Even(I(@))),
    !.channel_set_end_time = FromInt8(Even(I(@))),
    !.subscans_per_ch_set = IF I(@) < 1 THEN FromInt8(1) ELSE @]

WBlockOK(tab, v, B) == BlockOK(tab, v, B) /\ UnusedZero(tab, B) /\ DigitsOK(tab, B)

WSetsAt(w) == BLK * (2 + Cardinality(GhnNums(w)))
WPer(w) == BLK * (NSets(w) + I(w.gh.skew_blocks))
WExtAt(w) == WSetsAt(w) + Len(w.chs) * WPer(w)
WTrcLen(w, t) == TRH + BLK * IntH(t, "TR_HDR_EXT")
                 + SampBytes(I(w.gh.format_code), Len(t.smp))
(* where the traces start, and where the last one ends *)
RECURSIVE StartsFrom(_, _)
StartsFrom(w, s) ==
    IF Len(s) > Len(w.trcs) THEN s
    ELSE StartsFrom(w, TLCEval(Append(s, s[Len(s)] +
                                         WTrcLen(w, w.trcs[Len(s)]))))
WStarts(w) == StartsFrom(w, <<WExtAt(w) + BLK * (Len(w.ext) + Len(w.extl))>>)

GeneralStoredOK(w, F) ==
    /\ WBlockOK(GH1, GhStored(w), Slice(F, 0, BLK))
    /\ WBlockOK(GH2R2, Gh2Stored(w), Slice(F, BLK, BLK))
    /\ LET nums == SortNat(GhnNums(w)) IN
       \A i \in 1..Len(nums) :
          WBlockOK(GHNR2,
             w.ghn[CHOOSE k \in 1..Len(w.ghn) :
                    /\ w.ghn[k].gen_hdr_block_num[8] = nums[i]
                    /\ \A m \in (k+1)..Len(w.ghn) :
                          w.ghn[m].gen_hdr_block_num[8] # nums[i]],
             Slice(F, BLK * (1 + i), BLK))
SetsStoredOK(w, F) ==
    \A s \in 1..Len(w.chs) :
      LET p == WSetsAt(w) + (s - 1) * WPer(w) IN
      /\ \A j \in 1..Len(w.chs[s]) :
           WBlockOK(CHS2, SetStored(w.chs[s][j]), Slice(F, p + BLK*(j-1), BLK))
      /\ AllZero(Slice(F, p + BLK * NSets(w), BLK * I(w.gh.skew_blocks)))
ExtStoredOK(w, F) ==
    LET all == w.ext \o w.extl IN
    \A i \in 1..Len(all) : Slice(F, WExtAt(w) + BLK * (i - 1), BLK) = all[i]

(* bytes of a trace header *)
Nibs(B, i, n) == [j \in 1..n |-> Nib(B, i + j - 1)]
WBcd(B, i, n, v) == Nibs(B, i, n) = (IF v >= 10^n THEN [j \in 1..n |-> 15]
                                     ELSE BcdDigits(v, n))
WFix(v, n) == DblToInt(Scale(ValDbl(v), 8), n)
BaseStoredOK(t, B) ==
    LET ffid == IntH(t, "FFID") cs == IntH(t, "CH_SET_NUM") IN
    /\ WBcd(B, 0, 4, ffid)
    /\ WBcd(B, 4, 2, IntH(t, "SCAN_TYPE_NUM"))
    /\ WBcd(B, 6, 2, cs)
    /\ WBcd(B, 8, 4, IntH(t, "CHAN"))
    /\ Slice(B, 6, 3) = WFix(Given(t, "FIRST_TIMING_WORD"), 3)
    /\ Slice(B, 9, 1) = ValInt(Given(t, "TR_HDR_EXT"), 1)
    /\ Slice(B, 10, 1) = WFix(Given(t, "SAMPLE_SKEW"), 1)
    /\ Slice(B, 11, 1) = ValInt(Given(t, "TRACE_EDIT"), 1)
    /\ Slice(B, 12, 3) = WFix(Given(t, "TIME_BREAK_WIN"), 3)
    /\ Slice(B, 15, 2) = FromNat(IF cs < 100 THEN 0 ELSE cs, 2)
    /\ Slice(B, 17, 3) = FromNat(ffid, 3)
MapStoredOK(t, m, E) ==
    /\ \A j \in 1..Len(m) :
         EncFieldOK(m[j][3], t.hdr[m[j][2]],
                    Slice(E, m[j][1], TypeSize(m[j][3])))
    /\ \A i \in 0..(BLK - 1) :
         (\A j \in 1..Len(m) : i < m[j][1] \/ i >= m[j][1] + TypeSize(m[j][3]))
            => E[i + 1] = 0
StdStoredOK(w, t, E) ==
    LET line == Given(t, "R_LINE") point == Given(t, "R_POINT")
        rev == I(w.gh2.segd_rev_major)
    IN /\ Slice(E, 0, 3) = ValInt(line, 3)
       /\ Slice(E, 3, 3) = ValInt(point, 3)
       /\ Slice(E, 6, 1) = ValInt(Given(t, "R_POINT_IDX"), 1)
       /\ Slice(E, 7, 3) = ValInt(Given(t, "SAMP_NUM"), 3)
       /\ IF rev > 1
          THEN /\ Slice(E, 10, 5) = DblToInt(Scale(ValDbl(line), 16), 5)
               /\ Slice(E, 15, 5) = DblToInt(Scale(ValDbl(point), 16), 5)
               /\ Slice(E, 20, 1) = ValInt(Given(t, "SENSOR_TYPE"), 1)
          ELSE AllZero(Slice(E, 10, 11))
       /\ AllZero(Slice(E, 21, 11))
ExtStored(w, t, i, E) ==
    IF i <= Len(w.maps) THEN MapStoredOK(t, w.maps[i], E)
    ELSE IF i = 1 /\ Len(w.maps) = 0 THEN StdStoredOK(w, t, E)
    ELSE AllZero(E)

FileOK(w, F, starts) ==
    LET n == Len(w.trcs)
        fmt == I(w.gh.format_code)
    IN /\ Len(F) = starts[n + 1]
       /\ Chk("wgen", GeneralStoredOK(w, F))
       /\ Chk("wchs", SetsStoredOK(w, F))
       /\ Chk("wext", ExtStoredOK(w, F))
       /\ \A k \in 1..n :
            LET p == starts[k]
                t == w.trcs[k]
                e == IntH(t, "TR_HDR_EXT")
                s == p + TRH + BLK * e
                set == w.chs[IntH(t, "SCAN_TYPE_NUM")][IntH(t, "CH_SET_NUM")]
                d == DescaleK(set.descale_multiplier)
            IN /\ Chk("whdr",
                      /\ BaseStoredOK(t, Slice(F, p, TRH))
                      /\ \A i \in 1..e :
                           ExtStored(w, t, i,
                                     Slice(F, p + TRH + BLK * (i - 1), BLK)))
               /\ Chk("wsmp",
                      /\ \A i \in 1..Len(t.smp) :
                            WSampleOK(t.smp[i], d, F, s, i, fmt)
                      /\ GroupPadOK(F, s, Len(t.smp), fmt))

CloseWriter(h, F) ==
    \E w \in {wr[h]}, starts \in {WStarts(wr[h])} :
    /\ FileOK(w, F, starts) = TRUE
    /\ wr' = Without(wr, h)
    /\ disk' = (w.f :> F) @@ disk
    /\ wrote' = (w.f :> w.trcs) @@ wrote
    /\ UNCHANGED rd
=============================================================================
