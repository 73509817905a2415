----------------------------- MODULE SegyFormat -----------------------------
(***************************************************************************)
(* The SEG-Y file format, as a relation between bytes and values.  Nothing *)
(* here has state: SegyIO uses these operators to say what each library    *)
(* call must return and what each written file must contain.               *)
(*                                                                         *)
(* A header value is <<k, b1..b8>>: k = 0 for a signed 64-bit integer,     *)
(* k = 1 for a double.                                                     *)
(***************************************************************************)
EXTENDS Fields, FiniteSets

TEXT == 3200
BIN == 400
TRH == 240

-----------------------------------------------------------------------------
(* Sample formats *)
Formats == {1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16}
Bps(fmt) == CASE fmt \in {1, 2, 5, 10} -> 4
              [] fmt \in {3, 11} -> 2
              [] fmt \in {6, 9, 12} -> 8
              [] fmt \in {7, 15} -> 3
              [] fmt \in {8, 16} -> 1
SignedFmt == {2, 3, 7, 8, 9}
UnsignedFmt == {10, 11, 12, 15, 16}

(* bs: most significant byte first *)
DecSample(fmt, bs) ==
    CASE fmt = 1 -> IbmDbl(bs)
      [] fmt = 5 -> SingleDbl(bs)
      [] fmt = 6 -> bs
      [] OTHER -> IntDbl(bs, fmt \in SignedFmt)

(* does the stored word represent the double x *)
EncSampleOK(fmt, x, bs) ==
    CASE fmt = 1 -> EncIbmOK(x, bs)
      [] fmt = 5 -> EncSingleOK(x, bs)
      [] fmt = 6 -> SameDbl(x, bs)
      [] OTHER -> bs = DblToInt(x, Len(bs))

-----------------------------------------------------------------------------
(* Header maps: a sequence of [nl |-> length of the block's name,           *)
(* e |-> <<offset, name, type>> entries in increasing offset order].        *)
MapOK(maps) ==
    \A i \in 1..Len(maps) :
        /\ maps[i].nl = 8
        /\ \A k \in 1..Len(maps[i].e) :
              LET e == maps[i].e[k] IN
              /\ e[1] + TypeSize(e[3]) <= TRH
              /\ k > 1 => e[1] >= maps[i].e[k-1][1]
                                  + TypeSize(maps[i].e[k-1][3])

(* The entries that decide the header of a trace with nadd additional      *)
(* blocks: <<block, offset, name, type>>; of several fields of one name the *)
(* last one, in block and offset order, is the one reported.               *)
AllEntries(maps, nadd) ==
    LET RECURSIVE go(_)
        go(i) == IF i > Len(maps) \/ i > nadd + 1 THEN << >>
                 ELSE [k \in 1..Len(maps[i].e) |->
                          <<i - 1, maps[i].e[k][1], maps[i].e[k][2],
                            maps[i].e[k][3]>>] \o go(i + 1)
    IN go(1)
EffEntries(maps, nadd) ==
    LET a == AllEntries(maps, nadd)
    IN SelectSeq([k \in 1..Len(a) |->
                    IF \E j \in (k+1)..Len(a) : a[j][3] = a[k][3]
                    THEN <<>> ELSE a[k]],
                 LAMBDA e : e # <<>>)

FieldBytes(f, p, e, little) ==
    Norm(Slice(f, p + TRH * e[1] + e[2], TypeSize(e[4])), little)

(* observed header h is exactly the header stored at byte p of f *)
HdrMatches(h, f, p, eff, little) ==
    /\ Cardinality(DOMAIN h) = Len(eff)
    /\ \A k \in 1..Len(eff) :
          /\ eff[k][3] \in DOMAIN h
          /\ SameVal(h[eff[k][3]],
                     DecField(eff[k][4], FieldBytes(f, p, eff[k], little)))

-----------------------------------------------------------------------------
(* Binary header: <<name, offset, size, kind>> *)
BinFields == <<
  <<"job_id", 0, 4, "i">>, <<"line_num", 4, 4, "i">>, <<"reel_num", 8, 4, "i">>,
  <<"tr_per_ens", 12, 2, "i">>, <<"aux_per_ens", 14, 2, "i">>,
  <<"samp_int", 16, 2, "i">>, <<"samp_int_orig", 18, 2, "i">>,
  <<"samp_per_tr", 20, 2, "i">>, <<"samp_per_tr_orig", 22, 2, "i">>,
  <<"format_code", 24, 2, "i">>, <<"ens_fold", 26, 2, "i">>,
  <<"sort_code", 28, 2, "i">>, <<"vert_sum_code", 30, 2, "i">>,
  <<"sw_freq_at_start", 32, 2, "i">>, <<"sw_freq_at_end", 34, 2, "i">>,
  <<"sw_length", 36, 2, "i">>, <<"sw_type_code", 38, 2, "i">>,
  <<"sw_ch_tr_num", 40, 2, "i">>, <<"taper_at_start", 42, 2, "i">>,
  <<"taper_at_end", 44, 2, "i">>, <<"taper_type", 46, 2, "i">>,
  <<"corr_traces", 48, 2, "i">>, <<"bin_gain_recov", 50, 2, "i">>,
  <<"amp_recov_meth", 52, 2, "i">>, <<"measure_system", 54, 2, "i">>,
  <<"impulse_sig_pol", 56, 2, "i">>, <<"vib_pol_code", 58, 2, "i">>,
  <<"ext_tr_per_ens", 60, 4, "i">>, <<"ext_aux_per_ens", 64, 4, "i">>,
  <<"ext_samp_per_tr", 68, 4, "i">>, <<"ext_samp_int", 72, 8, "d">>,
  <<"ext_samp_int_orig", 80, 8, "d">>, <<"ext_samp_per_tr_orig", 88, 4, "i">>,
  <<"ext_ens_fold", 92, 4, "i">>,
  <<"SEGY_rev_major_ver", 300, 1, "u">>, <<"SEGY_rev_minor_ver", 301, 1, "u">>,
  <<"fixed_tr_length", 302, 2, "i">>, <<"ext_text_headers_num", 304, 2, "i">> >>
Rev2Fields == <<
  <<"max_num_add_tr_headers", 306, 4, "i">>, <<"time_basis_code", 310, 2, "i">>,
  <<"num_of_tr_in_file", 312, 8, "u">>, <<"byte_off_of_first_tr", 320, 8, "u">>,
  <<"num_of_trailer_stanza", 328, 4, "i">> >>
BinNames == {BinFields[i][1] : i \in 1..Len(BinFields)}
            \cup {Rev2Fields[i][1] : i \in 1..Len(Rev2Fields)}
SeqFind(s, n) == s[CHOOSE i \in 1..Len(s) : s[i][1] = n]
BinField(n) == IF n \in {Rev2Fields[i][1] : i \in 1..Len(Rev2Fields)}
               THEN SeqFind(Rev2Fields, n) ELSE SeqFind(BinFields, n)

DecBin(fd, bs) == IF fd[4] = "u" THEN ZeroExt(bs) ELSE SignExt(bs)
RawBin(f, fd, little) ==
    DecBin(fd, Norm(Slice(f, TEXT + fd[2], fd[3]), little))

EndianWord(f) == Slice(f, TEXT + 96, 4)
EndianOK(f) == EndianWord(f) \in {<<0,0,0,0>>, <<1,2,3,4>>, <<4,3,2,1>>}
Little(f) == EndianWord(f) = <<4, 3, 2, 1>>
(* the word as it is reported: the value the four bytes have on this       *)
(* little-endian machine                                                   *)
EndianVal(f) == ZeroExt(RevSeq(EndianWord(f)))

(* the binary header a reader of file f works with and reports, before any *)
(* override; revision-2 fields exist only from revision 2 on               *)
FileBh(f) ==
    LET lt == Little(f)
        major == f[TEXT + 300 + 1]
        b1 == [i \in 1..Len(BinFields) |-> RawBin(f, BinFields[i], lt)]
        b2 == [i \in 1..Len(Rev2Fields) |->
                 IF major > 1 THEN RawBin(f, Rev2Fields[i], lt) ELSE Zeros(8)]
    IN [n \in BinNames |->
          IF \E i \in 1..Len(BinFields) : BinFields[i][1] = n
          THEN b1[CHOOSE i \in 1..Len(BinFields) : BinFields[i][1] = n]
          ELSE b2[CHOOSE i \in 1..Len(Rev2Fields) : Rev2Fields[i][1] = n]]
BhMatches(obs, bh, f) ==
    /\ \A n \in BinNames : obs[n] = bh[n]
    /\ obs["endianness"] = EndianVal(f)

-----------------------------------------------------------------------------
(* Layout decided by a binary header *)
Nadd(bh) == ToInt(bh["max_num_add_tr_headers"])
Spt(bh) == IF ~AllZero(bh["ext_samp_per_tr"])
           THEN LET n == ToInt(bh["ext_samp_per_tr"])
                IN IF n < 0 \/ n > 10000000 THEN 10000000 ELSE n
           ELSE U2(bh["samp_per_tr"][7], bh["samp_per_tr"][8])
FixedLen(bh) == ~AllZero(bh["fixed_tr_length"])
                \/ AllZero(bh["SEGY_rev_major_ver"])
Fmt(bh) == ToInt(bh["format_code"])

EndText == <<40,40,83,69,71,58,32,69,110,100,84,101,120,116,41,41>>
           \* "((SEG: EndText))"
IsEnd(rec) == SubSeq(rec, 1, 16) = EndText

(* number of 3200-byte records from byte p up to and including the end     *)
(* stanza; -1 if the file ends first                                       *)
RECURSIVE UntilEnd(_, _, _)
UntilEnd(f, p, n) ==
    IF p + TEXT > Len(f) THEN -1
    ELSE IF Slice(f, p, 16) = EndText THEN n + 1
    ELSE UntilEnd(f, p + TEXT, n + 1)

Records(f, p, n) == [i \in 1..n |-> Slice(f, p + TEXT * (i - 1), TEXT)]

(* samples in the trace at byte p; a count no file here can hold is cut to  *)
(* NoFile, so that such a trace never fits                                  *)
NoFile == 10000000
(* A trace of a file of traces of different lengths may have fewer         *)
(* additional headers than the binary header announces: the first of them  *)
(* says how many.                                                          *)
Entry(eff, name) == IF \E k \in 1..Len(eff) : eff[k][3] = name
                    THEN eff[CHOOSE k \in 1..Len(eff) : eff[k][3] = name]
                    ELSE <<>>
Fewer(v, nadd) ==
    LET S == {n \in 1..(nadd - 1) : v[1] = 0 /\ Tail(v) = FromNat(n, 8)}
    IN IF S = {} THEN nadd ELSE CHOOSE n \in S : TRUE
NaddAt(f, p, ly) ==
    IF ly.fixed \/ ly.nadd < 2 \/ ly.adde = <<>> THEN ly.nadd
    ELSE Fewer(DecField(ly.adde[4], FieldBytes(f, p, ly.adde, ly.little)),
               ly.nadd)
EffAt(f, p, ly) == LET n == NaddAt(f, p, ly) IN
                   IF n = ly.nadd THEN ly.eff ELSE EffEntries(ly.maps, n)
SampNum(f, p, ly) ==
    IF ly.fixed THEN ly.spt
    ELSE LET e == Entry(EffAt(f, p, ly), "SAMP_NUM") IN
    IF e = <<>> THEN 0
    ELSE LET n == ToInt(Tail(DecField(e[4], FieldBytes(f, p, e, ly.little))))
             m == IF n < 0 /\ e[4] = "int16" THEN n + 65536 ELSE n
         IN IF m < 0 \/ m > NoFile THEN NoFile ELSE m
HdrLen(f, p, ly) == TRH * (1 + NaddAt(f, p, ly))
(* the headers of a trace at byte p lie before byte end *)
HdrIn(f, p, ly, end) ==
    /\ p + TRH * (1 + (IF ly.nadd < 1 THEN ly.nadd ELSE 1)) <= end
    /\ p + HdrLen(f, p, ly) <= end
TrcLen(f, p, ly) == HdrLen(f, p, ly) + SampNum(f, p, ly) * ly.bps

(* position after n traces from p; -1 when a header would lie past the end *)
RECURSIVE Walk(_, _, _, _)
Walk(f, p, n, ly) ==
    IF n = 0 THEN p
    ELSE IF ~HdrIn(f, p, ly, Len(f)) THEN -1
    ELSE Walk(f, p + TrcLen(f, p, ly), n - 1, ly)

(* positions of all traces from p to end; <<-1>> at the end when the file  *)
(* stops inside a trace                                                    *)
RECURSIVE Positions(_, _, _)
Positions(f, p, ly) ==
    IF p = ly.end THEN << >>
    ELSE IF \/ ~HdrIn(f, p, ly, ly.end)
            \/ ~ly.fixed /\ p + TrcLen(f, p, ly) > ly.end THEN <<-1>>
    ELSE <<p>> \o Positions(f, TLCEval(p + TrcLen(f, p, ly)), ly)

(* Everything a reader knows after opening f; [ok |-> FALSE] when opening   *)
(* must fail.  ovr is FALSE or a binary header that replaces the file's.    *)
NotOk == [ok |-> FALSE]
Layout(f, hasOvr, ovr, maps) ==
    IF ~MapOK(maps) \/ Len(f) < TEXT + BIN THEN NotOk
    ELSE IF ~EndianOK(f) THEN NotOk
    ELSE
    LET bh == IF hasOvr THEN [n \in BinNames |-> ovr[n]] ELSE FileBh(f)
        ext == ToInt(bh["ext_text_headers_num"])
        next == IF ext = -1 THEN UntilEnd(f, TEXT + BIN, 0) ELSE ext
        after == TEXT + BIN + TEXT * next
        off == ToInt(bh["byte_off_of_first_tr"])
        first == IF off # 0 THEN off ELSE after
        ntr == ToInt(bh["num_of_tr_in_file"])
        trl == ToInt(bh["num_of_trailer_stanza"])
        eff == EffEntries(maps, Nadd(bh))
        mapRej == /\ hasOvr /\ ToInt(bh["SEGY_rev_major_ver"]) > 1
                  /\ Nadd(bh) # 0 /\ Len(maps) # Nadd(bh) + 1
    IN IF mapRej \/ Fmt(bh) \notin Formats \/ next < 0 \/ after > Len(f)
       THEN NotOk
       ELSE
       LET ly0 == [ok |-> TRUE, little |-> Little(f), bh |-> bh,
                   ntext |-> next, first |-> first, nadd |-> Nadd(bh),
                   spt |-> Spt(bh), fixed |-> FixedLen(bh),
                   fmt |-> Fmt(bh), bps |-> Bps(Fmt(bh)), eff |-> eff,
                   adde |-> Entry(EffEntries(maps, 1), "ADD_TRC_HDR_NUM"),
                   maps |-> maps, end |-> 0, ntrl |-> 0]
       IN IF trl = -1
          THEN IF ntr = 0 THEN NotOk
               ELSE LET e == Walk(f, first, ntr, ly0)
                        k == IF e < 0 THEN -1 ELSE UntilEnd(f, e, 0)
                    IN IF k < 0 THEN NotOk
                       ELSE [ly0 EXCEPT !.end = e, !.ntrl = k]
          ELSE IF trl < 0 \/ Len(f) - TEXT * trl < 0 THEN NotOk
          ELSE [ly0 EXCEPT !.end = Len(f) - TEXT * trl, !.ntrl = trl]

TextRecords(f, ly) == <<Slice(f, 0, TEXT)>> \o Records(f, TEXT + BIN, ly.ntext)
TrailerRecords(f, ly) == Records(f, ly.end, ly.ntrl)

SampleAt(f, p, i, ly) ==
    DecSample(ly.fmt, Norm(Slice(f, p + (i - 1) * ly.bps, ly.bps), ly.little))
SamplesMatch(smp, f, p, n, ly) ==
    /\ Len(smp) = n
    /\ \A i \in 1..n : SameDbl(smp[i], SampleAt(f, p, i, ly))

-----------------------------------------------------------------------------
(* Writing *)
DefaultFmt(rev) == IF rev = 0 THEN 1 ELSE 5

(* every field but the format code is zero, and that is unset or the       *)
(* revision's default: the writer takes its header from the first trace    *)
BhIsDefault(rev, bh) ==
    /\ \A n \in BinNames \ {"format_code"} : AllZero(bh[n])
    /\ AllZero(bh["endianness"])
    /\ ToInt(bh["format_code"]) \in {0, DefaultFmt(rev)}

WEndianOK(bh) == bh["endianness"] \in {Zeros(8), <<0,0,0,0,1,2,3,4>>,
                                       <<0,0,0,0,4,3,2,1>>}
WLittle(bh) == bh["endianness"] = <<0,0,0,0,1,2,3,4>>

(* binary header a writer of revision rev puts in the file *)
WriterBh(rev, bh, ntext, ntrl) ==
    LET fmt == IF AllZero(bh["format_code"])
               THEN FromNat(DefaultFmt(rev), 8) ELSE bh["format_code"]
        b0 == [bh EXCEPT !["format_code"] = fmt]
        two == ToInt(bh["SEGY_rev_major_ver"]) = 2
    IN CASE rev = 0 -> b0
         [] rev = 1 -> [b0 EXCEPT !["SEGY_rev_major_ver"] = FromNat(1, 8),
                                  !["SEGY_rev_minor_ver"] = Zeros(8),
                                  !["ext_text_headers_num"]
                                      = FromNat(ntext - 1, 8)]
         [] rev = 2 -> [b0 EXCEPT !["SEGY_rev_major_ver"] = FromNat(2, 8),
                                  !["SEGY_rev_minor_ver"]
                                      = IF two THEN @ ELSE Zeros(8),
                                  !["ext_text_headers_num"]
                                      = FromNat(ntext - 1, 8),
                                  !["byte_off_of_first_tr"]
                                      = IF AllZero(@) THEN @
                                        ELSE FromNat(TEXT*ntext + BIN, 8),
                                  !["num_of_trailer_stanza"]
                                      = FromNat(ntrl, 8)]

BinBytesOK(f, bh) ==
    LET lt == WLittle(bh)
        one(fd) == RawBin(f, fd, lt) = bh[fd[1]]
    IN /\ \A i \in 1..Len(BinFields) : one(BinFields[i])
       /\ \A i \in 1..Len(Rev2Fields) : one(Rev2Fields[i])
       /\ EndianWord(f) = RevSeq(SubSeq(bh["endianness"], 5, 8))
       /\ \A o \in (100..299) \cup (332..399) : f[TEXT + o + 1] = 0

(* one header block of a written trace *)
BlockOK(f, p, m, hdr, little) ==
    LET covered == UNION {m[k][1]..(m[k][1] + TypeSize(m[k][3]) - 1) :
                            k \in 1..Len(m)}
    IN /\ \A k \in 1..Len(m) :
             LET e == m[k]
                 bs == Norm(Slice(f, p + e[1], TypeSize(e[3])), little)
             IN EncFieldOK(e[3], IF e[2] \in DOMAIN hdr THEN hdr[e[2]]
                                 ELSE Zeros(9), bs)
       /\ \A o \in 0..(TRH - 1) : o \in covered \/ f[p + o + 1] = 0

HeaderBlocksOK(f, p, maps, nadd, hdr, little) ==
    \A i \in 0..nadd :
        BlockOK(f, p + TRH * i, IF i < Len(maps) THEN maps[i + 1].e ELSE <<>>,
                hdr, little)

WSamplesOK(f, p, smp, fmt, little) ==
    \A i \in 1..Len(smp) :
        EncSampleOK(fmt, smp[i],
                    Norm(Slice(f, p + (i - 1) * Bps(fmt), Bps(fmt)), little))
=============================================================================
