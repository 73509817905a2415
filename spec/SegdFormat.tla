----------------------------- MODULE SegdFormat -----------------------------
(***************************************************************************)
(* The byte layout of SEG-D files: general headers of revisions 0 to 2 and *)
(* 3, channel sets, trace headers and their extensions, sample formats.    *)
(*                                                                         *)
(* A header block is described by a table of fields <<name, kind, position,*)
(* length>>.  Positions and lengths are in half bytes for the kinds in     *)
(* Nibbles, in bytes for the others.                                       *)
(***************************************************************************)
EXTENDS Fields, SegdMaps, FiniteSets

BLK == 32          \* general header, extension, skew, trailer blocks
TRH == 20          \* trace header

Nib(B, i) == IF i % 2 = 0 THEN B[i \div 2 + 1] \div 16 ELSE B[i \div 2 + 1] % 16
RECURSIVE BcdNat(_, _, _)
BcdNat(B, i, n) == IF n = 0 THEN 0
                   ELSE 10 * BcdNat(B, i, n - 1) + Nib(B, i + n - 1)

(* k * 10000 + a for eight BE bytes k: twelve-digit numbers *)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(bs, m, c, i) == IF i = 0 THEN bs
    ELSE LET x == bs[i] * m + c
         IN MulAdd([bs EXCEPT ![i] = x % 256], m, x \div 256, i - 1)
Bcd12(B, i) ==
    LET g(k) == BcdNat(B, i + 4 * k, 4)
        a == MulAdd(Zeros(8), 1, g(0), 8)
        b == MulAdd(a, 10000, g(1), 8)
    IN MulAdd(b, 10000, g(2), 8)

(* doubles times powers of two *)
Scalable(x, k) == IsZeroDbl(x) \/ (DblExp(x) > 0 /\ DblExp(x) < 2047
                                   /\ DblExp(x) + k > 0 /\ DblExp(x) + k < 2047)
Scale(x, k) == IF IsZeroDbl(x) THEN x
               ELSE PackDbl(DblSign(x), DblExp(x) + k, DblFrac(x))

Fixed16(bs, signed) ==
    LET neg == signed /\ bs[1] >= 128
    IN DblFromBits(IF neg THEN 1 ELSE 0, Bits(IF neg THEN Neg(bs) ELSE bs), -16)

Nibbles == {"bcd", "bcd12", "pow2"}
DblKinds == {"ifx", "ufx", "base", "dsc", "sgl"}

Dec(k, B, o, n) ==
    CASE k = "u" -> ZeroExt(Slice(B, o, n))
      [] k = "i" -> SignExt(Slice(B, o, n))
      [] k = "txt" -> Slice(B, o, n)
      [] k = "bcd" -> FromInt8(BcdNat(B, o, n))
      [] k = "bcd12" -> Bcd12(B, o)
      [] k = "pow2" -> FromInt8(P2[Nib(B, o)])
      [] k = "x2" -> FromInt8(2 * U2(B[o + 1], B[o + 2]))
      [] k = "scans" -> FromInt8(B[o + 2] * P2[B[o + 1] % 16])
      [] k = "ifx" -> Fixed16(Slice(B, o, 5), TRUE)
      [] k = "ufx" -> Fixed16(Slice(B, o, 5), FALSE)
      [] k = "base" -> DblFrom24(0, B[o + 1], -4)
      [] k = "dsc" -> DblFrom24(B[o + 1] \div 128,
                                U2(B[o + 1] % 128, B[o + 2]), -10)
      [] k = "sgl" -> SingleDbl(Slice(B, o, 4))
      [] k = "zero" -> Zeros(8)

FieldOK(e, v, B) ==
    LET d == Dec(e[2], B, e[3], e[4])
    IN IF e[2] \in DblKinds THEN SameDbl(v, d) ELSE v = d
BlockOK(tab, v, B) == \A i \in 1..Len(tab) : FieldOK(tab[i], v[tab[i][1]], B)

(* half bytes of a block that no field uses *)
Span(e) == CASE e[2] \in Nibbles -> e[3]..(e[3] + e[4] - 1)
             [] e[2] = "zero" -> {}
             [] e[2] = "scans" -> (2 * e[3] + 1)..(2 * e[3] + 3)
             [] OTHER -> (2 * e[3])..(2 * (e[3] + e[4]) - 1)
UnusedZero(tab, B) ==
    LET used == UNION {Span(tab[i]) : i \in 1..Len(tab)}
    IN \A i \in 0..(2 * Len(B) - 1) : i \notin used => Nib(B, i) = 0
(* decimal digits, or all bits set *)
DigitsOK(tab, B) ==
    \A i \in 1..Len(tab) : tab[i][2] \in {"bcd", "bcd12"} /\ tab[i][4] > 1 =>
        LET s == Span(tab[i]) IN
        \/ \A j \in s : Nib(B, j) <= 9
        \/ \A j \in s : Nib(B, j) = 15

-----------------------------------------------------------------------------
GH1 == << <<"file_number", "bcd", 0, 4>>, <<"format_code", "bcd", 4, 4>>,
    <<"gen_const", "bcd12", 8, 12>>, <<"year", "bcd", 20, 2>>,
    <<"add_gen_hdr_blocks", "bcd", 22, 1>>, <<"day", "bcd", 23, 3>>,
    <<"hour", "bcd", 26, 2>>, <<"minute", "bcd", 28, 2>>,
    <<"second", "bcd", 30, 2>>, <<"manufac_code", "bcd", 32, 2>>,
    <<"manufac_num", "bcd", 34, 4>>, <<"bytes_per_scan", "bcd", 38, 6>>,
    <<"base_scan_int", "base", 22, 1>>, <<"polarity", "bcd", 46, 1>>,
    <<"scans_per_block", "scans", 23, 2>>, <<"record_type", "bcd", 50, 1>>,
    <<"record_length", "bcd", 51, 3>>,
    <<"scan_types_per_record", "bcd", 54, 2>>,
    <<"channel_sets_per_scan_type", "bcd", 56, 2>>,
    <<"skew_blocks", "bcd", 58, 2>>, <<"extended_hdr_blocks", "bcd", 60, 2>>,
    <<"external_hdr_blocks", "bcd", 62, 2>> >>

GH2R2 == << <<"expanded_file_num", "u", 0, 3>>,
    <<"ext_ch_sets_per_scan_type", "u", 3, 2>>,
    <<"extended_hdr_blocks", "u", 5, 2>>, <<"external_hdr_blocks", "u", 7, 2>>,
    <<"segd_rev_major", "u", 10, 1>>, <<"segd_rev_minor", "u", 11, 1>>,
    <<"gen_trailer_num_of_blocks", "u", 12, 2>>,
    <<"ext_record_len", "u", 14, 3>>, <<"gen_hdr_block_num", "u", 18, 1>>,
    <<"sequence_number", "u", 20, 2>>,
    <<"extended_skew_blocks", "zero", 0, 0>>,
    <<"record_set_number", "zero", 0, 0>>,
    <<"ext_num_add_blks_in_gen_hdr", "zero", 0, 0>>,
    <<"dominant_sampling_int", "zero", 0, 0>> >>

GH2R3 == << <<"expanded_file_num", "u", 0, 3>>,
    <<"ext_ch_sets_per_scan_type", "u", 3, 2>>,
    <<"extended_hdr_blocks", "u", 5, 3>>,
    <<"extended_skew_blocks", "u", 8, 2>>,
    <<"segd_rev_major", "u", 10, 1>>, <<"segd_rev_minor", "u", 11, 1>>,
    <<"gen_trailer_num_of_blocks", "u", 12, 4>>,
    <<"ext_record_len", "u", 16, 4>>, <<"record_set_number", "u", 20, 2>>,
    <<"ext_num_add_blks_in_gen_hdr", "u", 22, 2>>,
    <<"dominant_sampling_int", "u", 24, 3>>,
    <<"external_hdr_blocks", "u", 27, 3>>,
    <<"gen_hdr_block_num", "u", 31, 1>>,
    <<"sequence_number", "zero", 0, 0>> >>

GH3R3 == << <<"time_zero", "u", 0, 8>>, <<"record_size", "u", 8, 8>>,
    <<"data_size", "u", 16, 8>>, <<"header_size", "u", 24, 4>>,
    <<"extd_rec_mode", "u", 28, 1>>, <<"rel_time_mode", "u", 29, 1>>,
    <<"gen_hdr_block_num", "u", 31, 1>> >>

GHNR2 == << <<"expanded_file_number", "u", 0, 3>>,
    <<"sou_line_num", "ifx", 3, 5>>, <<"sou_point_num", "ifx", 8, 5>>,
    <<"sou_point_index", "u", 13, 1>>, <<"phase_control", "u", 14, 1>>,
    <<"type_vibrator", "u", 15, 1>>, <<"phase_angle", "i", 16, 2>>,
    <<"gen_hdr_block_num", "u", 18, 1>>, <<"sou_set_num", "u", 19, 1>> >>

Type31 == <<"gen_hdr_block_type", "u", 31, 1>>
Source(mid) == << <<"expanded_file_number", "u", 0, 3>>,
    <<"sou_line_num", "ufx", 3, 5>>, <<"sou_point_num", "ufx", 8, 5>>,
    <<"sou_point_index", "u", 13, 1>>, <<"source_id", "u", 18, 1>>,
    <<"source_set_num", "u", 19, 1>>, <<"reshoot_idx", "u", 20, 1>>,
    <<"group_idx", "u", 21, 1>>, <<"depth_idx", "u", 22, 1>>,
    <<"offset_crossline", "u", 23, 2>>, <<"offset_inline", "u", 25, 2>>,
    <<"size", "u", 27, 2>>, <<"offset_depth", "u", 29, 2>>, Type31 >> \o mid
Gun == << <<"depth", "u", 14, 2>>, <<"air_pressure", "u", 16, 2>> >>

BlockTab == [t \in {16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 31, 32, 33, 65, 67,
                    68, 69, 80, 81, 82, 85, 86, 96, 97} |->
  CASE t = 16 -> << <<"abbr_vessel_crew_name", "txt", 0, 3>>,
                    <<"vessel_crew_name", "txt", 3, 28>>, Type31 >>
    [] t = 17 -> << <<"survey_area_name", "txt", 0, 31>>, Type31 >>
    [] t = 18 -> << <<"client_name", "txt", 0, 31>>, Type31 >>
    [] t = 19 -> << <<"abbr_job_id", "txt", 0, 5>>, <<"job_id", "txt", 5, 26>>,
                    Type31 >>
    [] t = 20 -> << <<"line_abbr", "txt", 0, 7>>, <<"line_id", "txt", 7, 24>>,
                    Type31 >>
    [] t = 21 -> Source(<< <<"phase_control", "u", 14, 1>>,
                           <<"type_vibrator", "u", 15, 1>>,
                           <<"phase_angle", "i", 16, 2>> >>)
    [] t = 22 -> Source(<< <<"depth", "u", 14, 2>>,
                           <<"charge_length", "u", 16, 1>>,
                           <<"soil_type", "u", 17, 1>> >>)
    [] t \in {23, 24} -> Source(Gun)
    [] t = 25 -> Source(<< <<"source_type", "u", 14, 1>>,
                           <<"moment", "u", 15, 3>> >>)
    [] t = 31 -> Source(<<>>)
    [] t = 32 -> << <<"time", "u", 0, 8>>, <<"source_status", "u", 8, 1>>,
                    <<"source_id", "u", 9, 1>>, <<"source_moving", "u", 10, 1>>,
                    <<"error_description", "txt", 11, 20>>, Type31 >>
    [] t = 33 -> << <<"source_id", "u", 0, 1>>,
                    <<"scan_type_num_1", "bcd", 2, 2>>,
                    <<"ch_set_num_1", "u", 2, 2>>, <<"trace_num_1", "u", 4, 3>>,
                    <<"scan_type_num_2", "bcd", 14, 2>>,
                    <<"ch_set_num_2", "u", 8, 2>>, <<"trace_num_2", "u", 10, 3>>,
                    <<"scan_type_num_3", "bcd", 26, 2>>,
                    <<"ch_set_num_3", "u", 14, 2>>, <<"trace_num_3", "u", 16, 3>>,
                    <<"scan_type_num_4", "bcd", 38, 2>>,
                    <<"ch_set_num_4", "u", 20, 2>>, <<"trace_num_4", "u", 22, 3>>,
                    <<"scan_type_num_5", "bcd", 50, 2>>,
                    <<"ch_set_num_5", "u", 26, 2>>, <<"trace_num_5", "u", 28, 3>>,
                    Type31 >>
    [] t = 65 -> << <<"instrument_test_time", "u", 0, 8>>,
                    <<"sensor_sensitivity", "u", 8, 4>>,
                    <<"instr_test_result", "u", 12, 1>>,
                    <<"serial_number", "txt", 13, 18>>, Type31 >>
    [] t = 67 -> << <<"freq1", "u", 0, 4>>, <<"amp1", "u", 4, 4>>,
                    <<"phase1", "u", 8, 4>>, <<"freq2", "u", 12, 4>>,
                    <<"amp2", "u", 16, 4>>, <<"phase2", "u", 20, 4>>,
                    <<"calib_applied", "u", 24, 1>>, Type31 >>
    [] t = 68 -> << <<"time_of_depl", "u", 0, 8>>, <<"time_of_retr", "u", 8, 8>>,
                    <<"timer_offset_depl", "u", 16, 4>>,
                    <<"time_offset_retr", "u", 20, 4>>,
                    <<"timedrift_corr", "u", 24, 1>>,
                    <<"corr_method", "u", 25, 1>>, Type31 >>
    [] t = 69 -> << <<"equip_dim_x", "u", 0, 3>>, <<"equip_dim_y", "u", 3, 3>>,
                    <<"equip_dim_z", "u", 6, 3>>, <<"pos_term", "u", 9, 1>>,
                    <<"equip_offset_x", "u", 10, 3>>,
                    <<"equip_offset_y", "u", 13, 3>>,
                    <<"equip_offset_z", "u", 16, 3>>, Type31 >>
    [] t = 80 -> << <<"time_of_position", "u", 0, 8>>,
                    <<"time_of_measurement", "u", 8, 8>>,
                    <<"vert_error", "u", 16, 4>>,
                    <<"hor_error_semi_major", "u", 20, 4>>,
                    <<"hor_error_semi_minor", "u", 24, 4>>,
                    <<"hor_error_orientation", "u", 28, 2>>,
                    <<"position_type", "u", 30, 1>>, Type31 >>
    [] t = 81 -> << <<"crs_a_coord1", "u", 0, 8>>, <<"crs_a_coord2", "u", 8, 8>>,
                    <<"crs_a_coord3", "u", 16, 8>>,
                    <<"crs_a_crsref", "u", 24, 2>>, <<"pos1_valid", "u", 26, 1>>,
                    <<"pos1_quality", "u", 27, 1>>, Type31 >>
    [] t = 82 -> << <<"crs_b_coord1", "u", 0, 8>>, <<"crs_b_coord2", "u", 8, 8>>,
                    <<"crs_b_coord3", "u", 16, 8>>,
                    <<"crs_b_crsref", "u", 24, 2>>, <<"pos2_valid", "u", 26, 1>>,
                    <<"pos2_quality", "u", 27, 1>>, Type31 >>
    [] t = 85 -> << <<"crs", "txt", 0, 31>>, Type31 >>
    [] t = 86 -> << <<"offset_east", "u", 0, 4>>, <<"offset_north", "u", 4, 4>>,
                    <<"offset_vert", "u", 8, 4>>,
                    <<"description", "txt", 12, 19>>, Type31 >>
    [] t = 96 -> << <<"rot_x", "u", 0, 4>>, <<"rot_y", "u", 4, 4>>,
                    <<"rot_z", "u", 8, 4>>, <<"ref_orientation", "u", 12, 4>>,
                    <<"time_stamp", "u", 16, 8>>, <<"ori_type", "u", 24, 1>>,
                    <<"ref_orient_valid", "u", 25, 1>>,
                    <<"rot_applied", "u", 26, 1>>,
                    <<"rot_north_applied", "u", 27, 1>>, Type31 >>
    [] t = 97 -> << <<"timestamp", "u", 0, 8>>,
                    <<"measurement_value", "u", 8, 4>>,
                    <<"maximum_value", "u", 12, 4>>,
                    <<"minimum_value", "u", 16, 4>>,
                    <<"quantity_class", "u", 20, 2>>,
                    <<"unit_of_measure", "u", 22, 2>>,
                    <<"measurement_description", "u", 24, 2>>, Type31 >> ]

CHS2 == << <<"scan_type_number", "bcd", 0, 2>>,
    <<"channel_set_number", "bcd", 2, 2>>,
    <<"channel_set_start_time", "x2", 2, 2>>,
    <<"channel_set_end_time", "x2", 4, 2>>,
    <<"descale_multiplier", "dsc", 6, 2>>,
    <<"number_of_channels", "bcd", 16, 4>>, <<"channel_type", "bcd", 20, 1>>,
    <<"subscans_per_ch_set", "pow2", 22, 1>>, <<"channel_gain", "bcd", 23, 1>>,
    <<"alias_filter_freq", "bcd", 24, 4>>,
    <<"alias_filter_slope", "bcd", 28, 4>>,
    <<"low_cut_filter_freq", "bcd", 32, 4>>,
    <<"low_cut_filter_slope", "bcd", 36, 4>>,
    <<"first_notch_filter", "bcd", 40, 4>>,
    <<"second_notch_filter", "bcd", 44, 4>>,
    <<"third_notch_filter", "bcd", 48, 4>>, <<"ext_ch_set_num", "u", 26, 2>>,
    <<"ext_hdr_flag", "bcd", 56, 1>>, <<"trc_hdr_ext", "bcd", 57, 1>>,
    <<"vert_stack", "u", 29, 1>>, <<"streamer_no", "u", 30, 1>>,
    <<"array_forming", "u", 31, 1>> >>

CHS3 == << <<"scan_type_number", "bcd", 0, 2>>,
    <<"channel_set_number", "u", 1, 2>>, <<"channel_type", "u", 3, 1>>,
    <<"channel_set_start_time", "u", 4, 4>>,
    <<"channel_set_end_time", "u", 8, 4>>,
    <<"number_of_samples", "u", 12, 4>>,
    <<"descale_multiplier", "sgl", 16, 4>>,
    <<"number_of_channels", "u", 20, 3>>, <<"samp_int", "u", 23, 3>>,
    <<"array_forming", "u", 26, 1>>, <<"trc_hdr_ext", "u", 27, 1>>,
    <<"ext_hdr_flag", "bcd", 56, 1>>, <<"channel_gain", "bcd", 57, 1>>,
    <<"vert_stack", "u", 29, 1>>, <<"streamer_no", "u", 30, 1>>,
    <<"alias_filter_freq", "u", 32, 4>>, <<"low_cut_filter_freq", "u", 36, 4>>,
    <<"alias_filter_slope", "u", 40, 4>>,
    <<"low_cut_filter_slope", "u", 44, 4>>,
    <<"first_notch_filter", "u", 48, 4>>,
    <<"second_notch_filter", "u", 52, 4>>,
    <<"third_notch_filter", "u", 56, 4>>, <<"filter_phase", "u", 60, 1>>,
    <<"physical_unit", "u", 61, 1>>, <<"filter_delay", "u", 64, 4>>,
    <<"description", "txt", 68, 27>>, <<"subscans_per_ch_set", "zero", 0, 0>>,
    <<"ext_ch_set_num", "zero", 0, 0>> >>

-----------------------------------------------------------------------------
(* Record headers *)
Formats == {8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080,
            9036, 9038, 9058, 9080}
UI(F, o, n) == ToInt(ZeroExt(Slice(F, o, n)))

NotRec == [ok |-> FALSE]
(* descale multiplier in units of 1/1024, or TooBig when it is no such     *)
(* multiple or too large to be of use                                      *)
DescaleK(d) ==
    IF IsZeroDbl(d) THEN 0
    ELSE IF DblExp(d) > 1023 + 9 \/ DblExp(d) < 1023 - 10 THEN TooBig
    ELSE LET x == Scale(d, 10) i == DblToInt(x, 8)
         IN IF SameDbl(IntDbl(i, TRUE), x) THEN ToInt(i) ELSE TooBig

ChSet(F, o, r3) ==
    LET B == Slice(F, o, IF r3 THEN 96 ELSE 32) IN
    IF r3 THEN [n |-> UI(F, o + 20, 3), r3 |-> TRUE, ns |-> UI(F, o + 12, 4),
                st |-> 0, en |-> 0, sub |-> 0,
                k |-> DescaleK(Dec("sgl", B, 16, 4)), off |-> o]
    ELSE [n |-> BcdNat(B, 16, 4), r3 |-> FALSE, ns |-> 0,
          st |-> 2 * U2(B[3], B[4]), en |-> 2 * U2(B[5], B[6]),
          sub |-> P2[Nib(B, 22)], k |-> DescaleK(Dec("dsc", B, 6, 2)),
          off |-> o]

SumN(s) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Sum(i-1) + s[i].n
           IN Sum(Len(s))

(* the headers of the record that starts at p; ok = FALSE: they are cut    *)
(* short or contradict the format                                          *)
ParseRec(F, p) ==
    IF p + BLK > Len(F) THEN NotRec ELSE
    LET B == Slice(F, p, BLK)
        add == Nib(B, 22)
        fmt == BcdNat(B, 4, 4)
    IN IF add > 0 /\ p + 2 * BLK > Len(F) THEN NotRec ELSE
    LET g == p + BLK
        major == IF add = 0 THEN 0 ELSE F[g + 11]
        r3 == major > 2
        nadd == IF r3 /\ add = 15 THEN UI(F, g + 22, 2) ELSE add
        gend == p + BLK * (1 + nadd)
    IN IF (r3 /\ nadd < 2) \/ gend > Len(F) \/ fmt \notin Formats THEN NotRec
    ELSE
    LET nscan == BcdNat(B, 54, 2)
        c(i) == BcdNat(B, i, 2)
        big(i, o, n) == IF c(i) # 165 THEN c(i)
                        ELSE IF add = 0 THEN 0 ELSE UI(F, g + o, n)
        nset == big(56, 3, 2)
        skew == IF c(58) # 165 THEN c(58) ELSE IF r3 THEN UI(F, g + 8, 2) ELSE 0
        next == IF r3 THEN big(60, 5, 3) ELSE big(60, 5, 2)
        nextl == IF r3 THEN big(62, 27, 3) ELSE big(62, 7, 2)
        csz == IF r3 THEN 96 ELSE 32
        per == nset * csz + skew * BLK
        q(s) == gend + (s - 1) * per
        e0 == q(nscan + 1)
        fit == /\ \A s \in 1..nscan : nset = 0 \/ q(s) + nset * csz <= Len(F)
               /\ next = 0 \/ e0 + BLK * next <= Len(F)
               /\ nextl = 0 \/ e0 + BLK * (next + nextl) <= Len(F)
    IN IF ~fit THEN NotRec ELSE
    LET sets == [s \in 1..nscan |-> [j \in 1..nset |->
                    ChSet(F, q(s) + (j - 1) * csz, r3)]]
        RECURSIVE Tot(_)
        Tot(s) == IF s = 0 THEN 0 ELSE Tot(s - 1) + SumN(sets[s])
    IN [ok |-> TRUE, p |-> p, add |-> add, nadd |-> nadd, major |-> major,
        fmt |-> fmt, base |-> B[23], sets |-> sets, ext |-> e0,
        next |-> next, nextl |-> nextl,
        start |-> e0 + BLK * (next + nextl), total |-> Tot(nscan),
        trailer |-> IF add = 0 THEN 0
                    ELSE UI(F, g + 12, IF r3 THEN 4 ELSE 2)]

(* the first record from p on that has traces; the last one of the file if *)
(* none has                                                                *)
RECURSIVE NextRec(_, _)
NextRec(F, p) ==
    LET rec == ParseRec(F, p) IN
    IF ~rec.ok THEN rec ELSE IF rec.total > 0 THEN rec ELSE
    LET q == IF rec.trailer > Len(F) THEN Len(F) + 1
             ELSE rec.start + BLK * rec.trailer
    IN IF q >= Len(F) THEN [rec EXCEPT !.start = q] ELSE NextRec(F, q)

(* general header blocks after the third (second before revision 3); the   *)
(* last one of a number or type counts                                     *)
AddBlks(F, rec) == LET first == IF rec.major > 2 THEN 3 ELSE 2 IN
    [i \in 1..(IF rec.nadd + 1 > first THEN rec.nadd + 1 - first ELSE 0) |->
        Slice(F, rec.p + BLK * (first + i - 1), BLK)]
LastOf(bs, key, pos) == CHOOSE i \in 1..Len(bs) :
    bs[i][pos] = key /\ \A j \in (i+1)..Len(bs) : bs[j][pos] # key
RECURSIVE SortNat(_)
SortNat(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                   IN <<m>> \o SortNat(S \ {m})

(* what a reader shows of its record *)
SnapGeneralOK(o, F, rec) ==
    LET r3 == rec.major > 2
        bs == AddBlks(F, rec)
        nums == SortNat({bs[i][19] : i \in 1..Len(bs)})
    IN /\ BlockOK(GH1, o.gh, Slice(F, rec.p, BLK))
       /\ IF rec.add = 0 THEN o.gh2 = <<>>
          ELSE /\ Len(o.gh2) = 1
               /\ BlockOK(IF r3 THEN GH2R3 ELSE GH2R2, o.gh2[1],
                          Slice(F, rec.p + BLK, BLK))
       /\ IF r3 THEN /\ Len(o.gh3) = 1
                     /\ BlockOK(GH3R3, o.gh3[1], Slice(F, rec.p + 2*BLK, BLK))
                     /\ o.ghn = <<>>
          ELSE /\ o.gh3 = <<>> /\ o.blk = <<>>
               /\ Len(o.ghn) = Len(nums) /\ o.ghnt = nums
               /\ \A i \in 1..Len(nums) :
                    BlockOK(GHNR2, o.ghn[i], bs[LastOf(bs, nums[i], 19)])
SnapBlocksOK(o, F, rec) ==
    rec.major > 2 =>
    LET bs == AddBlks(F, rec)
        types == SortNat({bs[i][32] : i \in 1..Len(bs)} \cap DOMAIN BlockTab)
    IN /\ Len(o.blk) = Len(types)
       /\ \A i \in 1..Len(types) :
            /\ o.blk[i].t = types[i] /\ o.blk[i].ty = types[i]
            /\ BlockOK(BlockTab[types[i]], o.blk[i].v,
                       bs[LastOf(bs, types[i], 32)])
SnapSetsOK(o, F, rec) ==
    LET r3 == rec.major > 2 IN
    /\ Len(o.chs) = Len(rec.sets)
    /\ \A s \in 1..Len(rec.sets) :
         /\ Len(o.chs[s]) = Len(rec.sets[s])
         /\ \A j \in 1..Len(rec.sets[s]) :
              /\ BlockOK(IF r3 THEN CHS3 ELSE CHS2, o.chs[s][j],
                         Slice(F, rec.sets[s][j].off, IF r3 THEN 96 ELSE 32))
              /\ o.chs[s][j].opt = r3 /\ "mixed" \notin DOMAIN o.chs[s][j]
SnapExtOK(o, F, rec) ==
    /\ o.ext = [i \in 1..rec.next |-> Slice(F, rec.ext + BLK * (i - 1), BLK)]
    /\ o.extl = [i \in 1..rec.nextl |->
                    Slice(F, rec.ext + BLK * (rec.next + i - 1), BLK)]

-----------------------------------------------------------------------------
(* Trace headers: pairs <<name, value>>, a later pair replaces an earlier  *)
(* one of the same name                                                    *)
VU(bs) == <<0>> \o ZeroExt(bs)
VN(v) == <<0>> \o FromInt8(v)
VFrac(bs, k) == <<1>> \o DblFromBits(0, Bits(bs), -k)

MapOK(maps) == \A i \in 1..Len(maps) :
    LET m == maps[i] IN
    \A j \in 1..Len(m) :
        /\ m[j][1] + TypeSize(m[j][3]) <= BLK
        /\ \A k \in 1..Len(m) :
             j # k => \/ m[j][1] + TypeSize(m[j][3]) <= m[k][1]
                      \/ m[k][1] + TypeSize(m[k][3]) <= m[j][1]
(* a map lists its fields by offset *)
MapOrder(m) == LET offs == SortNat({m[j][1] : j \in 1..Len(m)})
               IN [i \in 1..Len(offs) |->
                    m[CHOOSE j \in 1..Len(m) : m[j][1] = offs[i]]]

BaseHdr(F, p) ==
    LET B == Slice(F, p, TRH)
        ech == Slice(B, 15, 2) efn == Slice(B, 17, 3)
    IN << <<"FFID", IF AllZero(efn) THEN VN(BcdNat(B, 0, 4)) ELSE VU(efn)>>,
          <<"SCAN_TYPE_NUM", VN(BcdNat(B, 4, 2))>>,
          <<"CH_SET_NUM", IF AllZero(ech) THEN VN(BcdNat(B, 6, 2)) ELSE VU(ech)>>,
          <<"CHAN", VN(BcdNat(B, 8, 4))>>,
          <<"FIRST_TIMING_WORD", VFrac(Slice(B, 6, 3), 8)>>,
          <<"TR_HDR_EXT", VN(B[10])>>,
          <<"SAMPLE_SKEW", VFrac(Slice(B, 10, 1), 8)>>,
          <<"TRACE_EDIT", VN(B[12])>>,
          <<"TIME_BREAK_WIN", VFrac(Slice(B, 12, 3), 8)>> >>

StdExt(E, major) ==
    LET eline == Slice(E, 10, 5) epoint == Slice(E, 15, 5)
        a == << <<"R_LINE", IF major > 1 /\ ~AllZero(eline)
                            THEN VFrac(eline, 16) ELSE VU(Slice(E, 0, 3))>>,
                <<"R_POINT", IF major > 1 /\ ~AllZero(epoint)
                             THEN VFrac(epoint, 16) ELSE VU(Slice(E, 3, 3))>>,
                <<"R_POINT_IDX", VN(E[7])>> >>
        b == IF major < 3 THEN << <<"SAMP_NUM", VU(Slice(E, 7, 3))>> >>
             ELSE << <<"RESHOOT_IDX", VN(E[8])>>, <<"GROUP_IDX", VN(E[9])>>,
                     <<"DEPTH_IDX", VN(E[10])>> >>
        c == IF major > 1 THEN << <<"SENSOR_TYPE", VN(E[21])>> >> ELSE <<>>
        d == IF major > 2
             THEN << <<"SAMP_NUM", VU(Slice(E, 24, 4))>>,
                     <<"SENSOR_MOVING", VN(E[29])>>,
                     <<"PHYSICAL_UNIT", VN(E[31])>> >>
             ELSE <<>>
    IN a \o b \o c \o d
MapExt(E, m) == LET o == MapOrder(m) IN
    [i \in 1..Len(o) |-> <<o[i][2], DecField(o[i][3],
                             Slice(E, o[i][1], TypeSize(o[i][3])))>>]

RECURSIVE ExtPairs(_, _, _, _, _, _)
ExtPairs(F, q, i, n, maps, major) ==
    IF i > n THEN <<>>
    ELSE LET E == Slice(F, q + BLK * (i - 1), BLK) IN
         (IF Len(maps) > 0
          THEN IF i <= Len(maps) THEN MapExt(E, maps[i]) ELSE <<>>
          ELSE IF i = 1
          THEN StdExt(E, major) \o
               (IF major > 2 /\ BcdNat(Slice(F, q - TRH, TRH), 8, 4) = 16665
                THEN << <<"CHAN", VU(Slice(E, 21, 3))>> >> ELSE <<>>)
          ELSE <<>>)
         \o ExtPairs(F, q, i + 1, n, maps, major)

(* header of the trace at p, as a function *)
TraceHdr(F, p, maps, major) ==
    LET ps == BaseHdr(F, p) \o
              ExtPairs(F, p + TRH, 1, F[p + 10], maps, major)
        names == {ps[i][1] : i \in 1..Len(ps)}
    IN [n \in names |-> ps[CHOOSE i \in 1..Len(ps) :
            ps[i][1] = n /\ \A j \in (i+1)..Len(ps) : ps[j][1] # n][2]]

-----------------------------------------------------------------------------
(* Samples *)
SampBytes(fmt, n) ==
    CASE fmt = 8015 -> ((n + 3) \div 4) * 10
      [] fmt \in {8022, 8042} -> n
      [] fmt \in {8024, 8044} -> 2 * n
      [] fmt \in {8036, 9036} -> 3 * n
      [] fmt \in {8080, 9080} -> 8 * n
      [] OTHER -> 4 * n
LittleFmt(fmt) == fmt >= 9000

(* floor(16 * dt * sub / base) *)
TimedSamples(dt, sub, base) ==
    LET a == 16 * dt IN
    IF a \div base > TooBig \div (sub + 1) THEN TooBig
    ELSE (a \div base) * sub + ((a % base) * sub) \div base

PackFmts == {8015, 8022, 8024, 8042, 8044}
(* bits of exponent base, exponent, fraction *)
PackPar(fmt) == CASE fmt = 8015 -> <<1, 4, 15>> [] fmt = 8022 -> <<2, 3, 4>>
                  [] fmt = 8024 -> <<2, 3, 12>> [] fmt = 8042 -> <<4, 2, 5>>
                  [] fmt = 8044 -> <<4, 2, 13>>
PackVal(s, e, f, fmt) == LET b == PackPar(fmt)
                         IN DblFrom24(s, f, e * b[1] - b[3])

(* value of sample i (1-based) stored at s, before descaling *)
RawSample(F, s, i, fmt) ==
    LET w == IF fmt = 8015 THEN 1 ELSE SampBytes(fmt, 1)
        bs == Norm(Slice(F, s + w * (i - 1), w), LittleFmt(fmt))
        v == U(bs)
    IN CASE fmt = 8015 ->
              LET g == s + ((i - 1) \div 4) * 10
                  k == (i - 1) % 4
                  e == Nib(<<F[g + 1], F[g + 2]>>, k)
                  m == S2(F[g + 3 + 2 * k], F[g + 4 + 2 * k])
              IN PackVal(IF m < 0 THEN 1 ELSE 0, e, IF m < 0 THEN -m ELSE m, fmt)
         [] fmt = 8022 -> PackVal(v \div 128, (v \div 16) % 8, v % 16, fmt)
         [] fmt = 8024 -> PackVal(v \div 32768, (v \div 4096) % 8, v % 4096, fmt)
         [] fmt = 8042 -> PackVal(v \div 128, (v \div 32) % 4, v % 32, fmt)
         [] fmt = 8044 -> PackVal(v \div 32768, (v \div 8192) % 4, v % 8192, fmt)
         [] fmt \in {8036, 8038, 9036, 9038} -> IntDbl(bs, TRUE)
         [] fmt = 8048 -> IbmDbl(bs)
         [] fmt \in {8058, 9058} -> SingleDbl(bs)
         [] OTHER -> bs

(* 2^(j/8) * 2^40, cut, its upper bits and its lower 20 bits *)
Root8 == <<<<1048576, 0>>, <<1143480, 247765>>, <<1246974, 41755>>,
           <<1359834, 873314>>, <<1482910, 419827>>, <<1617125, 271018>>,
           <<1763487, 628141>>, <<1923096, 905146>>>>
(* v * (t + d) for 0 < v < 1024, t of the table above, as a double *)
TimesRoot(v, t, d) ==
    LET low == v * (t[2] + d)
        hi == v * t[1] + low \div P2[20]
        lo == low % P2[20]
    IN IntDbl(FromNat(hi \div 4096, 4)
              \o FromNat((hi % 4096) * 16 + lo \div 65536, 2)
              \o FromNat(lo % 65536, 2), TRUE)
(* the first ten bits of the significand, if there are no more *)
Short(x) == /\ DblExp(x) > 0 /\ x[3] % 8 = 0
            /\ \A i \in 4..8 : x[i] = 0
ShortV(x) == 512 + (x[2] % 16) * 32 + x[3] \div 8
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((b - 1 - a) \div b)
DblLeq(a, b) == ~DblLess(b, a)
Abs(x) == [x EXCEPT ![1] = x[1] % 128]
(* y is x * 2^(k/1024).  Exact when k is a multiple of 1024; otherwise y   *)
(* is bounded: closely for short significands and eighths, loosely else    *)
ScaledOK(y, x, k) ==
    LET m == FloorDiv(k, 1024)
        r == k - 1024 * m
    IN IF k = TooBig \/ IsNaN(x) \/ DblExp(x) = 2047
          \/ ~Scalable(x, m) \/ ~Scalable(x, m + 1) THEN TRUE
       ELSE IF r = 0 THEN SameDbl(y, Scale(x, m))
       ELSE IF IsZeroDbl(x) THEN IsZeroDbl(y)
       ELSE /\ DblSign(y) = DblSign(x)
            /\ IF r % 128 = 0 /\ Short(x)
               THEN LET t == Root8[r \div 128 + 1]
                        v == ShortV(x)
                        e == m + DblExp(x) - 1023 - 9 - 40
                    IN /\ DblLeq(Scale(TimesRoot(v, t, 0), e), Abs(y))
                       /\ DblLeq(Abs(y), Scale(TimesRoot(v, t, 1), e))
               ELSE /\ DblLeq(Scale(Abs(x), m), Abs(y))
                    /\ DblLeq(Abs(y), Scale(Abs(x), m + 1))

-----------------------------------------------------------------------------
(* Encoding *)
BcdDigits(v, n) == [i \in 1..n |-> (v \div (10^(n - i))) % 10]
(* |x| below 2^(e * bb): smallest such exponent, at most max *)
RECURSIVE MinExp(_, _, _, _)
MinExp(x, bb, e, max) ==
    IF e = max \/ IsZeroDbl(x) \/ DblExp(x) - 1023 < e * bb THEN e
    ELSE MinExp(x, bb, e + 1, max)
EncPackOK(x, got, fmt) ==          \* got: the value stored, as a double
    LET b == PackPar(fmt)
        max == P2[b[2]] - 1
        a == Abs(x)
        e == MinExp(a, b[1], 0, max)
        sh == b[3] - e * b[1]
    IN IF IsZeroDbl(x) \/ ~Scalable(a, sh) THEN IsZeroDbl(got)
       ELSE LET sc == Scale(a, sh)
                i == DblToInt(sc, 8)
                t == ToInt(i)
                exact == SameDbl(IntDbl(i, TRUE), sc)
            IN IF t >= P2[b[3]] THEN DblSign(got) = DblSign(x)   \* saturates
               ELSE /\ t > 0 => DblSign(got) = DblSign(x)
                    /\ \/ SameDbl(Abs(got), DblFrom24(0, t, -sh))
                       \/ ~exact /\ SameDbl(Abs(got), DblFrom24(0, t + 1, -sh))
EncSampleOK(x, F, s, i, fmt) ==
    LET w == SampBytes(fmt, 1)
        bs == Norm(Slice(F, s + w * (i - 1), w), LittleFmt(fmt))
    IN CASE fmt \in PackFmts -> EncPackOK(x, RawSample(F, s, i, fmt), fmt)
         [] fmt \in {8036, 8038, 9036, 9038} -> bs = DblToInt(x, w)
         [] fmt = 8048 -> EncIbmOK(x, bs)
         [] fmt \in {8058, 9058} -> EncSingleOK(x, bs)
         [] OTHER -> SameDbl(x, bs)
(* sample i of the trace was given as x, the channel set descales by k     *)
WSampleOK(x, k, F, s, i, fmt) ==
    IF k = TooBig THEN TRUE
    ELSE IF k % 1024 = 0
    THEN LET m == -FloorDiv(k, 1024) IN
         IF IsNaN(x) \/ DblExp(x) = 2047 THEN fmt \in {8058, 8080, 9058, 9080}
                                   => EncSampleOK(x, F, s, i, fmt)
         ELSE IF ~Scalable(x, m) THEN TRUE
         ELSE EncSampleOK(Scale(x, m), F, s, i, fmt)
    ELSE IF fmt \in {8080, 9080}
    THEN ScaledOK(RawSample(F, s, i, fmt), x, -k)
    ELSE TRUE
GroupPadOK(F, s, n, fmt) ==
    fmt = 8015 => \A i \in (n + 1)..(4 * ((n + 3) \div 4)) :
        IsZeroDbl(RawSample(F, s, i, fmt))
=============================================================================
