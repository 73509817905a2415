---------------------------- MODULE SegyDefaults ----------------------------
(***************************************************************************)
(* The standard trace header (SEG-Y rev 1) and trace header extension 1    *)
(* (SEG-Y rev 2) under the names the library documents: 0-based offset,    *)
(* name, type.                                                             *)
(***************************************************************************)
DefaultMaps == <<
  [nl |-> 8, e |-> <<
      <<0, "TRC_SEQ_LINE", "int32">>, <<4, "TRC_SEQ_SGY", "int32">>,
      <<8, "FFID", "int32">>, <<12, "CHAN", "int32">>,
      <<16, "ESP", "int32">>, <<20, "ENS_NO", "int32">>,
      <<24, "SEQ_NO", "int32">>, <<28, "TRACE_ID", "int16">>,
      <<30, "VERT_SUM", "int16">>, <<32, "HOR_SUM", "int16">>,
      <<34, "DATA_USE", "int16">>, <<36, "OFFSET", "int32">>,
      <<40, "R_ELEV", "int32">>, <<44, "S_ELEV", "int32">>,
      <<48, "S_DEPTH", "int32">>, <<52, "R_DATUM", "int32">>,
      <<56, "S_DATUM", "int32">>, <<60, "S_WATER", "int32">>,
      <<64, "R_WATER", "int32">>, <<68, "ELEV_SCALAR", "int16">>,
      <<70, "COORD_SCALAR", "int16">>, <<72, "SOU_X", "int32">>,
      <<76, "SOU_Y", "int32">>, <<80, "REC_X", "int32">>,
      <<84, "REC_Y", "int32">>, <<88, "COORD_UNITS", "int16">>,
      <<90, "WEATH_VEL", "int16">>, <<92, "SUBWEATH_VEL", "int16">>,
      <<94, "S_UPHOLE", "int16">>, <<96, "R_UPHOLE", "int16">>,
      <<98, "S_STAT", "int16">>, <<100, "R_STAT", "int16">>,
      <<102, "TOT_STAT", "int16">>, <<104, "LAG_A", "int16">>,
      <<106, "LAG_B", "int16">>, <<108, "DELAY_TIME", "int16">>,
      <<110, "MUTE_START", "int16">>, <<112, "MUTE_END", "int16">>,
      <<114, "SAMP_NUM", "int16">>, <<116, "SAMP_INT", "int16">>,
      <<118, "GAIN_TYPE", "int16">>, <<120, "GAIN_CONST", "int16">>,
      <<122, "INIT_GAIN", "int16">>, <<124, "CORRELATED", "int16">>,
      <<126, "SW_START", "int16">>, <<128, "SW_END", "int16">>,
      <<130, "SW_LENGTH", "int16">>, <<132, "SW_TYPE", "int16">>,
      <<134, "SW_TAPER_START", "int16">>, <<136, "SW_TAPER_END", "int16">>,
      <<138, "TAPER_TYPE", "int16">>, <<140, "ALIAS_FILT_FREQ", "int16">>,
      <<142, "ALIAS_FILT_SLOPE", "int16">>, <<144, "NOTCH_FILT_FREQ", "int16">>,
      <<146, "NOTCH_FILT_SLOPE", "int16">>, <<148, "LOW_CUT_FREQ", "int16">>,
      <<150, "HIGH_CUT_FREQ", "int16">>, <<152, "LOW_CUT_SLOPE", "int16">>,
      <<154, "HIGH_CUT_SLOPE", "int16">>, <<156, "YEAR", "int16">>,
      <<158, "DAY", "int16">>, <<160, "HOUR", "int16">>,
      <<162, "MINUTE", "int16">>, <<164, "SECOND", "int16">>,
      <<166, "TIME_BASIS_CODE", "int16">>, <<168, "TRACE_WEIGHT", "int16">>,
      <<170, "GROUP_NUM_ROLL", "int16">>, <<172, "GROUP_NUM_FIRST", "int16">>,
      <<174, "GROUP_NUM_LAST", "int16">>, <<176, "GAP_SIZE", "int16">>,
      <<178, "OVER_TRAVEL", "int16">>, <<180, "CDP_X", "int32">>,
      <<184, "CDP_Y", "int32">>, <<188, "INLINE", "int32">>,
      <<192, "XLINE", "int32">>, <<196, "SP_NUM", "int32">>,
      <<200, "SP_NUM_SCALAR", "int16">>, <<202, "TR_VAL_UNIT", "int16">>,
      <<204, "TRANS_CONST_MANT", "int32">>, <<208, "TRANS_CONST_EXP", "int16">>,
      <<210, "TRANS_UNITS", "int16">>, <<212, "DEVICE_ID", "int16">>,
      <<214, "TIME_SCALAR", "int16">>, <<216, "SOURCE_TYPE", "int16">>,
      <<218, "SOU_V_DIR", "int16">>, <<220, "SOU_X_DIR", "int16">>,
      <<222, "SOU_I_DIR", "int16">>, <<224, "SOURCE_MEASUREMENT_MANT", "int32">>,
      <<228, "SOURCE_MEASUREMENT_EXP", "int16">>, <<230, "SOU_MEAS_UNIT", "int16">> >>],
  [nl |-> 8, e |-> <<
      <<0, "TRC_SEQ_LINE", "uint64">>, <<8, "TRC_SEQ_SGY", "uint64">>,
      <<16, "FFID", "uint64">>, <<24, "ENS_NO", "uint64">>,
      <<32, "R_ELEV", "ieee_double">>, <<40, "R_DEPTH", "ieee_double">>,
      <<48, "S_ELEV", "ieee_double">>, <<56, "S_DEPTH", "ieee_double">>,
      <<64, "R_DATUM", "ieee_double">>, <<72, "S_DATUM", "ieee_double">>,
      <<80, "S_WATER", "ieee_double">>, <<88, "R_WATER", "ieee_double">>,
      <<96, "SOU_X", "ieee_double">>, <<104, "SOU_Y", "ieee_double">>,
      <<112, "REC_X", "ieee_double">>, <<120, "REC_Y", "ieee_double">>,
      <<128, "OFFSET", "ieee_double">>, <<136, "SAMP_NUM", "int32">>,
      <<140, "NANOSECOND", "int32">>, <<144, "SAMP_INT", "ieee_double">>,
      <<152, "CABLE_NUM", "int32">>, <<156, "ADD_TRC_HDR_NUM", "int16">>,
      <<158, "LAST_TRC_FLAG", "int16">>, <<160, "CDP_X", "ieee_double">>,
      <<168, "CDP_Y", "ieee_double">> >>] >>
=============================================================================
