------------------------------ MODULE SegdMaps ------------------------------
(***************************************************************************)
(* The trace header extension maps the library provides for Sercel         *)
(* recorders: for each extension block <<offset, name, type>>.             *)
(***************************************************************************)
Sercel428xl == <<
  <<
    <<0, "R_LINE", "uint24">>,
    <<3, "R_POINT", "uint24">>,
    <<6, "R_POINT_IDX", "uint8">>,
    <<7, "SAMP_NUM", "uint24">>,
    <<20, "SENSOR_TYPE", "uint8">> >>,
  <<
    <<0, "REC_X", "ieee_double">>,
    <<8, "REC_Y", "ieee_double">>,
    <<16, "R_ELEV", "ieee_single">>,
    <<20, "SERCEL_SENSOR_TYPE", "uint8">>,
    <<28, "TRACE_NUMBER", "uint32">> >>,
  <<
    <<0, "RESIST_LOW_LIMIT", "ieee_single">>,
    <<4, "RESIST_HIGH_LIMIT", "ieee_single">>,
    <<8, "RESIST_VALUE", "ieee_single">>,
    <<12, "TILT_LIMIT", "ieee_single">>,
    <<16, "TILT_VALUE", "ieee_single">>,
    <<20, "RESIST_ERROR", "uint8">>,
    <<21, "TILT_ERROR", "uint8">> >>,
  <<
    <<0, "CAPACIT_LOW_LIMIT", "ieee_single">>,
    <<4, "CAPACIT_HIGH_LIMIT", "ieee_single">>,
    <<8, "CAPACIT_VALUE", "ieee_single">>,
    <<12, "CUT_OFF_LOW_LIMIT", "ieee_single">>,
    <<16, "CUT_OFF_HIGH_LIMIT", "ieee_single">>,
    <<20, "CUT_OFF_VALUE", "ieee_single">>,
    <<24, "CAPACIT_ERROR", "uint8">>,
    <<25, "CUT_OFF_ERROR", "uint8">> >>,
  <<
    <<0, "LEAKAGE_LIMIT", "ieee_single">>,
    <<4, "LEAKAGE_VALUE", "ieee_single">>,
    <<24, "LEAKAGE_ERROR", "uint8">> >>,
  <<
    <<0, "UNIT_TYPE", "uint8">>,
    <<1, "UNIT_SERIAL_NUM", "uint24">>,
    <<4, "CHANNEL_NUM", "uint8">>,
    <<8, "FDU_ASS_TYPE", "uint8">>,
    <<9, "FDU_ASS_SERIAL", "uint24">>,
    <<12, "FDU_ASS_LOC", "uint8">>,
    <<16, "FDU_UNIT_TYPE", "uint8">>,
    <<17, "CHANNEL_TYPE", "uint8">>,
    <<20, "SENSOR_SENSITIVITY", "ieee_single">> >>,
  <<
    <<0, "CONTROL_UNIT_TYPE", "uint8">>,
    <<1, "CONTROL_UNIT_SERIAL", "uint24">>,
    <<4, "CHAN_GAIN_SCALE", "uint8">>,
    <<5, "CHAN_FILTER", "uint8">>,
    <<6, "CHAN_DATA_ERROR", "uint8">>,
    <<7, "CHAN_EDIT_STATUS", "uint8">>,
    <<8, "SAMP_TO_V_CONV", "ieee_single">>,
    <<12, "NUM_OF_STACKS_NOISY", "uint8">>,
    <<13, "NUM_OF_STACKS_LOW", "uint8">>,
    <<14, "CHAN_TYPE_ID", "uint8">>,
    <<15, "CHAN_PROCESS", "uint8">>,
    <<16, "TRC_MAX_VALUE", "ieee_single">>,
    <<20, "TRC_MAX_TIME", "uint32">>,
    <<24, "NUM_OF_INTERPOLAT", "uint32">> >> >>

Sercel428 == <<
  <<
    <<0, "R_LINE", "uint24">>,
    <<3, "R_POINT", "uint24">>,
    <<6, "R_POINT_IDX", "uint8">>,
    <<7, "SAMP_NUM", "uint24">>,
    <<20, "SENSOR_TYPE", "uint8">> >>,
  <<
    <<0, "REC_X", "ieee_double">>,
    <<8, "REC_Y", "ieee_double">>,
    <<16, "R_ELEV", "ieee_single">>,
    <<20, "SERCEL_SENSOR_TYPE", "uint8">>,
    <<28, "TRACE_NUMBER", "uint32">> >>,
  <<
    <<0, "DC_OFFSET", "ieee_single">> >>,
  <<
    <<0, "CAPACIT_LOW_LIMIT", "ieee_single">>,
    <<4, "CAPACIT_HIGH_LIMIT", "ieee_single">>,
    <<8, "CAPACIT_VALUE", "ieee_single">>,
    <<12, "CUT_OFF_LOW_LIMIT", "ieee_single">>,
    <<16, "CUT_OFF_HIGH_LIMIT", "ieee_single">>,
    <<20, "CUT_OFF_VALUE", "ieee_single">>,
    <<24, "CAPACIT_ERROR", "uint8">>,
    <<25, "CUT_OFF_ERROR", "uint8">> >>,
  <<
    <<0, "LEAKAGE_LIMIT", "ieee_single">>,
    <<4, "LEAKAGE_VALUE", "ieee_single">>,
    <<24, "LEAKAGE_ERROR", "uint8">> >>,
  <<
    <<0, "UNIT_TYPE", "uint8">>,
    <<1, "UNIT_SERIAL_NUM", "uint24">>,
    <<4, "CHANNEL_NUM", "uint8">>,
    <<8, "FDU_ASS_TYPE", "uint8">>,
    <<9, "FDU_ASS_SERIAL", "uint24">>,
    <<12, "FDU_ASS_LOC", "uint8">>,
    <<16, "FDU_UNIT_TYPE", "uint8">>,
    <<20, "SENSOR_SENSITIVITY", "ieee_single">>,
    <<24, "EXT_UNIT_SERIAL", "uint32">>,
    <<28, "EXT_FDU_ASS_SERIAL", "uint32">> >>,
  <<
    <<0, "CONTROL_UNIT_TYPE", "uint8">>,
    <<1, "CONTROL_UNIT_SERIAL", "uint24">>,
    <<4, "CHAN_GAIN_SCALE", "uint8">>,
    <<5, "CHAN_FILTER", "uint8">>,
    <<6, "CHAN_DATA_ERROR", "uint8">>,
    <<7, "CHAN_EDIT_STATUS", "uint8">>,
    <<8, "SAMP_TO_V_CONV", "ieee_single">>,
    <<13, "REMOVED_OFFSET", "uint8">>,
    <<14, "CHAN_TYPE_ID", "uint8">>,
    <<15, "CHAN_PROCESS", "uint8">>,
    <<16, "ANAL_LOW_CUR_FILT", "ieee_single">>,
    <<20, "DIG_LOW_CUT_FILT", "ieee_single">>,
    <<24, "NUM_OF_EDITIONS", "uint32">>,
    <<28, "COMP_LOW_CUT_FILT", "ieee_single">> >> >>

Sercel408 == <<
  <<
    <<0, "R_LINE", "uint24">>,
    <<3, "R_POINT", "uint24">>,
    <<6, "R_POINT_IDX", "uint8">>,
    <<7, "SAMP_NUM", "uint24">>,
    <<20, "SENSOR_TYPE", "uint8">> >>,
  <<
    <<0, "REC_X", "ieee_double">>,
    <<8, "REC_Y", "ieee_double">>,
    <<16, "R_ELEV", "ieee_single">>,
    <<20, "SERCEL_SENSOR_TYPE", "uint8">> >>,
  <<
    <<0, "DC_OFFSET", "ieee_single">> >>,
  <<
    <<0, "CAPACIT_LOW_LIMIT", "ieee_single">>,
    <<4, "CAPACIT_HIGH_LIMIT", "ieee_single">>,
    <<8, "CAPACIT_VALUE", "ieee_single">>,
    <<12, "CUT_OFF_LOW_LIMIT", "ieee_single">>,
    <<16, "CUT_OFF_HIGH_LIMIT", "ieee_single">>,
    <<20, "CUT_OFF_VALUE", "ieee_single">>,
    <<24, "CAPACIT_ERROR", "uint8">>,
    <<25, "CUT_OFF_ERROR", "uint8">> >>,
  <<
    <<0, "LEAKAGE_LIMIT", "ieee_single">>,
    <<4, "LEAKAGE_VALUE", "ieee_single">>,
    <<24, "LEAKAGE_ERROR", "uint8">> >>,
  <<
    <<0, "UNIT_TYPE", "uint8">>,
    <<1, "UNIT_SERIAL_NUM", "uint24">>,
    <<4, "CHANNEL_NUM", "uint8">>,
    <<8, "FDU_ASS_TYPE", "uint8">>,
    <<9, "FDU_ASS_SERIAL", "uint24">>,
    <<12, "FDU_ASS_LOC", "uint8">>,
    <<16, "FDU_UNIT_TYPE", "uint8">>,
    <<17, "CHANNEL_TYPE", "uint8">>,
    <<20, "SENSOR_SENSITIVITY", "ieee_single">> >>,
  <<
    <<0, "CONTROL_UNIT_TYPE", "uint8">>,
    <<1, "CONTROL_UNIT_SERIAL", "uint24">>,
    <<4, "CHAN_GAIN_SCALE", "uint8">>,
    <<5, "CHAN_FILTER", "uint8">>,
    <<6, "CHAN_DATA_ERROR", "uint8">>,
    <<7, "CHAN_EDIT_STATUS", "uint8">>,
    <<8, "SAMP_TO_V_CONV", "ieee_single">>,
    <<14, "CHAN_TYPE_ID", "uint8">>,
    <<15, "CHAN_PROCESS", "uint8">>,
    <<16, "TRC_MAX_VALUE", "ieee_single">>,
    <<20, "TRC_MAX_TIME", "uint32">>,
    <<24, "NUM_OF_INTERPOLAT", "uint32">>,
    <<28, "COMP_LOW_CUT_FILT", "ieee_single">> >> >>
=============================================================================
