    {"GeneralHeader", {
        F(CommonSEGD::GeneralHeader, FILE_NUMBER),
        F(CommonSEGD::GeneralHeader, FORMAT_CODE),
        F(CommonSEGD::GeneralHeader, GENERAL_CONSTANTS),
        F(CommonSEGD::GeneralHeader, YEAR),
        F(CommonSEGD::GeneralHeader, GENERAL_HEADER_BLOCKS),
        F(CommonSEGD::GeneralHeader, DAY),
        F(CommonSEGD::GeneralHeader, HOUR),
        F(CommonSEGD::GeneralHeader, MINUTE),
        F(CommonSEGD::GeneralHeader, SECOND),
        F(CommonSEGD::GeneralHeader, MANUFACTURERS_CODE),
        F(CommonSEGD::GeneralHeader, MANUFACTURERS_NUMBER),
        F(CommonSEGD::GeneralHeader, BYTES_PER_SCAN),
        F(CommonSEGD::GeneralHeader, BASE_SCAN_INTERVAL),
        F(CommonSEGD::GeneralHeader, POLARITY),
        F(CommonSEGD::GeneralHeader, SCANS_PER_BLOCK),
        F(CommonSEGD::GeneralHeader, RECORD_TYPE),
        F(CommonSEGD::GeneralHeader, RECORD_LENGTH),
        F(CommonSEGD::GeneralHeader, SCAN_TYPES_PER_RECORD),
        F(CommonSEGD::GeneralHeader, CHANNEL_SETS_PER_SCAN_TYPE),
        F(CommonSEGD::GeneralHeader, SKEW_BLOCKS),
        F(CommonSEGD::GeneralHeader, EXTENDED_HEADER_BLOCKS),
        F(CommonSEGD::GeneralHeader, EXTERNAL_HEADER_BLOCKS),
    }},
    {"GeneralHeader2", {
        F(CommonSEGD::GeneralHeader2, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeader2, EXT_CH_SETS_PER_SCAN_TYPE),
        F(CommonSEGD::GeneralHeader2, EXTEDNDED_HEADER_BLOCKS),
        F(CommonSEGD::GeneralHeader2, EXTERNAL_HEADER_BLOCKS),
        F(CommonSEGD::GeneralHeader2, EXTENDED_SKEW_BLOCKS),
        F(CommonSEGD::GeneralHeader2, SEGD_REVISION_MAJOR),
        F(CommonSEGD::GeneralHeader2, SEGD_REVISION_MINOR),
        F(CommonSEGD::GeneralHeader2, GEN_TRAILER_NUMBER_OF_BLOCKS),
        F(CommonSEGD::GeneralHeader2, EXTENDED_RECORD_LENGTH),
        F(CommonSEGD::GeneralHeader2, RECORD_SET_NUMBER),
        F(CommonSEGD::GeneralHeader2, EXT_NUM_ADD_BLKS_IN_GEN_HDR),
        F(CommonSEGD::GeneralHeader2, DOMINANT_SAMPLING_INT),
        F(CommonSEGD::GeneralHeader2, GEN_HEADER_BLOCK_NUM),
    }},
    {"GeneralHeaderN", {
        F(CommonSEGD::GeneralHeaderN, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderN, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderN, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderN, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderN, PHASE_CONTROL),
        F(CommonSEGD::GeneralHeaderN, TYPE_VIBRATOR),
        F(CommonSEGD::GeneralHeaderN, PHASE_ANGLE),
        F(CommonSEGD::GeneralHeaderN, GEN_HEADER_BLOCK_NUM),
        F(CommonSEGD::GeneralHeaderN, SOURCE_SET_NUMBER),
    }},
    {"GeneralHeader3", {
        F(CommonSEGD::GeneralHeader3, TIME_ZERO),
        F(CommonSEGD::GeneralHeader3, RECORD_SIZE),
        F(CommonSEGD::GeneralHeader3, DATA_SIZE),
        F(CommonSEGD::GeneralHeader3, HEADER_SIZE),
        F(CommonSEGD::GeneralHeader3, EXTD_REC_MODE),
        F(CommonSEGD::GeneralHeader3, REL_TIME_MODE),
        F(CommonSEGD::GeneralHeader3, GEN_HEADER_BLOCK_NUM),
    }},
    {"GeneralHeaderVes", {
        F(CommonSEGD::GeneralHeaderVes, ABBR_VESSEL_OR_CREW_NAME),
        F(CommonSEGD::GeneralHeaderVes, VESSEL_OR_CREW_NAME),
        F(CommonSEGD::GeneralHeaderVes, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderSur", {
        F(CommonSEGD::GeneralHeaderSur, SURVEY_ARE_NAME),
        F(CommonSEGD::GeneralHeaderSur, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderCli", {
        F(CommonSEGD::GeneralHeaderCli, CLIENT_NAME),
        F(CommonSEGD::GeneralHeaderCli, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderJob", {
        F(CommonSEGD::GeneralHeaderJob, ABBR_JOB_ID),
        F(CommonSEGD::GeneralHeaderJob, JOB_ID),
        F(CommonSEGD::GeneralHeaderJob, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderLin", {
        F(CommonSEGD::GeneralHeaderLin, LINE_ABBR),
        F(CommonSEGD::GeneralHeaderLin, LINE_ID),
        F(CommonSEGD::GeneralHeaderLin, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderVib", {
        F(CommonSEGD::GeneralHeaderVib, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderVib, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderVib, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderVib, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderVib, PHASE_CONTROL),
        F(CommonSEGD::GeneralHeaderVib, TYPE_VIBRATOR),
        F(CommonSEGD::GeneralHeaderVib, PHASE_ANGLE),
        F(CommonSEGD::GeneralHeaderVib, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderVib, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderVib, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderVib, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderVib, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderVib, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderVib, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderVib, SIZE),
        F(CommonSEGD::GeneralHeaderVib, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderVib, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderExp", {
        F(CommonSEGD::GeneralHeaderExp, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderExp, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderExp, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderExp, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderExp, DEPTH),
        F(CommonSEGD::GeneralHeaderExp, CHARGE_LENGTH),
        F(CommonSEGD::GeneralHeaderExp, SOIL_TYPE),
        F(CommonSEGD::GeneralHeaderExp, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderExp, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderExp, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderExp, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderExp, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderExp, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderExp, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderExp, SIZE),
        F(CommonSEGD::GeneralHeaderExp, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderExp, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderAir", {
        F(CommonSEGD::GeneralHeaderAir, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderAir, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderAir, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderAir, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderAir, DEPTH),
        F(CommonSEGD::GeneralHeaderAir, AIR_PRESSURE),
        F(CommonSEGD::GeneralHeaderAir, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderAir, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderAir, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderAir, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderAir, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderAir, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderAir, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderAir, SIZE),
        F(CommonSEGD::GeneralHeaderAir, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderAir, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderWat", {
        F(CommonSEGD::GeneralHeaderWat, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderWat, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderWat, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderWat, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderWat, DEPTH),
        F(CommonSEGD::GeneralHeaderWat, AIR_PRESSURE),
        F(CommonSEGD::GeneralHeaderWat, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderWat, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderWat, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderWat, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderWat, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderWat, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderWat, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderWat, SIZE),
        F(CommonSEGD::GeneralHeaderWat, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderWat, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderEle", {
        F(CommonSEGD::GeneralHeaderEle, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_TYPE),
        F(CommonSEGD::GeneralHeaderEle, MOMENT),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderEle, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderEle, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderEle, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderEle, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderEle, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderEle, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderEle, SIZE),
        F(CommonSEGD::GeneralHeaderEle, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderEle, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderOth", {
        F(CommonSEGD::GeneralHeaderOth, EXPANDED_FILE_NUMBER),
        F(CommonSEGD::GeneralHeaderOth, SOURCE_LINE_NUMBER),
        F(CommonSEGD::GeneralHeaderOth, SOURCE_POINT_NUMBER),
        F(CommonSEGD::GeneralHeaderOth, SOURCE_POINT_INDEX),
        F(CommonSEGD::GeneralHeaderOth, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderOth, SOURCE_SET_NUM),
        F(CommonSEGD::GeneralHeaderOth, RESHOOT_INDEX),
        F(CommonSEGD::GeneralHeaderOth, GROUP_INDEX),
        F(CommonSEGD::GeneralHeaderOth, DEPTH_INDEX),
        F(CommonSEGD::GeneralHeaderOth, OFFSET_CROSSLINE),
        F(CommonSEGD::GeneralHeaderOth, OFFSET_INLINE),
        F(CommonSEGD::GeneralHeaderOth, SIZE),
        F(CommonSEGD::GeneralHeaderOth, OFFSET_DEPTH),
        F(CommonSEGD::GeneralHeaderOth, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderAdd", {
        F(CommonSEGD::GeneralHeaderAdd, TIME),
        F(CommonSEGD::GeneralHeaderAdd, SOURCCE_STATUS),
        F(CommonSEGD::GeneralHeaderAdd, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderAdd, SOURCE_MOVING),
        F(CommonSEGD::GeneralHeaderAdd, ERROR_DESCRIPTION),
        F(CommonSEGD::GeneralHeaderAdd, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderSaux", {
        F(CommonSEGD::GeneralHeaderSaux, SOURCE_ID),
        F(CommonSEGD::GeneralHeaderSaux, SCAN_TYPE_NUM_1),
        F(CommonSEGD::GeneralHeaderSaux, CH_SET_NUM_1),
        F(CommonSEGD::GeneralHeaderSaux, TRACE_NUM_1),
        F(CommonSEGD::GeneralHeaderSaux, SCAN_TYPE_NUM_2),
        F(CommonSEGD::GeneralHeaderSaux, CH_SET_NUM_2),
        F(CommonSEGD::GeneralHeaderSaux, TRACE_NUM_2),
        F(CommonSEGD::GeneralHeaderSaux, SCAN_TYPE_NUM_3),
        F(CommonSEGD::GeneralHeaderSaux, CH_SET_NUM_3),
        F(CommonSEGD::GeneralHeaderSaux, TRACE_NUM_3),
        F(CommonSEGD::GeneralHeaderSaux, SCAN_TYPE_NUM_4),
        F(CommonSEGD::GeneralHeaderSaux, CH_SET_NUM_4),
        F(CommonSEGD::GeneralHeaderSaux, TRACE_NUM_4),
        F(CommonSEGD::GeneralHeaderSaux, SCAN_TYPE_NUM_5),
        F(CommonSEGD::GeneralHeaderSaux, CH_SET_NUM_5),
        F(CommonSEGD::GeneralHeaderSaux, TRACE_NUM_5),
        F(CommonSEGD::GeneralHeaderSaux, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderCoord", {
        F(CommonSEGD::GeneralHeaderCoord, COORD_REF_SYS),
        F(CommonSEGD::GeneralHeaderCoord, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderPos1", {
        F(CommonSEGD::GeneralHeaderPos1, TIME_OF_POSITION),
        F(CommonSEGD::GeneralHeaderPos1, TIME_OF_MEASUREMENT),
        F(CommonSEGD::GeneralHeaderPos1, VERTICAL_ERROR),
        F(CommonSEGD::GeneralHeaderPos1, HOR_ERR_SEMI_MAJOR),
        F(CommonSEGD::GeneralHeaderPos1, HOR_ERR_SEMI_MINOR),
        F(CommonSEGD::GeneralHeaderPos1, HOR_ERR_ORIENTATION),
        F(CommonSEGD::GeneralHeaderPos1, POSITION_TYPE),
        F(CommonSEGD::GeneralHeaderPos1, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderPos2", {
        F(CommonSEGD::GeneralHeaderPos2, CRS_A_COORD1),
        F(CommonSEGD::GeneralHeaderPos2, CRS_A_COORD2),
        F(CommonSEGD::GeneralHeaderPos2, CRS_A_COORD3),
        F(CommonSEGD::GeneralHeaderPos2, CRS_A_CRSREF),
        F(CommonSEGD::GeneralHeaderPos2, POS1_VALID),
        F(CommonSEGD::GeneralHeaderPos2, POS1_QUALITY),
        F(CommonSEGD::GeneralHeaderPos2, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderPos3", {
        F(CommonSEGD::GeneralHeaderPos3, CRS_B_COORD1),
        F(CommonSEGD::GeneralHeaderPos3, CRS_B_COORD2),
        F(CommonSEGD::GeneralHeaderPos3, CRS_B_COORD3),
        F(CommonSEGD::GeneralHeaderPos3, CRS_B_CRSREF),
        F(CommonSEGD::GeneralHeaderPos3, POS2_VALID),
        F(CommonSEGD::GeneralHeaderPos3, POS2_QUALITY),
        F(CommonSEGD::GeneralHeaderPos3, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderRel", {
        F(CommonSEGD::GeneralHeaderRel, OFFSET_EAST),
        F(CommonSEGD::GeneralHeaderRel, OFFSET_NORTH),
        F(CommonSEGD::GeneralHeaderRel, OFFSET_VERT),
        F(CommonSEGD::GeneralHeaderRel, DESCRIPTION),
        F(CommonSEGD::GeneralHeaderRel, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderSen", {
        F(CommonSEGD::GeneralHeaderSen, INSTRUMENT_TEST_TIME),
        F(CommonSEGD::GeneralHeaderSen, SENSOR_SENSITIVITY),
        F(CommonSEGD::GeneralHeaderSen, INSTR_TEST_RESULT),
        F(CommonSEGD::GeneralHeaderSen, SERIAL_NUMBER),
        F(CommonSEGD::GeneralHeaderSen, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderSCa", {
        F(CommonSEGD::GeneralHeaderSCa, FREQUENCY_1),
        F(CommonSEGD::GeneralHeaderSCa, AMPLITUDE_1),
        F(CommonSEGD::GeneralHeaderSCa, PHASE_1),
        F(CommonSEGD::GeneralHeaderSCa, FREQUENCY_2),
        F(CommonSEGD::GeneralHeaderSCa, AMPLITUDE_2),
        F(CommonSEGD::GeneralHeaderSCa, PHASE_2),
        F(CommonSEGD::GeneralHeaderSCa, ALIBRATION_APPLIED),
        F(CommonSEGD::GeneralHeaderSCa, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderTim", {
        F(CommonSEGD::GeneralHeaderTim, TIME_OF_DEPLOYMENT),
        F(CommonSEGD::GeneralHeaderTim, TIME_OF_RETRIEVAL),
        F(CommonSEGD::GeneralHeaderTim, TIMER_OFFSET_DEPLOYMENT),
        F(CommonSEGD::GeneralHeaderTim, TIME_OFFSET_RETRIEVAL),
        F(CommonSEGD::GeneralHeaderTim, TIMEDRIFT_CORRECTED),
        F(CommonSEGD::GeneralHeaderTim, CORRECTION_METHOD),
        F(CommonSEGD::GeneralHeaderTim, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderElSR", {
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_DIMENTION_X),
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_DIMENTION_Y),
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_DIMENTION_Z),
        F(CommonSEGD::GeneralHeaderElSR, POSITIVE_TERMINAL),
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_OFFSET_X),
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_OFFSET_Y),
        F(CommonSEGD::GeneralHeaderElSR, EQUIPMENT_OFFSET_Z),
        F(CommonSEGD::GeneralHeaderElSR, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderOri", {
        F(CommonSEGD::GeneralHeaderOri, ROTATION_X_AXIS),
        F(CommonSEGD::GeneralHeaderOri, ROTATION_Y_AXIS),
        F(CommonSEGD::GeneralHeaderOri, ROTATION_Z_AXIS),
        F(CommonSEGD::GeneralHeaderOri, REFERENCE_ORIENT),
        F(CommonSEGD::GeneralHeaderOri, TIME_STAMP),
        F(CommonSEGD::GeneralHeaderOri, ORIENT_TYPE),
        F(CommonSEGD::GeneralHeaderOri, REF_ORIENT_VALID),
        F(CommonSEGD::GeneralHeaderOri, ROTATION_APPLIED),
        F(CommonSEGD::GeneralHeaderOri, ROT_NORTH),
        F(CommonSEGD::GeneralHeaderOri, APPLIED),
        F(CommonSEGD::GeneralHeaderOri, GEN_HEADER_TYPE),
    }},
    {"GeneralHeaderMeas", {
        F(CommonSEGD::GeneralHeaderMeas, TIMESTAMP),
        F(CommonSEGD::GeneralHeaderMeas, MEASUREMENT_VALUE),
        F(CommonSEGD::GeneralHeaderMeas, MAXIMUM_VALUE),
        F(CommonSEGD::GeneralHeaderMeas, MINIMUM_VALUE),
        F(CommonSEGD::GeneralHeaderMeas, QUANTITY_CLASS),
        F(CommonSEGD::GeneralHeaderMeas, UNIT_OF_MEASURE),
        F(CommonSEGD::GeneralHeaderMeas, MEASUREMENT_DESCRIPTION),
        F(CommonSEGD::GeneralHeaderMeas, GEN_HEADER_TYPE),
    }},
    {"ChannelSetHeader", {
        F(CommonSEGD::ChannelSetHeader, SCAN_TYPE_NUMBER),
        F(CommonSEGD::ChannelSetHeader, CHANNEL_SET_NUMBER),
        F(CommonSEGD::ChannelSetHeader, CHANNEL_TYPE),
        F(CommonSEGD::ChannelSetHeader, CHANNEL_SET_START_TIME),
        F(CommonSEGD::ChannelSetHeader, CHANNEL_SET_END_TIME),
        F(CommonSEGD::ChannelSetHeader, DESCALE_MULTIPLIER),
        F(CommonSEGD::ChannelSetHeader, NUMBER_OF_CHANNELS),
        F(CommonSEGD::ChannelSetHeader, SUBSCANS_PER_CH_SET),
        F(CommonSEGD::ChannelSetHeader, CHANNEL_GAIN),
        F(CommonSEGD::ChannelSetHeader, ALIAS_FILTER_FREQ),
        F(CommonSEGD::ChannelSetHeader, ALIAS_FILTER_SLOPE),
        F(CommonSEGD::ChannelSetHeader, LOW_CUT_FILTER_FREQ),
        F(CommonSEGD::ChannelSetHeader, LOW_CUT_FILTER_SLOPE),
        F(CommonSEGD::ChannelSetHeader, FIRST_NOTCH_FILTER),
        F(CommonSEGD::ChannelSetHeader, SECOND_NOTCH_FILTER),
        F(CommonSEGD::ChannelSetHeader, THIRD_NOTCH_FILTER),
        F(CommonSEGD::ChannelSetHeader, EXT_CH_SET_NUM),
        F(CommonSEGD::ChannelSetHeader, EXT_HDR_FLAG),
        F(CommonSEGD::ChannelSetHeader, TRC_HDR_EXT),
        F(CommonSEGD::ChannelSetHeader, VERT_STACK),
        F(CommonSEGD::ChannelSetHeader, STREAMER_NO),
        F(CommonSEGD::ChannelSetHeader, ARRAY_FORMING),
        F(CommonSEGD::ChannelSetHeader, NUMBER_OF_SAMPLES),
        F(CommonSEGD::ChannelSetHeader, SAMPLE_INTERVAL),
        F(CommonSEGD::ChannelSetHeader, FILTER_PHASE),
        F(CommonSEGD::ChannelSetHeader, PHYSICAL_UNIT),
        F(CommonSEGD::ChannelSetHeader, FILTER_DELAY),
        F(CommonSEGD::ChannelSetHeader, DESCRIPTION),
    }},
    {"BinaryHeader", {
        F(CommonSEGY::BinaryHeader, JOB_ID),
        F(CommonSEGY::BinaryHeader, LINE_NUM),
        F(CommonSEGY::BinaryHeader, REEL_NUM),
        F(CommonSEGY::BinaryHeader, TR_PER_ENS),
        F(CommonSEGY::BinaryHeader, AUX_PER_ENS),
        F(CommonSEGY::BinaryHeader, SAMP_INT),
        F(CommonSEGY::BinaryHeader, SAMP_INT_ORIG),
        F(CommonSEGY::BinaryHeader, SAMP_PER_TR),
        F(CommonSEGY::BinaryHeader, SAMP_PER_TR_ORIG),
        F(CommonSEGY::BinaryHeader, FORMAT_CODE),
        F(CommonSEGY::BinaryHeader, ENS_FOLD),
        F(CommonSEGY::BinaryHeader, SORT_CODE),
        F(CommonSEGY::BinaryHeader, VERT_SUM_CODE),
        F(CommonSEGY::BinaryHeader, SW_FREQ_AT_START),
        F(CommonSEGY::BinaryHeader, SW_FREQ_AT_END),
        F(CommonSEGY::BinaryHeader, SW_LENGTH),
        F(CommonSEGY::BinaryHeader, SW_TYPE_CODE),
        F(CommonSEGY::BinaryHeader, SW_CH_TR_NUM),
        F(CommonSEGY::BinaryHeader, TAPER_AT_START),
        F(CommonSEGY::BinaryHeader, TAPER_AT_END),
        F(CommonSEGY::BinaryHeader, TAPER_TYPE),
        F(CommonSEGY::BinaryHeader, CORR_TRACES),
        F(CommonSEGY::BinaryHeader, BIN_GAIN_RECOV),
        F(CommonSEGY::BinaryHeader, AMP_RECOV_METH),
        F(CommonSEGY::BinaryHeader, MEASURE_SYSTEM),
        F(CommonSEGY::BinaryHeader, IMPULSE_SIG_POL),
        F(CommonSEGY::BinaryHeader, VIB_POL_CODE),
        F(CommonSEGY::BinaryHeader, EXT_TR_PER_ENS),
        F(CommonSEGY::BinaryHeader, EXT_AUX_PER_ENS),
        F(CommonSEGY::BinaryHeader, EXT_SAMP_PER_TR),
        F(CommonSEGY::BinaryHeader, EXT_SAMP_INT),
        F(CommonSEGY::BinaryHeader, EXT_SAMP_INT_ORIG),
        F(CommonSEGY::BinaryHeader, EXT_SAMP_PER_TR_ORIG),
        F(CommonSEGY::BinaryHeader, EXT_ENS_FOLD),
        F(CommonSEGY::BinaryHeader, ENDIANNESS),
        F(CommonSEGY::BinaryHeader, SEGY_REV_MAJOR_VER),
        F(CommonSEGY::BinaryHeader, SEGY_REV_MINOR_VER),
        F(CommonSEGY::BinaryHeader, FIXED_TR_LENGTH),
        F(CommonSEGY::BinaryHeader, EXT_TEXT_HEADERS_NUM),
        F(CommonSEGY::BinaryHeader, MAX_NUM_ADD_TR_HEADERS),
        F(CommonSEGY::BinaryHeader, TIME_BASIS_CODE),
        F(CommonSEGY::BinaryHeader, NUM_OF_TR_IN_FILE),
        F(CommonSEGY::BinaryHeader, BYTE_OFF_OF_FIRST_TR),
        F(CommonSEGY::BinaryHeader, NUM_OF_TRAILER_STANZA),
    }},
