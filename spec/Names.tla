------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Descriptions of the fields of headers.  The tables hold the words of a  *)
(* description of every field; a text describes the field whose words it   *)
(* is closest to, so that the wording may change as long as it is about    *)
(* the same field.                                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Table ==
  "GeneralHeader" :> (
    "FILE_NUMBER" :> {"file", "number"} @@
    "FORMAT_CODE" :> {"code", "format"} @@
    "GENERAL_CONSTANTS" :> {"constants", "general"} @@
    "YEAR" :> {"digits", "last", "of", "two", "year"} @@
    "GENERAL_HEADER_BLOCKS" :> {"additional", "blocks", "general", "header", "in", "number", "of"} @@
    "DAY" :> {"day", "julian"} @@
    "HOUR" :> {"day", "greenwich", "hour", "mean", "of", "time"} @@
    "MINUTE" :> {"hour", "minute", "of"} @@
    "SECOND" :> {"minute", "of", "second"} @@
    "MANUFACTURERS_CODE" :> {"code", "manufacturer", "s"} @@
    "MANUFACTURERS_NUMBER" :> {"manufacturer", "number", "s", "serial"} @@
    "BYTES_PER_SCAN" :> {"are", "bytes", "formats", "in", "multiplexed", "per", "scan", "the", "utilized"} @@
    "BASE_SCAN_INTERVAL" :> {"base", "interval", "scan"} @@
    "POLARITY" :> {"polarity"} @@
    "SCANS_PER_BLOCK" :> {"a", "block", "data", "for", "in", "is", "it", "multiplexed", "number", "of", "only", "scans", "valid"} @@
    "RECORD_TYPE" :> {"record", "type"} @@
    "RECORD_LENGTH" :> {"from", "length", "record", "time", "zero"} @@
    "SCAN_TYPES_PER_RECORD" :> {"per", "record", "scan", "types"} @@
    "CHANNEL_SETS_PER_SCAN_TYPE" :> {"channel", "number", "of", "per", "scan", "sets", "type"} @@
    "SKEW_BLOCKS" :> {"32", "added", "byte", "each", "end", "fields", "header", "number", "of", "scan", "the", "to", "type"} @@
    "EXTENDED_HEADER_BLOCKS" :> {"extended", "header", "length"} @@
    "EXTERNAL_HEADER_BLOCKS" :> {"external", "header", "length"}) @@
  "GeneralHeader2" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "EXT_CH_SETS_PER_SCAN_TYPE" :> {"channel", "extended", "per", "scan", "sets", "types"} @@
    "EXTEDNDED_HEADER_BLOCKS" :> {"blocks", "extended", "header"} @@
    "EXTERNAL_HEADER_BLOCKS" :> {"blocks", "external", "header"} @@
    "EXTENDED_SKEW_BLOCKS" :> {"blocks", "extended", "skew"} @@
    "SEGD_REVISION_MAJOR" :> {"d", "major", "number", "revision", "seg"} @@
    "SEGD_REVISION_MINOR" :> {"d", "minor", "number", "revision", "seg"} @@
    "GEN_TRAILER_NUMBER_OF_BLOCKS" :> {"32", "be", "blocks", "byte", "general", "number", "of", "the", "to", "trailers", "used"} @@
    "EXTENDED_RECORD_LENGTH" :> {"extended", "length", "record"} @@
    "RECORD_SET_NUMBER" :> {"number", "record", "set"} @@
    "EXT_NUM_ADD_BLKS_IN_GEN_HDR" :> {"additional", "blocks", "extended", "general", "header", "in", "number", "of", "the"} @@
    "DOMINANT_SAMPLING_INT" :> {"dominant", "interval", "sampling"} @@
    "GEN_HEADER_BLOCK_NUM" :> {"block", "general", "header", "number"}) @@
  "GeneralHeaderN" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "PHASE_CONTROL" :> {"control", "phase"} @@
    "TYPE_VIBRATOR" :> {"type", "vibrator"} @@
    "PHASE_ANGLE" :> {"angle", "phase"} @@
    "GEN_HEADER_BLOCK_NUM" :> {"block", "general", "header", "number"} @@
    "SOURCE_SET_NUMBER" :> {"number", "set", "source"}) @@
  "GeneralHeader3" :> (
    "TIME_ZERO" :> {"for", "record", "this", "time", "zero"} @@
    "RECORD_SIZE" :> {"bytes", "d", "in", "of", "record", "seg", "size", "the", "total"} @@
    "DATA_SIZE" :> {"and", "bytes", "data", "headers", "in", "of", "record", "size", "the", "this", "total"} @@
    "HEADER_SIZE" :> {"bytes", "headers", "in", "of", "record", "size", "the", "this", "total"} @@
    "EXTD_REC_MODE" :> {"0", "1", "extended", "for", "mode", "normal", "record", "recording"} @@
    "REL_TIME_MODE" :> {"1", "absolute", "contain", "does", "if", "not", "record", "this", "timestamps"} @@
    "GEN_HEADER_BLOCK_NUM" :> {"block", "general", "header", "number"}) @@
  "GeneralHeaderVes" :> (
    "ABBR_VESSEL_OR_CREW_NAME" :> {"abbreviated", "crew", "name", "or", "vessel"} @@
    "VESSEL_OR_CREW_NAME" :> {"crew", "name", "or", "vessel"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderSur" :> (
    "SURVEY_ARE_NAME" :> {"area", "name", "survey"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderCli" :> (
    "CLIENT_NAME" :> {"area", "client", "name"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderJob" :> (
    "ABBR_JOB_ID" :> {"abbr", "identification", "job"} @@
    "JOB_ID" :> {"identification", "job"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderLin" :> (
    "LINE_ABBR" :> {"abbreviation", "line"} @@
    "LINE_ID" :> {"identification", "line"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderVib" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "PHASE_CONTROL" :> {"control", "phase"} @@
    "TYPE_VIBRATOR" :> {"type", "vibrator"} @@
    "PHASE_ANGLE" :> {"angle", "phase"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderExp" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "DEPTH" :> {"depth"} @@
    "CHARGE_LENGTH" :> {"charge", "length"} @@
    "SOIL_TYPE" :> {"soil", "type"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderAir" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "DEPTH" :> {"depth"} @@
    "AIR_PRESSURE" :> {"air", "pressure"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderWat" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "DEPTH" :> {"depth"} @@
    "AIR_PRESSURE" :> {"air", "pressure"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderEle" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "SOURCE_TYPE" :> {"source", "type"} @@
    "MOMENT" :> {"moment"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderOth" :> (
    "EXPANDED_FILE_NUMBER" :> {"expanded", "file", "number"} @@
    "SOURCE_LINE_NUMBER" :> {"line", "number", "source"} @@
    "SOURCE_POINT_NUMBER" :> {"number", "point", "source"} @@
    "SOURCE_POINT_INDEX" :> {"index", "point", "source"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_SET_NUM" :> {"no", "set", "source"} @@
    "RESHOOT_INDEX" :> {"index", "re", "shoot"} @@
    "GROUP_INDEX" :> {"group", "index"} @@
    "DEPTH_INDEX" :> {"depth", "index"} @@
    "OFFSET_CROSSLINE" :> {"cross", "line", "offset"} @@
    "OFFSET_INLINE" :> {"in", "line", "offset"} @@
    "SIZE" :> {"size"} @@
    "OFFSET_DEPTH" :> {"depth", "offset"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderAdd" :> (
    "TIME" :> {"time"} @@
    "SOURCCE_STATUS" :> {"source", "status"} @@
    "SOURCE_ID" :> {"id", "source"} @@
    "SOURCE_MOVING" :> {"moving", "source"} @@
    "ERROR_DESCRIPTION" :> {"description", "error"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderSaux" :> (
    "SOURCE_ID" :> {"id", "source"} @@
    "SCAN_TYPE_NUM_1" :> {"1", "number", "scan", "type"} @@
    "CH_SET_NUM_1" :> {"1", "channel", "number", "set"} @@
    "TRACE_NUM_1" :> {"1", "number", "trace"} @@
    "SCAN_TYPE_NUM_2" :> {"2", "number", "scan", "type"} @@
    "CH_SET_NUM_2" :> {"2", "channel", "number", "set"} @@
    "TRACE_NUM_2" :> {"2", "number", "trace"} @@
    "SCAN_TYPE_NUM_3" :> {"3", "number", "scan", "type"} @@
    "CH_SET_NUM_3" :> {"3", "channel", "number", "set"} @@
    "TRACE_NUM_3" :> {"3", "number", "trace"} @@
    "SCAN_TYPE_NUM_4" :> {"4", "number", "scan", "type"} @@
    "CH_SET_NUM_4" :> {"4", "channel", "number", "set"} @@
    "TRACE_NUM_4" :> {"4", "number", "trace"} @@
    "SCAN_TYPE_NUM_5" :> {"5", "number", "scan", "type"} @@
    "CH_SET_NUM_5" :> {"5", "channel", "number", "set"} @@
    "TRACE_NUM_5" :> {"5", "number", "trace"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderCoord" :> (
    "COORD_REF_SYS" :> {"coordinate", "crs", "identification", "reference", "system"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderPos1" :> (
    "TIME_OF_POSITION" :> {"of", "position", "time"} @@
    "TIME_OF_MEASUREMENT" :> {"calculation", "measurement", "of", "time"} @@
    "VERTICAL_ERROR" :> {"error", "vertical"} @@
    "HOR_ERR_SEMI_MAJOR" :> {"dimension", "ellipse", "error", "horizontal", "major", "semi"} @@
    "HOR_ERR_SEMI_MINOR" :> {"dimension", "ellipse", "error", "horizontal", "minor", "semi"} @@
    "HOR_ERR_ORIENTATION" :> {"ellipse", "error", "horizontal", "orientation"} @@
    "POSITION_TYPE" :> {"position", "type"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderPos2" :> (
    "CRS_A_COORD1" :> {"1", "a", "coord", "crs", "tuple"} @@
    "CRS_A_COORD2" :> {"1", "2", "a", "coord", "crs", "tuple"} @@
    "CRS_A_COORD3" :> {"1", "3", "a", "coord", "crs", "tuple"} @@
    "CRS_A_CRSREF" :> {"1", "a", "crs", "crsref", "id", "stanza"} @@
    "POS1_VALID" :> {"1", "position", "valid"} @@
    "POS1_QUALITY" :> {"1", "position", "quality"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderPos3" :> (
    "CRS_B_COORD1" :> {"1", "2", "b", "coord", "crs", "tuple"} @@
    "CRS_B_COORD2" :> {"2", "b", "coord", "crs", "tuple"} @@
    "CRS_B_COORD3" :> {"2", "3", "b", "coord", "crs", "tuple"} @@
    "CRS_B_CRSREF" :> {"1", "b", "crs", "crsref", "id", "stanza"} @@
    "POS2_VALID" :> {"2", "position", "valid"} @@
    "POS2_QUALITY" :> {"2", "position", "quality"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderRel" :> (
    "OFFSET_EAST" :> {"easting", "offset"} @@
    "OFFSET_NORTH" :> {"northing", "offset"} @@
    "OFFSET_VERT" :> {"offset", "vertical"} @@
    "DESCRIPTION" :> {"description"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderSen" :> (
    "INSTRUMENT_TEST_TIME" :> {"instrument", "test", "time"} @@
    "SENSOR_SENSITIVITY" :> {"sensitivity", "sensor"} @@
    "INSTR_TEST_RESULT" :> {"instr", "result", "test"} @@
    "SERIAL_NUMBER" :> {"number", "serial"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderSCa" :> (
    "FREQUENCY_1" :> {"1", "frequency"} @@
    "AMPLITUDE_1" :> {"1", "amplitude"} @@
    "PHASE_1" :> {"1", "phase"} @@
    "FREQUENCY_2" :> {"2", "frequency"} @@
    "AMPLITUDE_2" :> {"2", "amplitude"} @@
    "PHASE_2" :> {"2", "phase"} @@
    "ALIBRATION_APPLIED" :> {"applied", "calibration"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderTim" :> (
    "TIME_OF_DEPLOYMENT" :> {"deployment", "of", "time"} @@
    "TIME_OF_RETRIEVAL" :> {"of", "retrieval", "time"} @@
    "TIMER_OFFSET_DEPLOYMENT" :> {"deployment", "offset", "timer"} @@
    "TIME_OFFSET_RETRIEVAL" :> {"offset", "retrieval", "time"} @@
    "TIMEDRIFT_CORRECTED" :> {"corrected", "timedrift"} @@
    "CORRECTION_METHOD" :> {"correction", "method"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderElSR" :> (
    "EQUIPMENT_DIMENTION_X" :> {"dimension", "equipment", "x"} @@
    "EQUIPMENT_DIMENTION_Y" :> {"dimension", "equipment", "y"} @@
    "EQUIPMENT_DIMENTION_Z" :> {"dimension", "equipment", "z"} @@
    "POSITIVE_TERMINAL" :> {"positive", "terminal"} @@
    "EQUIPMENT_OFFSET_X" :> {"equipment", "offset", "x"} @@
    "EQUIPMENT_OFFSET_Y" :> {"equipment", "offset", "y"} @@
    "EQUIPMENT_OFFSET_Z" :> {"equipment", "offset", "z"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderOri" :> (
    "ROTATION_X_AXIS" :> {"axis", "rotation", "x"} @@
    "ROTATION_Y_AXIS" :> {"axis", "rotation", "y"} @@
    "ROTATION_Z_AXIS" :> {"axis", "rotation", "z"} @@
    "REFERENCE_ORIENT" :> {"orientation", "reference"} @@
    "TIME_STAMP" :> {"stamp", "time"} @@
    "ORIENT_TYPE" :> {"orientation", "type"} @@
    "REF_ORIENT_VALID" :> {"orient", "ref", "valid"} @@
    "ROTATION_APPLIED" :> {"applied", "rotation"} @@
    "ROT_NORTH" :> {"north", "rot"} @@
    "APPLIED" :> {"applied", "north", "rot"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "GeneralHeaderMeas" :> (
    "TIMESTAMP" :> {"timestamp"} @@
    "MEASUREMENT_VALUE" :> {"measurement", "value"} @@
    "MAXIMUM_VALUE" :> {"maximum", "value"} @@
    "MINIMUM_VALUE" :> {"minimum", "value"} @@
    "QUANTITY_CLASS" :> {"class", "quantity"} @@
    "UNIT_OF_MEASURE" :> {"measure", "of", "unit"} @@
    "MEASUREMENT_DESCRIPTION" :> {"description", "measurement"} @@
    "GEN_HEADER_TYPE" :> {"general", "header", "type"}) @@
  "ChannelSetHeader" :> (
    "SCAN_TYPE_NUMBER" :> {"number", "scan", "type"} @@
    "CHANNEL_SET_NUMBER" :> {"channel", "number", "set"} @@
    "CHANNEL_TYPE" :> {"channel", "type"} @@
    "CHANNEL_SET_START_TIME" :> {"channel", "set", "start", "time"} @@
    "CHANNEL_SET_END_TIME" :> {"channel", "end", "set", "time"} @@
    "DESCALE_MULTIPLIER" :> {"descale", "multiplier"} @@
    "NUMBER_OF_CHANNELS" :> {"channels", "number", "of"} @@
    "SUBSCANS_PER_CH_SET" :> {"channel", "per", "set", "subscans"} @@
    "CHANNEL_GAIN" :> {"channel", "gain"} @@
    "ALIAS_FILTER_FREQ" :> {"alias", "filter", "frequency"} @@
    "ALIAS_FILTER_SLOPE" :> {"alias", "filter", "slope"} @@
    "LOW_CUT_FILTER_FREQ" :> {"cut", "filter", "frequency", "low"} @@
    "LOW_CUT_FILTER_SLOPE" :> {"cut", "filter", "low", "slope"} @@
    "FIRST_NOTCH_FILTER" :> {"filter", "first", "notch"} @@
    "SECOND_NOTCH_FILTER" :> {"filter", "notch", "second"} @@
    "THIRD_NOTCH_FILTER" :> {"filter", "notch", "third"} @@
    "EXT_CH_SET_NUM" :> {"channel", "extended", "number", "set"} @@
    "EXT_HDR_FLAG" :> {"extended", "flag", "header"} @@
    "TRC_HDR_EXT" :> {"extension", "header", "trace"} @@
    "VERT_STACK" :> {"stack", "vertical"} @@
    "STREAMER_NO" :> {"no", "streamer"} @@
    "ARRAY_FORMING" :> {"array", "forming"} @@
    "NUMBER_OF_SAMPLES" :> {"number", "of", "samples"} @@
    "SAMPLE_INTERVAL" :> {"interval", "sample"} @@
    "FILTER_PHASE" :> {"filter", "phase"} @@
    "PHYSICAL_UNIT" :> {"physical", "unit"} @@
    "FILTER_DELAY" :> {"delay", "filter"} @@
    "DESCRIPTION" :> {"description"}) @@
  "BinaryHeader" :> (
    "JOB_ID" :> {"identification", "job", "number"} @@
    "LINE_NUM" :> {"line", "number"} @@
    "REEL_NUM" :> {"number", "reel"} @@
    "TR_PER_ENS" :> {"data", "ensemble", "number", "of", "per", "traces"} @@
    "AUX_PER_ENS" :> {"auxiliary", "ensemble", "number", "of", "per", "traces"} @@
    "SAMP_INT" :> {"interval", "sample"} @@
    "SAMP_INT_ORIG" :> {"field", "interval", "of", "original", "recording", "sample"} @@
    "SAMP_PER_TR" :> {"data", "number", "of", "per", "samples", "trace"} @@
    "SAMP_PER_TR_ORIG" :> {"data", "field", "number", "of", "original", "per", "recording", "samples", "trace"} @@
    "FORMAT_CODE" :> {"code", "data", "format", "sample"} @@
    "ENS_FOLD" :> {"ensemble", "fold"} @@
    "SORT_CODE" :> {"code", "sorting", "trace"} @@
    "VERT_SUM_CODE" :> {"code", "sum", "vertical"} @@
    "SW_FREQ_AT_START" :> {"at", "frequency", "hz", "start", "sweep"} @@
    "SW_FREQ_AT_END" :> {"at", "end", "frequency", "hz", "sweep"} @@
    "SW_LENGTH" :> {"length", "ms", "sweep"} @@
    "SW_TYPE_CODE" :> {"code", "sweep", "type"} @@
    "SW_CH_TR_NUM" :> {"channel", "number", "of", "sweep", "trace"} @@
    "TAPER_AT_START" :> {"at", "if", "in", "length", "ms", "start", "sweep", "taper", "tapered", "trace"} @@
    "TAPER_AT_END" :> {"at", "end", "in", "length", "ms", "sweep", "taper", "trace"} @@
    "TAPER_TYPE" :> {"taper", "type"} @@
    "CORR_TRACES" :> {"correlated", "data", "traces"} @@
    "BIN_GAIN_RECOV" :> {"binary", "gain", "recovered"} @@
    "AMP_RECOV_METH" :> {"amplitude", "method", "recovery"} @@
    "MEASURE_SYSTEM" :> {"measure", "system"} @@
    "IMPULSE_SIG_POL" :> {"impulse", "polarity", "signal"} @@
    "VIB_POL_CODE" :> {"code", "polarity", "vibratory"} @@
    "EXT_TR_PER_ENS" :> {"data", "ensemble", "extended", "number", "of", "per", "traces"} @@
    "EXT_AUX_PER_ENS" :> {"auxiliary", "ensemble", "extended", "number", "of", "per", "traces"} @@
    "EXT_SAMP_PER_TR" :> {"data", "extended", "number", "of", "per", "samples", "trace"} @@
    "EXT_SAMP_INT" :> {"extended", "interval", "sample"} @@
    "EXT_SAMP_INT_ORIG" :> {"extended", "field", "interval", "of", "original", "recording", "sample"} @@
    "EXT_SAMP_PER_TR_ORIG" :> {"data", "extended", "in", "number", "of", "original", "per", "recording", "samples", "trace"} @@
    "EXT_ENS_FOLD" :> {"ensemble", "extended", "fold"} @@
    "ENDIANNESS" :> {"byte", "constant", "detect", "integer", "ordering", "the", "to", "used"} @@
    "SEGY_REV_MAJOR_VER" :> {"format", "major", "number", "revision", "seg", "y"} @@
    "SEGY_REV_MINOR_VER" :> {"format", "minor", "number", "revision", "seg", "y"} @@
    "FIXED_TR_LENGTH" :> {"fixed", "flag", "length", "trace"} @@
    "EXT_TEXT_HEADERS_NUM" :> {"extended", "file", "header", "number", "of", "records", "textual"} @@
    "MAX_NUM_ADD_TR_HEADERS" :> {"additional", "headers", "maximum", "number", "of", "trace"} @@
    "TIME_BASIS_CODE" :> {"basis", "code", "time"} @@
    "NUM_OF_TR_IN_FILE" :> {"file", "in", "number", "of", "this", "traces"} @@
    "BYTE_OFF_OF_FIRST_TR" :> {"byte", "file", "first", "of", "offset", "relative", "start", "to", "traces"} @@
    "NUM_OF_TRAILER_STANZA" :> {"data", "number", "of", "records", "stanza", "trailer"}) @@
  "trace" :> (
    "TRC_SEQ_LINE" :> {"line", "number", "sequence", "trace", "within"} @@
    "TRC_SEQ_SGY" :> {"file", "number", "segy", "sequence", "trace", "within"} @@
    "FFID" :> {"field", "number", "original", "record"} @@
    "CHAN" :> {"field", "number", "original", "record", "the", "trace", "within"} @@
    "ESP" :> {"at", "effective", "energy", "location", "more", "number", "occures", "one", "point", "record", "same", "source", "surface", "than", "the", "used", "when"} @@
    "ENS_NO" :> {"cdp", "cmp", "crp", "e", "ensemble", "etc", "i", "number"} @@
    "SEQ_NO" :> {"ensemble", "number", "the", "trace", "within"} @@
    "TRACE_ID" :> {"code", "identification", "trace"} @@
    "VERT_SUM" :> {"number", "of", "summed", "this", "trace", "traces", "vertically", "yielding"} @@
    "HOR_SUM" :> {"horizontally", "number", "of", "stacked", "this", "trace", "traces", "yielding"} @@
    "DATA_USE" :> {"1", "2", "data", "production", "test", "use"} @@
    "OFFSET" :> {"center", "distance", "from", "group", "of", "point", "receiver", "source", "the", "to"} @@
    "R_ELEV" :> {"elevation", "group", "of", "receiver"} @@
    "S_ELEV" :> {"at", "elevation", "location", "source", "surface"} @@
    "S_DEPTH" :> {"below", "depth", "source", "surface"} @@
    "R_DATUM" :> {"at", "datum", "elevation", "group", "receiver", "seismic"} @@
    "S_DATUM" :> {"at", "datum", "elevation", "seismic", "source"} @@
    "S_WATER" :> {"at", "column", "height", "location", "source", "water"} @@
    "R_WATER" :> {"at", "column", "group", "height", "location", "reseiver", "water"} @@
    "ELEV_SCALAR" :> {"all", "and", "aplied", "be", "depths", "elevations", "scalar", "to"} @@
    "COORD_SCALAR" :> {"all", "applied", "be", "coordinates", "scalar", "to"} @@
    "SOU_X" :> {"coordinate", "source", "x"} @@
    "SOU_Y" :> {"coordinate", "source", "y"} @@
    "REC_X" :> {"coordinate", "group", "x"} @@
    "REC_Y" :> {"coordinate", "group", "y"} @@
    "COORD_UNITS" :> {"1", "3", "4", "coordinate", "decimal", "degrees", "dms", "length", "units"} @@
    "WEATH_VEL" :> {"velocity", "weathering"} @@
    "SUBWEATH_VEL" :> {"subweathering", "velocity"} @@
    "S_UPHOLE" :> {"at", "in", "milliseconds", "source", "time", "uphole"} @@
    "R_UPHOLE" :> {"at", "group", "in", "milliseconds", "time", "uphole"} @@
    "S_STAT" :> {"correction", "in", "milliseconds", "source", "static"} @@
    "R_STAT" :> {"correction", "in", "milliseconds", "receiver", "static"} @@
    "TOT_STAT" :> {"applied", "in", "milliseconds", "static", "total"} @@
    "LAG_A" :> {"a", "and", "between", "break", "end", "header", "in", "lag", "ms", "of", "time", "trace"} @@
    "LAG_B" :> {"and", "b", "between", "break", "in", "initiation", "lag", "ms", "of", "source", "time"} @@
    "DELAY_TIME" :> {"andstart", "between", "delay", "in", "initiation", "ms", "of", "recording", "source", "time"} @@
    "MUTE_START" :> {"in", "milliseconds", "mute", "start", "time"} @@
    "MUTE_END" :> {"end", "in", "milliseconds", "mute", "time"} @@
    "SAMP_NUM" :> {"in", "number", "of", "samples", "this", "trace"} @@
    "SAMP_INT" :> {"for", "interval", "sample", "this", "trace"} @@
    "GAIN_TYPE" :> {"1", "2", "3", "binary", "field", "fixed", "floating", "gain", "instruments", "of", "point", "type"} @@
    "GAIN_CONST" :> {"constant", "db", "gain", "instrument"} @@
    "INIT_GAIN" :> {"db", "early", "gain", "initial", "instrument", "or"} @@
    "CORRELATED" :> {"1", "2", "correlated", "no", "yes"} @@
    "SW_START" :> {"at", "frequency", "hz", "start", "sweep"} @@
    "SW_END" :> {"at", "end", "frequency", "hz", "sweep"} @@
    "SW_LENGTH" :> {"in", "length", "milliseconds", "sweep"} @@
    "SW_TYPE" :> {"1", "2", "3", "exponential", "linear", "parabolic", "sweep", "type"} @@
    "SW_TAPER_START" :> {"at", "in", "length", "milliseconds", "start", "sweep", "taper", "trace"} @@
    "SW_TAPER_END" :> {"at", "end", "in", "length", "milliseconds", "sweep", "taper", "trace"} @@
    "TAPER_TYPE" :> {"1", "2", "3", "cos", "linear", "other", "taper", "type"} @@
    "ALIAS_FILT_FREQ" :> {"alias", "filter", "frequency", "hz", "if", "used"} @@
    "ALIAS_FILT_SLOPE" :> {"alias", "db", "filter", "octave", "slope"} @@
    "NOTCH_FILT_FREQ" :> {"filter", "frequency", "hz", "if", "notch", "used"} @@
    "NOTCH_FILT_SLOPE" :> {"db", "filter", "notch", "octave", "slope"} @@
    "LOW_CUT_FREQ" :> {"cut", "frequency", "hz", "if", "low", "used"} @@
    "HIGH_CUT_FREQ" :> {"cut", "frequency", "high", "hz", "if", "used"} @@
    "LOW_CUT_SLOPE" :> {"cut", "db", "low", "octave", "slope"} @@
    "HIGH_CUT_SLOPE" :> {"cut", "db", "high", "octave", "slope"} @@
    "YEAR" :> {"data", "recorded", "year"} @@
    "DAY" :> {"day", "of", "year"} @@
    "HOUR" :> {"day", "hour", "of"} @@
    "MINUTE" :> {"hour", "minute", "of"} @@
    "SECOND" :> {"minute", "of", "second"} @@
    "TIME_BASIS_CODE" :> {"1", "2", "4", "5", "basis", "code", "gmt", "gps", "local", "time", "utc"} @@
    "TRACE_WEIGHT" :> {"2", "as", "defined", "factor", "n", "trace", "weighting"} @@
    "GROUP_NUM_ROLL" :> {"geophone", "group", "number", "of", "one", "position", "roll", "switch"} @@
    "GROUP_NUM_FIRST" :> {"field", "geophone", "group", "number", "of", "one", "original", "record", "trace", "within"} @@
    "GROUP_NUM_LAST" :> {"field", "geophone", "group", "last", "number", "of", "original", "record", "trace", "within"} @@
    "GAP_SIZE" :> {"dropped", "gap", "groups", "number", "of", "size", "total"} @@
    "OVER_TRAVEL" :> {"associated", "at", "beginning", "end", "line", "of", "or", "over", "taper", "travel", "with"} @@
    "CDP_X" :> {"cdp", "coordinate", "ensemble", "of", "position", "x"} @@
    "CDP_Y" :> {"cdp", "coordinate", "ensemble", "of", "position", "y"} @@
    "INLINE" :> {"3d", "for", "in", "line", "number"} @@
    "XLINE" :> {"3d", "cross", "for", "line", "number"} @@
    "SP_NUM" :> {"cdp", "location", "nearest", "number", "refers", "shotpoint", "source", "the", "to"} @@
    "SP_NUM_SCALAR" :> {"applied", "be", "num", "scalar", "sp", "the", "to"} @@
    "TR_VAL_UNIT" :> {"1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "m", "measurement", "mv", "n", "pa", "s", "trace", "unit", "v", "value", "w"} @@
    "TRANS_UNITS" :> {"1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "m", "mv", "n", "pa", "s", "transduction", "units", "v", "w"} @@
    "DEVICE_ID" :> {"associated", "data", "device", "id", "identifier", "number", "of", "or", "the", "trace", "unit", "with"} @@
    "TIME_SCALAR" :> {"and", "applied", "be", "delay", "lags", "mutes", "scalar", "statics", "to", "upholes"} @@
    "SOURCE_TYPE" :> {"and", "defines", "energy", "of", "orientation", "source", "the", "type"} @@
    "SOU_V_DIR" :> {"direction", "energy", "orientation", "respect", "source", "to", "vertical", "with"} @@
    "SOU_X_DIR" :> {"cross", "direction", "energy", "line", "orientation", "respect", "source", "to", "with"} @@
    "SOU_I_DIR" :> {"direction", "energy", "in", "line", "orientation", "respect", "source", "to", "with"} @@
    "SOU_MEAS_UNIT" :> {"1", "2", "3", "4", "5", "6", "bar", "for", "j", "kg", "kw", "measurement", "n", "pa", "source", "the", "unit", "used"} @@
    "R_DEPTH" :> {"below", "depth", "group", "locacation", "of", "receiver", "surface", "the"} @@
    "CABLE_NUM" :> {"acquisition", "cable", "device", "for", "id", "multi", "number", "or", "recording", "sensor"} @@
    "ADD_TRC_HDR_NUM" :> {"additional", "blocks", "extension", "header", "including", "number", "of", "one", "this", "trace"} @@
    "LAST_TRC_FLAG" :> {"1", "2", "4", "8", "ensemble", "file", "flag", "in", "last", "line", "survey", "trace"} @@
    "NANOSECOND" :> {"add", "minute", "nanoseconds", "of", "second", "to"} @@
    "TRANS_CONST_MANT" :> {"constant", "mantissa", "of", "samples", "the", "to", "trace", "transduction", "transforms", "units"} @@
    "TRANS_CONST_EXP" :> {"10", "constant", "exponent", "of", "power", "transduction"} @@
    "SOURCE_MEASUREMENT_MANT" :> {"describes", "effort", "generate", "mantissa", "measurement", "of", "source", "the", "to", "trace", "used"} @@
    "SOURCE_MEASUREMENT_EXP" :> {"10", "exponent", "measurement", "of", "power", "source"})

(* a and b have more in common than a and c: common words to all words *)
Closer(a, b, c) ==
    Cardinality(a \cap b) * Cardinality(a \cup c)
        > Cardinality(a \cap c) * Cardinality(a \cup b)
Describes(s, field, ws) ==
    LET w == {ws[i] : i \in 1..Len(ws)} IN
    /\ w # {}
    /\ \A x \in DOMAIN Table[s] \ {field} :
          Closer(w, Table[s][field], Table[s][x])

ASSUME \A s \in DOMAIN Table : \A x, y \in DOMAIN Table[s] :
          x # y => Table[s][x] # Table[s][y]
=============================================================================
