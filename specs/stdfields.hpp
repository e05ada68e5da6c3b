// Trace header field types and the fields the SEG-Y standard defines.
#pragma once
#include "segy.hpp"
namespace sg {
struct TypeInfo {
    VT t;
    int n;
    char kind; // i signed, u unsigned, b ibm, s single, d double
};
static TypeInfo const types[] = { { VT::int8_t, 1, 'i' }, { VT::uint8_t, 1, 'u' }, { VT::int16_t, 2, 'i' },
    { VT::uint16_t, 2, 'u' }, { VT::int24_t, 3, 'i' }, { VT::uint24_t, 3, 'u' }, { VT::int32_t, 4, 'i' },
    { VT::uint32_t, 4, 'u' }, { VT::int64_t, 8, 'i' }, { VT::uint64_t, 8, 'u' }, { VT::ibm, 4, 'b' },
    { VT::ieee_single, 4, 's' }, { VT::ieee_double, 8, 'd' } };

struct Std {
    char const* name;
    unsigned off;
    int type;
};
static Std const std0[] = {
    { "TRC_SEQ_LINE", 0, 6 }, { "TRC_SEQ_SGY", 4, 6 }, { "FFID", 8, 6 }, { "CHAN", 12, 6 }, { "ESP", 16, 6 },
    { "ENS_NO", 20, 6 }, { "SEQ_NO", 24, 6 }, { "TRACE_ID", 28, 2 }, { "VERT_SUM", 30, 2 }, { "HOR_SUM", 32, 2 },
    { "DATA_USE", 34, 2 }, { "OFFSET", 36, 6 }, { "R_ELEV", 40, 6 }, { "S_ELEV", 44, 6 }, { "S_DEPTH", 48, 6 },
    { "R_DATUM", 52, 6 }, { "S_DATUM", 56, 6 }, { "S_WATER", 60, 6 }, { "R_WATER", 64, 6 }, { "ELEV_SCALAR", 68, 2 },
    { "COORD_SCALAR", 70, 2 }, { "SOU_X", 72, 6 }, { "SOU_Y", 76, 6 }, { "REC_X", 80, 6 }, { "REC_Y", 84, 6 },
    { "COORD_UNITS", 88, 2 }, { "WEATH_VEL", 90, 2 }, { "SUBWEATH_VEL", 92, 2 }, { "S_UPHOLE", 94, 2 },
    { "R_UPHOLE", 96, 2 }, { "S_STAT", 98, 2 }, { "R_STAT", 100, 2 }, { "TOT_STAT", 102, 2 }, { "LAG_A", 104, 2 },
    { "LAG_B", 106, 2 }, { "DELAY_TIME", 108, 2 }, { "MUTE_START", 110, 2 }, { "MUTE_END", 112, 2 },
    { "SAMP_NUM", 114, 2 }, { "SAMP_INT", 116, 2 }, { "GAIN_TYPE", 118, 2 }, { "GAIN_CONST", 120, 2 },
    { "INIT_GAIN", 122, 2 }, { "CORRELATED", 124, 2 }, { "SW_START", 126, 2 }, { "SW_END", 128, 2 },
    { "SW_LENGTH", 130, 2 }, { "SW_TYPE", 132, 2 }, { "SW_TAPER_START", 134, 2 }, { "SW_TAPER_END", 136, 2 },
    { "TAPER_TYPE", 138, 2 }, { "ALIAS_FILT_FREQ", 140, 2 }, { "ALIAS_FILT_SLOPE", 142, 2 },
    { "NOTCH_FILT_FREQ", 144, 2 }, { "NOTCH_FILT_SLOPE", 146, 2 }, { "LOW_CUT_FREQ", 148, 2 },
    { "HIGH_CUT_FREQ", 150, 2 }, { "LOW_CUT_SLOPE", 152, 2 }, { "HIGH_CUT_SLOPE", 154, 2 }, { "YEAR", 156, 2 },
    { "DAY", 158, 2 }, { "HOUR", 160, 2 }, { "MINUTE", 162, 2 }, { "SECOND", 164, 2 }, { "TIME_BASIS_CODE", 166, 2 },
    { "TRACE_WEIGHT", 168, 2 }, { "GROUP_NUM_ROLL", 170, 2 }, { "GROUP_NUM_FIRST", 172, 2 },
    { "GROUP_NUM_LAST", 174, 2 }, { "GAP_SIZE", 176, 2 }, { "OVER_TRAVEL", 178, 2 }, { "CDP_X", 180, 6 },
    { "CDP_Y", 184, 6 }, { "INLINE", 188, 6 }, { "XLINE", 192, 6 }, { "SP_NUM", 196, 6 }, { "SP_NUM_SCALAR", 200, 2 },
    { "TR_VAL_UNIT", 202, 2 }, { "TRANS_CONST_MANT", 204, 6 }, { "TRANS_CONST_EXP", 208, 2 }, { "TRANS_UNITS", 210, 2 },
    { "DEVICE_ID", 212, 2 }, { "TIME_SCALAR", 214, 2 }, { "SOURCE_TYPE", 216, 2 }, { "SOU_V_DIR", 218, 2 },
    { "SOU_X_DIR", 220, 2 }, { "SOU_I_DIR", 222, 2 }, { "SOURCE_MEASUREMENT_MANT", 224, 6 },
    { "SOURCE_MEASUREMENT_EXP", 228, 2 }, { "SOU_MEAS_UNIT", 230, 2 } };
static Std const std1[] = {
    { "TRC_SEQ_LINE", 0, 9 }, { "TRC_SEQ_SGY", 8, 9 }, { "FFID", 16, 9 }, { "ENS_NO", 24, 9 }, { "R_ELEV", 32, 12 },
    { "R_DEPTH", 40, 12 }, { "S_ELEV", 48, 12 }, { "S_DEPTH", 56, 12 }, { "R_DATUM", 64, 12 }, { "S_DATUM", 72, 12 },
    { "S_WATER", 80, 12 }, { "R_WATER", 88, 12 }, { "SOU_X", 96, 12 }, { "SOU_Y", 104, 12 }, { "REC_X", 112, 12 },
    { "REC_Y", 120, 12 }, { "OFFSET", 128, 12 }, { "SAMP_NUM", 136, 6 }, { "NANOSECOND", 140, 6 }, { "SAMP_INT", 144, 12 },
    { "CABLE_NUM", 152, 6 }, { "ADD_TRC_HDR_NUM", 156, 2 }, { "LAST_TRC_FLAG", 158, 2 }, { "CDP_X", 160, 12 },
    { "CDP_Y", 168, 12 } };
} // namespace sg
