// reading SEG-D: general headers, channel set headers
#include "segd.hpp"
using namespace sd;

static void gh1(ISEGD& s, Lay const& l)
{
    CommonSEGD::GeneralHeader g = s.general_header();
    int64_t h = l.h;
    char const* m = "general header 1 is reported as stored";
    vf_assert(uint64_t(g.file_number) == bcd(h, 0, 0, 4), m);
    vf_assert(g.format_code == l.fmt, m);
    vf_assert(uint64_t(g.gen_const) == bcd(h, 4, 0, 12), m);
    vf_assert(uint64_t(g.year) == bcd(h, 10, 0, 2), m);
    vf_assert(uint64_t(g.add_gen_hdr_blocks) == nib(h, 11, 0), m);
    vf_assert(uint64_t(g.day) == bcd(h, 11, 1, 3), m);
    vf_assert(uint64_t(g.hour) == bcd(h, 13, 0, 2), m);
    vf_assert(uint64_t(g.minute) == bcd(h, 14, 0, 2), m);
    vf_assert(uint64_t(g.second) == bcd(h, 15, 0, 2), m);
    vf_assert(uint64_t(g.manufac_code) == bcd(h, 16, 0, 2), m);
    vf_assert(uint64_t(g.manufac_num) == bcd(h, 17, 0, 4), m);
    vf_assert(uint64_t(g.bytes_per_scan) == bcd(h, 19, 0, 6), m);
    vf_assert(g.base_scan_int == double(vf_fbyte(h, 22)) / 16.0, m);
    vf_assert(uint64_t(g.polarity) == nib(h, 23, 0), m);
    vf_assert(uint64_t(g.scans_per_block) == uint64_t(vf_fbyte(h, 24)) << nib(h, 23, 1), m);
    vf_assert(uint64_t(g.record_type) == nib(h, 25, 0), m);
    vf_assert(uint64_t(g.record_length) == bcd(h, 25, 1, 3), m);
    vf_assert(uint64_t(g.scan_types_per_record) == bcd(h, 27, 0, 2), m);
    vf_assert(uint64_t(g.channel_sets_per_scan_type) == bcd(h, 28, 0, 2), m);
    vf_assert(uint64_t(g.skew_blocks) == bcd(h, 29, 0, 2), m);
    vf_assert(uint64_t(g.extended_hdr_blocks) == bcd(h, 30, 0, 2), m);
    vf_assert(uint64_t(g.external_hdr_blocks) == bcd(h, 31, 0, 2), m);
}
static void gh2(ISEGD& s, Lay const& l)
{
    auto o = s.general_header2();
    vf_assert(bool(o) == (l.add != 0), "general header 2 is reported when the file has it");
    if (!o)
        return;
    int64_t h = l.h;
    char const* m = "general header 2 is reported as stored";
    vf_assert(o->expanded_file_num == be(h, 32, 3), m);
    vf_assert(o->ext_ch_sets_per_scan_type == be(h, 35, 2), m);
    vf_assert(o->segd_rev_major == vf_fbyte(h, 42), m);
    vf_assert(o->segd_rev_minor == vf_fbyte(h, 43), m);
    if (l.rev < 3) {
        vf_assert(o->extended_hdr_blocks == be(h, 37, 2), m);
        vf_assert(o->external_hdr_blocks == be(h, 39, 2), m);
        vf_assert(o->gen_trailer_num_of_blocks == be(h, 44, 2), m);
        vf_assert(o->ext_record_len == be(h, 46, 3), m);
        vf_assert(o->gen_hdr_block_num == vf_fbyte(h, 50), m);
        vf_assert(o->sequence_number == be(h, 52, 2), m);
    } else {
        vf_assert(o->extended_hdr_blocks == be(h, 37, 3), m);
        vf_assert(o->extended_skew_blocks == be(h, 40, 2), m);
        vf_assert(o->gen_trailer_num_of_blocks == be(h, 44, 4), m);
        vf_assert(o->ext_record_len == be(h, 48, 4), m);
        vf_assert(o->record_set_number == be(h, 52, 2), m);
        vf_assert(o->ext_num_add_blks_in_gen_hdr == be(h, 54, 2), m);
        vf_assert(o->dominant_sampling_int == be(h, 56, 3), m);
        vf_assert(o->external_hdr_blocks == be(h, 59, 3), m);
        vf_assert(o->gen_hdr_block_num == vf_fbyte(h, 63), m);
    }
}
static void gh3(ISEGD& s, Lay const& l)
{
    auto o = s.general_header3();
    vf_assert(bool(o) == (l.add != 0 && l.rev > 2), "general header 3 is reported when the file has it");
    if (!o)
        return;
    int64_t h = l.h;
    char const* m = "general header 3 is reported as stored";
    vf_assert(o->time_zero == be(h, 64, 8), m);
    vf_assert(o->record_size == be(h, 72, 8), m);
    vf_assert(o->data_size == be(h, 80, 8), m);
    vf_assert(o->header_size == be(h, 88, 4), m);
    vf_assert(o->extd_rec_mode == vf_fbyte(h, 92), m);
    vf_assert(o->rel_time_mode == vf_fbyte(h, 93), m);
    vf_assert(o->gen_hdr_block_num == vf_fbyte(h, 95), m);
}
static void ghn(ISEGD& s, Lay const& l, unsigned n)
{
    auto v = s.general_headerN();
    vf_assert(v.size() == n, "every further general header of revisions 1 and 2 is reported");
    int64_t h = l.h;
    char const* m = "a further general header is reported as stored";
    for (unsigned i = 0; i < n; ++i) {
        uint64_t at = 64 + 32 * i;
        CommonSEGD::GeneralHeaderN const& o = v[i];
        vf_assert(o.expanded_file_number == be(h, at, 3), m);
        vf_assert(o.sou_line_num == double(sx(be(h, at + 3, 3), 3) * 65536 + int64_t(be(h, at + 6, 2))) / 65536.0, m);
        vf_assert(o.sou_point_num == double(sx(be(h, at + 8, 3), 3) * 65536 + int64_t(be(h, at + 11, 2))) / 65536.0, m);
        vf_assert(o.sou_point_index == vf_fbyte(h, at + 13), m);
        vf_assert(o.phase_control == vf_fbyte(h, at + 14), m);
        vf_assert(o.type_vibrator == vf_fbyte(h, at + 15), m);
        vf_assert(o.phase_angle == sx(be(h, at + 16, 2), 2), m);
        vf_assert(o.gen_hdr_block_num == vf_fbyte(h, at + 18), m);
        vf_assert(o.sou_set_num == vf_fbyte(h, at + 19), m);
    }
}
static void blocks(std::vector<std::vector<char>> const& v, int64_t h, uint64_t at, unsigned n)
{
    vf_assert(v.size() == n, "every extended and external header block is reported");
    for (unsigned i = 0; i < n; ++i) {
        vf_assert(v[i].size() == 32, "header blocks are reported whole");
        for (unsigned k = 0; k < 32; ++k)
            vf_assert(uint8_t(v[i][k]) == vf_fbyte(h, at + 32 * i + k), "header blocks are reported as stored");
    }
}
static void chsets(ISEGD& s, Lay const& l)
{
    auto const& v = s.channel_set_headers();
    vf_assert(v.size() == l.st, "every scan type is reported");
    int64_t h = l.h;
    char const* m = "a channel set header is reported as stored";
    uint64_t all = 0;
    for (unsigned i = 0; i < l.st; ++i) {
        vf_assert(v[i].size() == l.cs, "every channel set is reported");
        for (unsigned j = 0; j < l.cs; ++j) {
            CommonSEGD::ChannelSetHeader o = v[i][j];
            uint64_t at = l.chset(i, j);
            vf_assert(uint64_t(o.scan_type_number) == bcd(h, at, 0, 2), m);
            if (l.chsize == 32) {
                vf_assert(o.channel_set_number == bcd(h, at + 1, 0, 2), m);
                vf_assert(o.channel_set_start_time == 2 * be(h, at + 2, 2), m);
                vf_assert(o.channel_set_end_time == 2 * be(h, at + 4, 2), m);
                int64_t mp = int64_t(be(h, at + 6, 2));
                vf_assert(o.descale_multiplier == double(mp & 0x8000 ? -(mp & 0x7fff) : mp) / 1024.0, m);
                vf_assert(o.number_of_channels == bcd(h, at + 8, 0, 4), m);
                all += bcd(h, at + 8, 0, 4);
                vf_assert(o.channel_type == nib(h, at + 10, 0), m);
                vf_assert(o.subscans_per_ch_set == 1 << nib(h, at + 11, 0), m);
                vf_assert(o.channel_gain == nib(h, at + 11, 1), m);
                vf_assert(o.alias_filter_freq == bcd(h, at + 12, 0, 4), m);
                vf_assert(o.alias_filter_slope == bcd(h, at + 14, 0, 4), m);
                vf_assert(o.low_cut_filter_freq == bcd(h, at + 16, 0, 4), m);
                vf_assert(o.low_cut_filter_slope == bcd(h, at + 18, 0, 4), m);
                vf_assert(o.first_notch_filter == bcd(h, at + 20, 0, 4), m);
                vf_assert(o.second_notch_filter == bcd(h, at + 22, 0, 4), m);
                vf_assert(o.third_notch_filter == bcd(h, at + 24, 0, 4), m);
                vf_assert(o.ext_ch_set_num == be(h, at + 26, 2), m);
                vf_assert(o.ext_hdr_flag == nib(h, at + 28, 0), m);
                vf_assert(o.trc_hdr_ext == nib(h, at + 28, 1), m);
                vf_assert(o.vert_stack == vf_fbyte(h, at + 29), m);
                vf_assert(o.streamer_no == vf_fbyte(h, at + 30), m);
                vf_assert(o.array_forming == vf_fbyte(h, at + 31), m);
                vf_assert(!o.number_of_samples() && !o.samp_int() && !o.filter_phase() && !o.physical_unit() && !o.filter_delay() && !o.description(),
                    "what only revision 3 has is not reported for older files");
            } else {
                vf_assert(o.channel_set_number == be(h, at + 1, 2), m);
                vf_assert(o.channel_type == vf_fbyte(h, at + 3), m);
                vf_assert(o.channel_set_start_time == be(h, at + 4, 4), m);
                vf_assert(o.channel_set_end_time == be(h, at + 8, 4), m);
                vf_assert(o.number_of_samples() && *o.number_of_samples() == be(h, at + 12, 4), m);
                vf_assert(o.number_of_channels == be(h, at + 20, 3), m);
                all += be(h, at + 20, 3);
                vf_assert(o.samp_int() && *o.samp_int() == be(h, at + 23, 3), m);
                vf_assert(o.array_forming == vf_fbyte(h, at + 26), m);
                vf_assert(o.trc_hdr_ext == vf_fbyte(h, at + 27), m);
                vf_assert(o.ext_hdr_flag == nib(h, at + 28, 0), m);
                vf_assert(o.channel_gain == nib(h, at + 28, 1), m);
                vf_assert(o.vert_stack == vf_fbyte(h, at + 29), m);
                vf_assert(o.streamer_no == vf_fbyte(h, at + 30), m);
                vf_assert(o.alias_filter_freq == be(h, at + 32, 4), m);
                vf_assert(o.low_cut_filter_freq == be(h, at + 36, 4), m);
                vf_assert(o.alias_filter_slope == be(h, at + 40, 4), m);
                vf_assert(o.low_cut_filter_slope == be(h, at + 44, 4), m);
                vf_assert(o.first_notch_filter == be(h, at + 48, 4), m);
                vf_assert(o.second_notch_filter == be(h, at + 52, 4), m);
                vf_assert(o.third_notch_filter == be(h, at + 56, 4), m);
                vf_assert(o.filter_phase() && *o.filter_phase() == vf_fbyte(h, at + 60), m);
                vf_assert(o.physical_unit() && *o.physical_unit() == vf_fbyte(h, at + 61), m);
                vf_assert(o.filter_delay() && *o.filter_delay() == be(h, at + 64, 4), m);
                vf_assert(bool(o.description()), m);
                for (unsigned k = 0; k < 27; ++k)
                    vf_assert(uint8_t((*o.description())[k]) == vf_fbyte(h, at + 68 + k), m);
            }
        }
    }
    vf_assert(s.has_trace() == (all != 0), "there are traces when the channel sets have channels");
}
static Lay layout(unsigned k)
{
    // revision and additional blocks
    static unsigned char const t[8][3] = { { 0, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 2, 1, 0 }, { 2, 1, 1 }, { 1, 1, 1 }, { 3, 2, 0 }, { 3, 2, 1 } };
    Lay l;
    l.rev = t[k][0];
    l.add = t[k][1];
    l.ff = t[k][2];
    return l;
}
// general headers 1 to 3; cfg = layout
extern "C" void h_gh(int cfg)
{
    Lay l = layout(unsigned(cfg));
    make(l);
    ISEGD s(vf_path("in.sgd"));
    gh1(s, l);
    gh2(s, l);
    gh3(s, l);
    vf_assert(s.general_headerN().empty(), "no further general headers are made up");
    vf_assert(!s.has_record(), "the whole file was header");
    vf_cover("gh");
}
// further general headers of revisions 1 and 2; cfg = number
extern "C" void h_ghn(int cfg)
{
    Lay l;
    l.rev = cfg % 2 ? 1 : 2;
    l.add = 1 + unsigned(cfg);
    make(l);
    for (unsigned i = 0; i < unsigned(cfg); ++i)
        if (cfg > 1)
            vf_fput(l.h, 64 + 32 * i + 18, uint8_t(3 + i)); // blocks are numbered in order
    ISEGD s(vf_path("in.sgd"));
    gh1(s, l);
    gh2(s, l);
    ghn(s, l, unsigned(cfg));
    vf_cover("ghn");
}
// extended and external header blocks; cfg = layout + 8 * (number of extended + 4 * number of external)
extern "C" void h_blocks(int cfg)
{
    Lay l = layout(unsigned(cfg) % 8);
    l.extd = unsigned(cfg) / 8 % 4;
    l.extl = unsigned(cfg) / 32;
    make(l);
    ISEGD s(vf_path("in.sgd"));
    blocks(s.extended_headers(), l.h, l.at_extd, l.extd);
    blocks(s.external_headers(), l.h, l.at_extl, l.extl);
    vf_assert(!s.has_record(), "the whole file was header");
    vf_cover("blocks");
}
// channel sets; cfg = layout + 8 * (scan types + 4 * channel sets)
extern "C" void h_chset(int cfg)
{
    Lay l = layout(unsigned(cfg) % 8);
    l.st = unsigned(cfg) / 8 % 4;
    l.cs = unsigned(cfg) / 32;
    make(l);
    ISEGD s(vf_path("in.sgd"));
    chsets(s, l);
    vf_cover("chset");
}
// revision 3 blocks: getter, block type and the fields with their places in the block
#define U(f, off, n) vf_assert(uint64_t(o->f) == be(h, at + off, n), m)
#define C(f, off, n)                                                     \
    vf_assert(sizeof(o->f) == n, m);                                     \
    for (unsigned k = 0; k < n; ++k)                                     \
    vf_assert(uint8_t(o->f[k]) == vf_fbyte(h, at + off + k), m)
#define Q(f, off) vf_assert(o->f == double(be(h, at + off, 5)) / 65536.0, m)
#define B(getter, fields)                                                \
    {                                                                    \
        auto o = s.getter();                                             \
        vf_assert(bool(o), "a block of the general header is reported"); \
        fields;                                                          \
        vf_assert(o->gen_hdr_block_type == vf_fbyte(h, at + 31), m);     \
        vf_assert(o->type() == vf_fbyte(h, at + 31), m);                 \
        break;                                                           \
    }
#define SRC U(expanded_file_number, 0, 3); Q(sou_line_num, 3); Q(sou_point_num, 8); U(sou_point_index, 13, 1)
#define OFFS U(source_id, 18, 1); U(source_set_num, 19, 1); U(reshoot_idx, 20, 1); U(group_idx, 21, 1); U(depth_idx, 22, 1); \
    U(offset_crossline, 23, 2); U(offset_inline, 25, 2); U(size, 27, 2); U(offset_depth, 29, 2)
static unsigned char const kinds[24] = { 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1f, 0x20, 0x21, 0x41, 0x43, 0x44, 0x45, 0x50,
    0x51, 0x52, 0x55, 0x56, 0x60, 0x61 };
static void block3(ISEGD& s, int64_t h, unsigned kind, uint64_t at)
{
    char const* m = "a block of the general header is reported as stored";
    switch (kind) {
    case 0x10: B(general_header_vessel_crew_id, C(abbr_vessel_crew_name, 0, 3); C(vessel_crew_name, 3, 28))
    case 0x11: B(general_header_survey_name, C(survey_area_name, 0, 31))
    case 0x12: B(general_header_client_name, C(client_name, 0, 31))
    case 0x13: B(general_header_job_id, C(abbr_job_id, 0, 5); C(job_id, 5, 26))
    case 0x14: B(general_header_line_id, C(line_abbr, 0, 7); C(line_id, 7, 24))
    case 0x15: B(general_header_vibrator_info, SRC; U(phase_control, 14, 1); U(type_vibrator, 15, 1);
                 vf_assert(o->phase_angle == sx(be(h, at + 16, 2), 2), m); OFFS)
    case 0x16: B(general_header_explosive_info, SRC; U(depth, 14, 2); U(charge_length, 16, 1); U(soil_type, 17, 1); OFFS)
    case 0x17: B(general_header_airgun_info, SRC; U(depth, 14, 2); U(air_pressure, 16, 2); OFFS)
    case 0x18: B(general_header_watergun_info, SRC; U(depth, 14, 2); U(air_pressure, 16, 2); OFFS)
    case 0x19: B(general_header_electromagnetic_info, SRC; U(source_type, 14, 1); U(moment, 15, 3); OFFS)
    case 0x1f: B(general_header_other_source_info, SRC; OFFS)
    case 0x20: B(general_header_add_source_info, U(time, 0, 8); U(source_status, 8, 1); U(source_id, 9, 1); U(source_moving, 10, 1); C(error_description, 11, 20))
    case 0x21: B(general_header_sou_aux_chan_ref, U(source_id, 0, 1);
                 vf_assert(o->scan_type_num_1 == bcd(h, at + 1, 0, 2), m); U(ch_set_num_1, 2, 2); U(trace_num_1, 4, 3);
                 vf_assert(o->scan_type_num_2 == bcd(h, at + 7, 0, 2), m); U(ch_set_num_2, 8, 2); U(trace_num_2, 10, 3);
                 vf_assert(o->scan_type_num_3 == bcd(h, at + 13, 0, 2), m); U(ch_set_num_3, 14, 2); U(trace_num_3, 16, 3);
                 vf_assert(o->scan_type_num_4 == bcd(h, at + 19, 0, 2), m); U(ch_set_num_4, 20, 2); U(trace_num_4, 22, 3);
                 vf_assert(o->scan_type_num_5 == bcd(h, at + 25, 0, 2), m); U(ch_set_num_5, 26, 2); U(trace_num_5, 28, 3))
    case 0x41: B(general_header_sen_info_hdr_ext_blk, U(instrument_test_time, 0, 8); U(sensor_sensitivity, 8, 4); U(instr_test_result, 12, 1); C(serial_number, 13, 18))
    case 0x43: B(general_header_sen_calib_blk, U(freq1, 0, 4); U(amp1, 4, 4); U(phase1, 8, 4); U(freq2, 12, 4); U(amp2, 16, 4); U(phase2, 20, 4); U(calib_applied, 24, 1))
    case 0x44: B(general_header_time_drift_blk, U(time_of_depl, 0, 8); U(time_of_retr, 8, 8); U(timer_offset_depl, 16, 4); U(time_offset_retr, 20, 4);
                 U(timedrift_corr, 24, 1); U(corr_method, 25, 1))
    case 0x45: B(general_header_elemag_src_rec_desc_blk, U(equip_dim_x, 0, 3); U(equip_dim_y, 3, 3); U(equip_dim_z, 6, 3); U(pos_term, 9, 1);
                 U(equip_offset_x, 10, 3); U(equip_offset_y, 13, 3); U(equip_offset_z, 16, 3))
    case 0x50: B(general_header_position_blk_1, U(time_of_position, 0, 8); U(time_of_measurement, 8, 8); U(vert_error, 16, 4); U(hor_error_semi_major, 20, 4);
                 U(hor_error_semi_minor, 24, 4); U(hor_error_orientation, 28, 2); U(position_type, 30, 1))
    case 0x51: B(general_header_position_blk_2, U(crs_a_coord1, 0, 8); U(crs_a_coord2, 8, 8); U(crs_a_coord3, 16, 8); U(crs_a_crsref, 24, 2); U(pos1_valid, 26, 1);
                 U(pos1_quality, 27, 1))
    case 0x52: B(general_header_position_blk_3, U(crs_b_coord1, 0, 8); U(crs_b_coord2, 8, 8); U(crs_b_coord3, 16, 8); U(crs_b_crsref, 24, 2); U(pos2_valid, 26, 1);
                 U(pos2_quality, 27, 1))
    case 0x55: B(general_header_coord_ref_blk, C(crs, 0, 31))
    case 0x56: B(general_header_relative_pos_blk, U(offset_east, 0, 4); U(offset_north, 4, 4); U(offset_vert, 8, 4); C(description, 12, 19))
    case 0x60: B(general_header_orient_hdr_blk, U(rot_x, 0, 4); U(rot_y, 4, 4); U(rot_z, 8, 4); U(ref_orientation, 12, 4); U(time_stamp, 16, 8); U(ori_type, 24, 1);
                 U(ref_orient_valid, 25, 1); U(rot_applied, 26, 1); U(rot_north_applied, 27, 1))
    case 0x61: B(general_header_measurement_blk, U(timestamp, 0, 8); U(measurement_value, 8, 4); U(maximum_value, 12, 4); U(minimum_value, 16, 4);
                 U(quantity_class, 20, 2); U(unit_of_measure, 22, 2); U(measurement_description, 24, 2))
    }
}
#define N(getter) if (s.getter()) ++n
static unsigned count3(ISEGD& s)
{
    unsigned n = 0;
    N(general_header_vessel_crew_id);
    N(general_header_survey_name);
    N(general_header_client_name);
    N(general_header_job_id);
    N(general_header_line_id);
    N(general_header_vibrator_info);
    N(general_header_explosive_info);
    N(general_header_airgun_info);
    N(general_header_watergun_info);
    N(general_header_electromagnetic_info);
    N(general_header_other_source_info);
    N(general_header_add_source_info);
    N(general_header_sou_aux_chan_ref);
    N(general_header_sen_info_hdr_ext_blk);
    N(general_header_sen_calib_blk);
    N(general_header_time_drift_blk);
    N(general_header_elemag_src_rec_desc_blk);
    N(general_header_position_blk_1);
    N(general_header_position_blk_2);
    N(general_header_position_blk_3);
    N(general_header_coord_ref_blk);
    N(general_header_relative_pos_blk);
    N(general_header_orient_hdr_blk);
    N(general_header_measurement_blk);
    return n;
}
// cfg = kind of the first block + 24 * (0: alone, number in general header 1; 1: alone, number in general header 2; 2: followed by the next kind)
extern "C" void h_block3(int cfg)
{
    unsigned k = unsigned(cfg) % 24, more = cfg / 24 == 2;
    Lay l;
    l.rev = 3;
    l.add = 3 + more;
    l.ff = cfg / 24 == 1;
    make(l);
    vf_fput(l.h, 96 + 31, kinds[k]);
    if (more)
        vf_fput(l.h, 128 + 31, kinds[(k + 1) % 24]);
    ISEGD s(vf_path("in.sgd"));
    block3(s, l.h, kinds[k], 96);
    if (more)
        block3(s, l.h, kinds[(k + 1) % 24], 128);
    vf_assert(count3(s) == 1 + more, "no block is made up");
    vf_assert(!s.has_record(), "the whole file was header");
    vf_cover("block3");
}
// sample skew blocks are skipped, however many; cfg = layout + 8 * (scan types - 1)
extern "C" void h_skew(int cfg)
{
    Lay l = layout(unsigned(cfg) % 8);
    l.st = 1 + unsigned(cfg) / 8;
    l.extd = 1;
    bool many = l.ff && l.rev > 2;
    unsigned a = vf_u8("a"), b = vf_u8("b");
    vf_assume(a < 10 && b < 10);
    l.skew = many ? vf_u16("skew") : a * 10 + b;
    make(l);
    if (!many)
        vf_fput(l.h, 29, uint8_t(a << 4 | b));
    ISEGD s(vf_path("in.sgd"));
    chsets(s, l);
    blocks(s.extended_headers(), l.h, l.at_extd, 1);
    vf_assert(!s.has_record(), "the whole file was header");
    vf_cover("skew");
}
