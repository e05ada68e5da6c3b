// The SEG-Y binary header: every field, its place relative to byte 3200, width and kind.
// X(member, offset, bytes)  i: signed integer, d: IEEE double.  R2: only defined from revision 2 on.
#pragma once
#define SEGY_BIN_INT(X) \
    X(job_id, 0, 4) X(line_num, 4, 4) X(reel_num, 8, 4) \
    X(tr_per_ens, 12, 2) X(aux_per_ens, 14, 2) X(samp_int, 16, 2) X(samp_int_orig, 18, 2) \
    X(samp_per_tr, 20, 2) X(samp_per_tr_orig, 22, 2) X(format_code, 24, 2) X(ens_fold, 26, 2) \
    X(sort_code, 28, 2) X(vert_sum_code, 30, 2) X(sw_freq_at_start, 32, 2) X(sw_freq_at_end, 34, 2) \
    X(sw_length, 36, 2) X(sw_type_code, 38, 2) X(sw_ch_tr_num, 40, 2) X(taper_at_start, 42, 2) \
    X(taper_at_end, 44, 2) X(taper_type, 46, 2) X(corr_traces, 48, 2) X(bin_gain_recov, 50, 2) \
    X(amp_recov_meth, 52, 2) X(measure_system, 54, 2) X(impulse_sig_pol, 56, 2) X(vib_pol_code, 58, 2) \
    X(ext_tr_per_ens, 60, 4) X(ext_aux_per_ens, 64, 4) X(ext_samp_per_tr, 68, 4) \
    X(ext_samp_per_tr_orig, 88, 4) X(ext_ens_fold, 92, 4) \
    X(SEGY_rev_major_ver, 300, 1) X(SEGY_rev_minor_ver, 301, 1) X(fixed_tr_length, 302, 2) \
    X(ext_text_headers_num, 304, 2)
#define SEGY_BIN_R2(X) \
    X(max_num_add_tr_headers, 306, 4) X(time_basis_code, 310, 2) X(num_of_tr_in_file, 312, 8) \
    X(byte_off_of_first_tr, 320, 8) X(num_of_trailer_stanza, 328, 4)
#define SEGY_BIN_DBL(X) X(ext_samp_int, 72, 8) X(ext_samp_int_orig, 80, 8)
