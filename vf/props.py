"""which harness instances decide which property"""
ASSUMPTIONS = [
    'file I/O follows the stream model in models/include/fstream: writes and in-range reads and seeks succeed',
    'allocations up to 2^46 bytes succeed, larger ones throw std::bad_alloc',
    'the host is x86-64 little endian with IEEE-754 binary64, round to nearest',
    'the code is compiled by clang 18 for the proof (the project uses g++ 13)',
    'libstdc++ out-of-line functions behave as in models/models.cpp; header templates are verified as compiled',
]

R = lambda *a: list(range(*a))
V = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 14, 15]

PROPS = {
    'P01': {'jobs': [{'spec': 'iseg', 'fn': 'h_decode', 'cfgs': R(78)}]},
    'P02': {'jobs': [{'spec': 'iseg', 'fn': 'h_binhdr', 'cfgs': R(6)},
                     {'spec': 'iseg', 'fn': 'h_override', 'cfgs': R(3)}]},
    'P03': {'jobs': [{'spec': 'trchdr', 'fn': 'h_field', 'cfgs': R(39)},
                     {'spec': 'trchdr', 'fn': 'h_addhdr', 'cfgs': R(8)},
                     {'spec': 'trchdr', 'fn': 'h_default', 'cfgs': R(6)}]},
    'P04': {'jobs': [{'spec': 'seq', 'fn': 'h_fixed', 'cfgs': R(16)},
                     {'spec': 'seq', 'fn': 'h_var', 'cfgs': V}]},
    'P14': {'jobs': [{'spec': 'util', 'fn': 'h_swap', 'cfgs': [0]},
                     {'spec': 'util', 'fn': 'h_bcd16', 'cfgs': [4, 5, 6, 7, 8, 9]},
                     {'spec': 'util', 'fn': 'h_bcd32', 'cfgs': [4, 5, 6, 7, 8, 9]}]},
    'P20': {'jobs': [{'spec': 'iseg', 'fn': 'h_refuse', 'cfgs': R(4)},
                     {'spec': 'iseg', 'fn': 'h_short', 'cfgs': [0]},
                     {'spec': 'iseg', 'fn': 'h_shorttrace', 'cfgs': [0]}]},
    'P05': {'jobs': [{'spec': 'ext', 'fn': 'h_ext', 'cfgs': R(12)},
                     {'spec': 'ext', 'fn': 'h_endtext', 'cfgs': R(9)},
                     {'spec': 'ext', 'fn': 'h_noend', 'cfgs': R(3)},
                     {'spec': 'ext', 'fn': 'h_trailer', 'cfgs': R(9)},
                     {'spec': 'ext', 'fn': 'h_trailer_fix', 'cfgs': R(18)},
                     {'spec': 'ext', 'fn': 'h_trailer_var', 'cfgs': R(9)},
                     {'spec': 'ext', 'fn': 'h_trailer_add', 'cfgs': R(18)},
                     {'spec': 'ext', 'fn': 'h_trailer_lost', 'cfgs': R(3)}]},
    'P06': {'jobs': [{'spec': 'oseg', 'fn': 'h_encode', 'cfgs': R(39)}]},
    'P07': {'jobs': [{'spec': 'oseg', 'fn': 'h_wbin', 'cfgs': [c for c in R(27) if c < 3 or c // 3 % 3]},
                     {'spec': 'oseg', 'fn': 'h_wtext', 'cfgs': R(3)},
                     {'spec': 'oseg', 'fn': 'h_wext', 'cfgs': R(3)},
                     {'spec': 'oseg', 'fn': 'h_wempty', 'cfgs': R(12)}]},
    'P08': {'jobs': [{'spec': 'oseg', 'fn': 'h_wfield', 'cfgs': R(39)},
                     {'spec': 'oseg', 'fn': 'h_wother', 'cfgs': R(39)},
                     {'spec': 'oseg', 'fn': 'h_wadd', 'cfgs': R(24)},
                     {'spec': 'oseg', 'fn': 'h_wdefault', 'cfgs': R(6)}]},
    'P09': {'jobs': [{'spec': 'oseg', 'fn': 'h_layout', 'cfgs': [c for c in R(36) if c not in (18, 19, 20, 27, 28, 29)]},
                     {'spec': 'oseg', 'fn': 'h_wrefuse', 'cfgs': R(18) + [19, 20]}]},
    'P10': {'jobs': [{'spec': 'misc', 'fn': 'h_ebcdic', 'cfgs': R(2)},
                     {'spec': 'misc', 'fn': 'h_ebcdic_round', 'cfgs': R(2)}]},
    'P11': {'jobs': [{'spec': 'misc', 'fn': 'h_map1', 'cfgs': R(2)},
                     {'spec': 'misc', 'fn': 'h_map2', 'cfgs': R(13)},
                     {'spec': 'misc', 'fn': 'h_map3', 'cfgs': [0]},
                     {'spec': 'misc', 'fn': 'h_mapname', 'cfgs': R(2)},
                     {'spec': 'misc', 'fn': 'h_mapcount', 'cfgs': R(5)}]},
    'P13': {'jobs': [{'spec': 'trace', 'fn': 'h_getset', 'cfgs': R(16)},
                     {'spec': 'trace', 'fn': 'h_hdrval', 'cfgs': R(5)},
                     {'spec': 'trace', 'fn': 'h_trcval', 'cfgs': R(6)}]},
    'P21': {'jobs': [{'spec': 'misc', 'fn': 'h_exc', 'cfgs': R(5)}]},
    'P12': {'level': 'other',
            'explanation': 'bounded in the number of traces: up to 4 (3 for lookups by key); within the bound every obligation is proved by the '
                           'solver for all key values and, up to 2 traces, all trace lengths',
            'jobs': [{'spec': 'sorted', 'fn': 'h_sorted', 'cfgs': [n + v for v in R(0, 40, 5) for n in R(5)],
                      'quick': [4, 14] + [n + v for v in R(0, 40, 5) for n in R(4)]},
                     {'spec': 'sorted', 'fn': 'h_bykey', 'cfgs': [0, 1, 2, 3, 5, 6, 7, 8], 'quick': [0, 1, 3, 5, 6, 8]},
                     {'spec': 'sorted', 'fn': 'h_nokey', 'cfgs': [0]}]},
    'P15': {'jobs': [{'spec': 'isegd', 'fn': 'h_gh', 'cfgs': R(8)},
                     {'spec': 'isegd', 'fn': 'h_ghn', 'cfgs': [1, 2]},
                     {'spec': 'isegd', 'fn': 'h_blocks', 'cfgs': [l + 8 * e + 32 * x for l in R(8) for e, x in ((0, 1), (1, 0), (1, 1), (2, 1), (3, 2), (2, 3))],
                      'quick': [l + 8 * e + 32 * x for l in R(8) for e, x in ((0, 1), (1, 0), (3, 2))]},
                     {'spec': 'isegd', 'fn': 'h_block3', 'cfgs': R(72)},
                     {'spec': 'tsegd', 'fn': 'h_format', 'cfgs': [0]}]},
    'P16': {'jobs': [{'spec': 'isegd', 'fn': 'h_chset', 'cfgs': [l + 8 * s + 32 * c for l in R(8) for s, c in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1))],
                      'quick': [l + 8 * s + 32 * c for l in R(8) for s, c in ((1, 1), (2, 1), (1, 3))]},
                     {'spec': 'isegd', 'fn': 'h_skew', 'cfgs': R(8) + [14, 15]}]},
    'P17': {'jobs': [{'spec': 'tsegd', 'fn': 'h_std', 'cfgs': R(40)},
                     {'spec': 'tsegd', 'fn': 'h_ext', 'cfgs': R(52)},
                     {'spec': 'tsegd', 'fn': 'h_emptymap', 'cfgs': R(32)},
                     {'spec': 'tsegd', 'fn': 'h_sampmap', 'cfgs': R(2)},
                     {'spec': 'tsegd', 'fn': 'h_lost', 'cfgs': R(5)},
                     {'spec': 'tsegd', 'fn': 'h_order', 'cfgs': R(20), 'quick': R(5, 20)},
                     {'spec': 'tsegd', 'fn': 'h_records', 'cfgs': [c for c in R(25) if c != 4],
                      'quick': [1, 2, 3, 5, 9, 12, 13, 15, 17, 18, 20, 24]}]},
    'P18': {'jobs': [{'spec': 'tsegd', 'fn': 'h_samples', 'cfgs': R(14) + R(28, 70) + [16, 17, 22, 23, 24, 26],
                      'quick': R(14) + R(42, 56) + [23, 26, 30, 31, 37, 38, 39, 40]}]},
}
