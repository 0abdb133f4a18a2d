"""Which harness entries decide which property, and their stated bounds."""
# entry -> (tiers, workers)
Q, T = 'quick', 'thorough'


def E(name, quick=True, workers=8, repeat=1, **kw):
    return dict(name=name, quick=quick, workers=workers, repeat=repeat, **kw)


PROPS = {
    'P01': [E('h_p01_a'), E('h_p01_b'), E('h_p01_c'), E('h_p01_d'), E('h_p01_e'), E('h_p01_l'), E('h_p01_m'), E('h_p01_n'), E('h_p01_w'), E('h_p01_s')],
    'P02': [E('h_p02_a'), E('h_p02_b'), E('h_p02_c', quick=False), E('h_p02_l'), E('h_p02_m'), E('h_p02_w')],
    'P03': [E('h_p03_a'), E('h_p03_b'), E('h_p03_c'), E('h_p03_l'), E('h_p03_w'), E('h_p03_s')],
    'P04': [E('h_p04_a'), E('h_p04_b'), E('h_p04_l'), E('h_p04_m'), E('h_p04_w'), E('h_p04_s')],
    'P05': [E('h_p05_a'), E('h_p05_b'), E('h_p05_c'), E('h_p05_d'), E('h_p05_l'), E('h_p05_w')],
    'P06': [E('h_p06_a'), E('h_p06_b'), E('h_p06_c'), E('h_p06_l'), E('h_p06_w')],
    'P08': [E('h_p08_a'), E('h_p08_b'), E('h_p08_c', quick=False), E('h_p08_d'), E('h_p08_e'), E('h_p08_f', quick=False), E('h_p08_g', quick=False), E('h_p08_l'), E('h_p08_m'), E('h_p08_w')],
    'P09': [E('h_p09_a'), E('h_p09_b'), E('h_p09_c', quick=False), E('h_p09_d'), E('h_p09_e'), E('h_p09_f', quick=False), E('h_p09_g', quick=False), E('h_p09_l'), E('h_p09_w')],
    'P10': [E('h_p10_a', repeat=64), E('h_p10_b', repeat=64), E('h_p10_c', repeat=64), E('h_p10_d', repeat=64), E('h_p10_e', repeat=64), E('h_p10_f', repeat=64)],
    'P11': [E('h_p11_a'), E('h_p11_b'), E('h_p11_c'), E('h_p11_d'), E('h_p11_e'), E('h_p11_f'), E('h_p11_l'), E('h_p11_m'), E('h_p11_w')],
    'P12': [E('h_p12_a'), E('h_p12_b'), E('h_p12_c'), E('h_p12_d'), E('h_p12_e'), E('h_p12_m')],
    'P13': [E('h_p13_a'), E('h_p13_b'), E('h_p13_c'), E('h_p13_d'), E('h_p13_e'), E('h_p13_l'), E('h_p13_w'), E('h_p13_s'), E('h_p13_f'), E('h_p13_m')],
    'P14': [E('h_p14_a'), E('h_p14_b'), E('h_p14_c'), E('h_p14_d'), E('h_p14_e'), E('h_p14_f'), E('h_p14_l'), E('h_p14_m'), E('h_p14_w'), E('h_p14_s'), E('h_p14_g')],
    'P15': [E('h_p15_a'), E('h_p15_b'), E('h_p15_c'), E('h_p15_d'), E('h_p15_e'), E('h_p15_f', quick=False), E('h_p15_g'), E('h_p15_m')],
    'P25': [E('h_p25_a'), E('h_p25_b')],
    'P28': [E('h_p28_a'), E('h_p28_b'), E('h_p28_c'), E('h_p28_d'), E('h_p28_e')],
    'P27': [E('h_p27_a'), E('h_p27_b'), E('h_p27_c')],
    'P16': [E('h_p16_a'), E('h_p16_b'), E('h_p16_c'), E('h_p16_d'), E('h_p16_e'), E('h_p16_f'), E('h_p16_m')],
    'P17': [E('h_p17_a'), E('h_p17_b'), E('h_p17_c'), E('h_p17_m')],
    'P18': [E('h_p18_a'), E('h_p18_b'), E('h_p18_c'), E('h_p18_d'), E('h_p18_e'), E('h_p18_f'), E('h_p18_m')],
    'P19': [E('h_p19_a'), E('h_p19_b'), E('h_p19_c'), E('h_p19_d'), E('h_p19_e'), E('h_p19_m')],
    'P20': [E('h_p20_' + k) for k in 'abcdefghi'],
    'P21': [E('h_p21_' + k) for k in 'abcdef'],
    'P23': [E('h_p23_' + k, feat='cli') for k in 'abcd'],
    'P26': [E('h_p26_' + k, feat='cli') for k in 'a'],
    'P24': [E('h_p24_' + k, feat='py') for k in 'abcdeg'],
    'P22': [E('h_p22_' + k) for k in 'abcde'],
    'P07': [E('h_p07_a'), E('h_p07_b'), E('h_p07_c'), E('h_p07_d'), E('h_p07_l'), E('h_p07_m'), E('h_p07_w'), E('h_p07_s')],
}
