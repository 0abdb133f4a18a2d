// generated by gen_main.sh
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_p01_a", crate::p_basic::h_p01_a),
    ("h_p01_b", crate::p_basic::h_p01_b),
    ("h_p01_c", crate::p_basic::h_p01_c),
    ("h_p01_d", crate::p_basic::h_p01_d),
    ("h_p01_e", crate::p_basic::h_p01_e),
    ("h_p02_a", crate::p_basic::h_p02_a),
    ("h_p02_b", crate::p_basic::h_p02_b),
    ("h_p02_c", crate::p_basic::h_p02_c),
    ("h_p03_a", crate::p_basic::h_p03_a),
    ("h_p03_b", crate::p_basic::h_p03_b),
    ("h_p03_c", crate::p_basic::h_p03_c),
    ("h_p04_a", crate::p_basic::h_p04_a),
    ("h_p04_b", crate::p_basic::h_p04_b),
    ("h_p05_a", crate::p_basic::h_p05_a),
    ("h_p05_b", crate::p_basic::h_p05_b),
    ("h_p05_c", crate::p_basic::h_p05_c),
    ("h_p05_d", crate::p_basic::h_p05_d),
    ("h_p06_a", crate::p_basic::h_p06_a),
    ("h_p06_b", crate::p_basic::h_p06_b),
    ("h_p06_c", crate::p_basic::h_p06_c),
    ("h_p07_a", crate::p_basic::h_p07_a),
    ("h_p07_b", crate::p_basic::h_p07_b),
    ("h_p07_c", crate::p_basic::h_p07_c),
    ("h_p07_d", crate::p_basic::h_p07_d),
    #[cfg(feature = "cli")] ("h_p23_a", crate::p_cli::h_p23_a),
    #[cfg(feature = "cli")] ("h_p23_b", crate::p_cli::h_p23_b),
    #[cfg(feature = "cli")] ("h_p23_c", crate::p_cli::h_p23_c),
    #[cfg(feature = "cli")] ("h_p23_d", crate::p_cli::h_p23_d),
    #[cfg(feature = "cli")] ("h_p26_a", crate::p_cli::h_p26_a),
    ("h_p20_a", crate::p_conf::h_p20_a),
    ("h_p20_b", crate::p_conf::h_p20_b),
    ("h_p20_c", crate::p_conf::h_p20_c),
    ("h_p20_d", crate::p_conf::h_p20_d),
    ("h_p20_e", crate::p_conf::h_p20_e),
    ("h_p20_f", crate::p_conf::h_p20_f),
    ("h_p20_g", crate::p_conf::h_p20_g),
    ("h_p20_h", crate::p_conf::h_p20_h),
    ("h_p20_i", crate::p_conf::h_p20_i),
    ("h_p16_a", crate::p_csv::h_p16_a),
    ("h_p16_b", crate::p_csv::h_p16_b),
    ("h_p16_c", crate::p_csv::h_p16_c),
    ("h_p16_d", crate::p_csv::h_p16_d),
    ("h_p16_e", crate::p_csv::h_p16_e),
    ("h_p16_f", crate::p_csv::h_p16_f),
    ("h_p17_a", crate::p_csv::h_p17_a),
    ("h_p17_b", crate::p_csv::h_p17_b),
    ("h_p17_c", crate::p_csv::h_p17_c),
    ("h_p01_l", crate::p_long::h_p01_l),
    ("h_p02_l", crate::p_long::h_p02_l),
    ("h_p03_l", crate::p_long::h_p03_l),
    ("h_p04_l", crate::p_long::h_p04_l),
    ("h_p05_l", crate::p_long::h_p05_l),
    ("h_p06_l", crate::p_long::h_p06_l),
    ("h_p07_l", crate::p_long::h_p07_l),
    ("h_p08_l", crate::p_long::h_p08_l),
    ("h_p09_l", crate::p_long::h_p09_l),
    ("h_p11_l", crate::p_long::h_p11_l),
    ("h_p13_l", crate::p_long::h_p13_l),
    ("h_p14_l", crate::p_long::h_p14_l),
    ("h_p14_m", crate::p_long::h_p14_m),
    ("h_p01_m", crate::p_many::h_p01_m),
    ("h_p01_n", crate::p_many::h_p01_n),
    ("h_p02_m", crate::p_many::h_p02_m),
    ("h_p08_m", crate::p_many::h_p08_m),
    ("h_p13_m", crate::p_many::h_p13_m),
    ("h_p04_m", crate::p_many::h_p04_m),
    ("h_p07_m", crate::p_many::h_p07_m),
    ("h_p12_m", crate::p_many::h_p12_m),
    ("h_p11_m", crate::p_many::h_p11_m),
    ("h_p15_m", crate::p_many::h_p15_m),
    ("h_p16_m", crate::p_many::h_p16_m),
    ("h_p18_m", crate::p_many::h_p18_m),
    ("h_p17_m", crate::p_many::h_p17_m),
    ("h_p19_m", crate::p_many::h_p19_m),
    ("h_p01_w", crate::p_many::h_p01_w),
    ("h_p02_w", crate::p_many::h_p02_w),
    ("h_p03_w", crate::p_many::h_p03_w),
    ("h_p04_w", crate::p_many::h_p04_w),
    ("h_p05_w", crate::p_many::h_p05_w),
    ("h_p06_w", crate::p_many::h_p06_w),
    ("h_p07_w", crate::p_many::h_p07_w),
    ("h_p08_w", crate::p_many::h_p08_w),
    ("h_p09_w", crate::p_many::h_p09_w),
    ("h_p11_w", crate::p_many::h_p11_w),
    ("h_p13_w", crate::p_many::h_p13_w),
    ("h_p14_w", crate::p_many::h_p14_w),
    ("h_p08_a", crate::p_neo::h_p08_a),
    ("h_p08_b", crate::p_neo::h_p08_b),
    ("h_p08_e", crate::p_neo::h_p08_e),
    ("h_p08_c", crate::p_neo::h_p08_c),
    ("h_p08_d", crate::p_neo::h_p08_d),
    ("h_p09_a", crate::p_neo::h_p09_a),
    ("h_p09_b", crate::p_neo::h_p09_b),
    ("h_p09_e", crate::p_neo::h_p09_e),
    ("h_p09_c", crate::p_neo::h_p09_c),
    ("h_p09_d", crate::p_neo::h_p09_d),
    ("h_p08_f", crate::p_neo::h_p08_f),
    ("h_p08_g", crate::p_neo::h_p08_g),
    ("h_p09_f", crate::p_neo::h_p09_f),
    ("h_p09_g", crate::p_neo::h_p09_g),
    ("h_p10_a", crate::p_pipe::h_p10_a),
    ("h_p10_b", crate::p_pipe::h_p10_b),
    ("h_p10_c", crate::p_pipe::h_p10_c),
    ("h_p10_d", crate::p_pipe::h_p10_d),
    ("h_p10_e", crate::p_pipe::h_p10_e),
    ("h_p10_f", crate::p_pipe::h_p10_f),
    ("h_p11_a", crate::p_pipe::h_p11_a),
    ("h_p11_b", crate::p_pipe::h_p11_b),
    ("h_p11_c", crate::p_pipe::h_p11_c),
    ("h_p11_d", crate::p_pipe::h_p11_d),
    ("h_p11_e", crate::p_pipe::h_p11_e),
    ("h_p12_a", crate::p_pipe::h_p12_a),
    ("h_p12_b", crate::p_pipe::h_p12_b),
    ("h_p12_c", crate::p_pipe::h_p12_c),
    ("h_p12_d", crate::p_pipe::h_p12_d),
    ("h_p12_e", crate::p_pipe::h_p12_e),
    ("h_p11_f", crate::p_pipe::h_p11_f),
    ("h_p13_a", crate::p_pos::h_p13_a),
    ("h_p13_b", crate::p_pos::h_p13_b),
    ("h_p13_c", crate::p_pos::h_p13_c),
    ("h_p13_d", crate::p_pos::h_p13_d),
    ("h_p13_e", crate::p_pos::h_p13_e),
    ("h_p14_a", crate::p_pos::h_p14_a),
    ("h_p14_b", crate::p_pos::h_p14_b),
    ("h_p14_c", crate::p_pos::h_p14_c),
    ("h_p14_d", crate::p_pos::h_p14_d),
    ("h_p14_e", crate::p_pos::h_p14_e),
    ("h_p14_f", crate::p_pos::h_p14_f),
    #[cfg(feature = "py")] ("h_p24_a", crate::p_py::h_p24_a),
    #[cfg(feature = "py")] ("h_p24_b", crate::p_py::h_p24_b),
    #[cfg(feature = "py")] ("h_p24_c", crate::p_py::h_p24_c),
    #[cfg(feature = "py")] ("h_p24_d", crate::p_py::h_p24_d),
    #[cfg(feature = "py")] ("h_p24_g", crate::p_py::h_p24_g),
    #[cfg(feature = "py")] ("h_p24_e", crate::p_py::h_p24_e),
    ("h_p21_a", crate::p_rc::h_p21_a),
    ("h_p21_b", crate::p_rc::h_p21_b),
    ("h_p21_c", crate::p_rc::h_p21_c),
    ("h_p21_d", crate::p_rc::h_p21_d),
    ("h_p21_e", crate::p_rc::h_p21_e),
    ("h_p21_f", crate::p_rc::h_p21_f),
    ("h_p22_a", crate::p_rc::h_p22_a),
    ("h_p22_b", crate::p_rc::h_p22_b),
    ("h_p22_c", crate::p_rc::h_p22_c),
    ("h_p22_d", crate::p_rc::h_p22_d),
    ("h_p22_e", crate::p_rc::h_p22_e),
    ("h_p28_e", crate::p_rc::h_p28_e),
    ("h_p27_a", crate::p_sets::h_p27_a),
    ("h_p27_b", crate::p_sets::h_p27_b),
    ("h_p27_c", crate::p_sets::h_p27_c),
    ("h_p01_s", crate::p_sym::h_p01_s),
    ("h_p03_s", crate::p_sym::h_p03_s),
    ("h_p04_s", crate::p_sym::h_p04_s),
    ("h_p07_s", crate::p_sym::h_p07_s),
    ("h_p13_s", crate::p_sym::h_p13_s),
    ("h_p14_s", crate::p_sym::h_p14_s),
    ("h_p13_f", crate::p_sym::h_p13_f),
    ("h_p14_g", crate::p_sym::h_p14_g),
    ("h_p28_a", crate::p_sym::h_p28_a),
    ("h_p28_b", crate::p_sym::h_p28_b),
    ("h_p28_c", crate::p_sym::h_p28_c),
    ("h_p28_d", crate::p_sym::h_p28_d),
    ("h_p15_a", crate::p_table::h_p15_a),
    ("h_p15_b", crate::p_table::h_p15_b),
    ("h_p15_c", crate::p_table::h_p15_c),
    ("h_p15_d", crate::p_table::h_p15_d),
    ("h_p15_e", crate::p_table::h_p15_e),
    ("h_p15_f", crate::p_table::h_p15_f),
    ("h_p25_a", crate::p_table::h_p25_a),
    ("h_p25_b", crate::p_table::h_p25_b),
    ("h_p15_g", crate::p_table::h_p15_g),
    ("h_p18_a", crate::p_yaml::h_p18_a),
    ("h_p18_b", crate::p_yaml::h_p18_b),
    ("h_p18_c", crate::p_yaml::h_p18_c),
    ("h_p18_d", crate::p_yaml::h_p18_d),
    ("h_p18_e", crate::p_yaml::h_p18_e),
    ("h_p18_f", crate::p_yaml::h_p18_f),
    ("h_p19_a", crate::p_yaml::h_p19_a),
    ("h_p19_b", crate::p_yaml::h_p19_b),
    ("h_p19_c", crate::p_yaml::h_p19_c),
    ("h_p19_d", crate::p_yaml::h_p19_d),
    ("h_p19_e", crate::p_yaml::h_p19_e),
];
