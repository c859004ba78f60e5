"""check id -> harness sources (besides pbt.cpp), extra libraries, build flavor."""
N = "nlp.cpp"
ANY = ["optgen.cpp", "anycase.cpp", N]
CHECKS = {
  "P01": dict(src=["p01_kkt.cpp", N]),
  "P04": dict(src=["p04_convex.cpp", "optgen.cpp", N]),
  "P05": dict(src=["p05_protocol.cpp"] + ANY),
  "P06": dict(src=["p06_bounds.cpp"] + ANY),
  "P07": dict(src=["p07_final.cpp"] + ANY),
  "P02": dict(src=["p02_limits.cpp"] + ANY),
  "P08": dict(src=["p08_fixed.cpp"] + ANY),
  "P09": dict(src=["p09_present.cpp"] + ANY),
  "P13": dict(src=["p13_determ.cpp"] + ANY),
  "P12": dict(src=["p12_faults.cpp"] + ANY),
  "P30": dict(src=["p30_options.cpp"]),
  "P31": dict(src=["p31_optfile.cpp"]),
  "P32": dict(src=["p32_regoptions.cpp"]),
  "P33": dict(src=["p33_journal.cpp"]),
  "P34": dict(src=["p34_smartptr.cpp"]),
  "P35": dict(src=["p35_cache.cpp"]),
  "P36": dict(src=["p36_utils.cpp"]),
  "P40": dict(src=["p40_vectors.cpp"]),
  "P41": dict(src=["p41_matrices.cpp"]),
  "P42": dict(src=["p42_triplets.cpp"]),
  "P15": dict(src=["p15_query.cpp"] + ANY),
  "P14": dict(src=["p14_reports.cpp"] + ANY),
  "P16": dict(src=["p16_stats.cpp"] + ANY),
  "P10": dict(src=["p10_scaling.cpp"] + ANY),
  "P48": dict(src=["p48_derived.cpp"] + ANY),
  "P22": dict(src=["p22_cinterface.cpp"] + ANY),
  "P23": dict(src=["p23_fortran.cpp"] + ANY),
  "P11": dict(src=["p11_warm.cpp"] + ANY),
  "P03": dict(src=["p03_infeasible.cpp"] + ANY),
  "P17": dict(src=["p17_dercheck.cpp"] + ANY),
  "P18": dict(src=["p18_findiff.cpp"] + ANY),
  "P19": dict(src=["p19_lbfgs.cpp"] + ANY),
  "P20": dict(src=["p20_reform.cpp"] + ANY),
  "P21": dict(src=["p21_hints.cpp"] + ANY),
  "P47": dict(src=["p47_filter.cpp"] + ANY),
}
