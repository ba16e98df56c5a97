import os
KNOWN_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
AR = ["fminunc", "hessian_fd", "regress", "fcdf", "tcdf"][:3]
def arima(w): return {"harnesses": [{"name": "arima%d" % w, "file": "h_arima.c", "stubs": AR, "cflags": ["-DWHAT=%d" % w]}]}
CHECKS = {
 "P10": arima(1), "P11": arima(2), "P15": arima(4), "P12": arima(8),
 "P16": {"harnesses": [{"name": "autoarima", "file": "h_autoarima.c", "stubs": ["myarima", "nsdiffs", "ndiffs", "sarimax_exec"]}]},
 "P13": {"harnesses": [{"name": "wrapper", "file": "h_wrapper.c", "stubs": ["sarimax_exec", "polyroot", "ndiffs", "nsdiffs", "rank", "regress"]}, {"name": "collinear", "file": "h_collinear.c", "stubs": ["rank", "regress", "fminunc", "hessian_fd"]}]},
 "P14": {"harnesses": [{"name": "yw", "file": "h_aryw.c", "stubs": ["autocovar", "autocorr"]}, {"name": "burg", "file": "h_arburg.c"}, {"name": "hr", "file": "h_arhr.c", "stubs": ["ywalg", "ludecomp", "linsolve"]}, {"name": "order", "file": "h_arorder.c", "stubs": ["ywalg", "ywalg2", "burgalg", "as154", "hrstep2", "printf", "nlalsm"]}]},
 "P17": {"harnesses": [{"name": "unitroot", "file": "h_unitroot.c", "stubs": ["regress", "interpolate_linear"]}, {"name": "ndiffs", "file": "h_ndiffs.c", "stubs": ["ur_kpss", "ur_df2", "ur_pp2", "OCSBtest", "SHtest"]}, {"name": "ocsb", "file": "h_ocsb.c", "stubs": ["regress", "mstl"]}]},
 "P18": {"harnesses": [{"name": "stl", "file": "h_stl.c", "stubs": ["stlrwt_"]}, {"name": "stlrw", "file": "h_stlrw.c"}, {"name": "mstl", "file": "h_mstl.c", "stubs": ["stl", "supsmu", "boxcox"]}, {"name": "sh", "file": "h_sh.c", "stubs": ["mstl"]}, {"name": "supsmu", "file": "h_supsmu.c"}]},
"P24": {"harnesses": [{"name": "min1", "file": "h_min.c", "cflags": ["-DPART=1"]}, {"name": "min2", "file": "h_min.c", "cflags": ["-DPART=2"]}, {"name": "min4", "file": "h_min.c", "cflags": ["-DPART=4"]}, {"name": "min8", "file": "h_min.c", "cflags": ["-DPART=8"]}, {"name": "min16", "file": "h_min.c", "cflags": ["-DPART=16"]}, {"name": "min32", "file": "h_min.c", "cflags": ["-DPART=32"]}, {"name": "min64", "file": "h_min.c", "cflags": ["-DPART=64"], "stubs": ["nel_min", "newton_min_func", "newton_min_trust", "conjgrad_min_lin", "bfgs_min", "bfgs_l_min", "bfgs_min2"]}]},
 "P23": {"harnesses": [{"name": "fd", "file": "h_fd.c"}]},
"P26": {"harnesses": [{"name": "reuse1", "file": "h_reuse.c", "stubs": ["costfunc", "fminbnd", "fcdf", "tcdf"], "cflags": ["-DPART=1"]}, {"name": "reuse2", "file": "h_reuse.c", "stubs": ["fminunc", "hessian_fd", "fcdf", "tcdf", "polyroot"], "cflags": ["-DPART=2"]}, {"name": "reuse3", "file": "h_reuse.c", "stubs": ["fcdf", "tcdf", "ywalg2", "burgalg"], "cflags": ["-DPART=4"]}, {"name": "reuse4", "file": "h_reuse.c", "stubs": ["sarimax_exec", "polyroot", "ndiffs", "nsdiffs", "rank", "regress"], "cflags": ["-DPART=8"]}]},
 "P22": {"harnesses": [{"name": "spectrum", "file": "h_spectrum.c"}]},
 "P20": {"harnesses": [{"name": "boxcox", "file": "h_boxcox.c", "stubs": ["fminbnd"], "model": ["log1p"]}]},
 "P27": {"harnesses": [{"name": "util", "file": "h_util.c"}]},
 "P29": {"harnesses": [{"name": "theory", "file": "h_theory.c", "stubs": ["polyroot"]}]},
 "P06": {"harnesses": [{"name": "packet", "file": "h_packet.c", "stubs": ["costfunc"]}]},
 "P05": {"harnesses": [{"name": "wavelet", "file": "h_wavelet.c"}]},
 "P08": {"harnesses": [{"name": "regress", "file": "h_regress.c", "stubs": ["fcdf", "tcdf"]}]},
 "P07": {"harnesses": [{"name": "linalg", "file": "h_linalg.c"}]},
 "P19": {"harnesses": [{"name": "filter", "file": "h_filter.c"}]},
 "P21": {"harnesses": [{"name": "errors", "file": "h_errors.c"}]},
 "P01": {"harnesses": [{"name": "diff", "file": "h_diff.c"}]},
 "P02": {"harnesses": [{"name": "conv", "file": "h_conv.c"}]},
 "P04": {"harnesses": [{"name": "acf", "file": "h_acf.c"}]},
 "P03": {"harnesses": [{"name": "fft", "file": "h_fft.c"}]},
}
CHECKS["P25"] = {"harnesses": [{"name": "dist1", "file": "h_dist.c", "cflags": ["-DPART=1"], "stubs": ["ibeta", "betainv", "erf", "erfc", "erfinv", "erfcinv", "pgamma"]}]}
CHECKS["P25"]["harnesses"] += [{"name": "dist2", "file": "h_dist.c", "cflags": ["-DPART=2"], "stubs": ["bfrac", "ibeta_appx"]}, {"name": "dist3", "file": "h_dist.c", "cflags": ["-DPART=3"], "stubs": ["eps", "erfc", "betacdf"]}, {"name": "dist4", "file": "h_dist.c", "cflags": ["-DPART=4"]}]
CHECKS["P30"] = {"harnesses": [{"name": "bj1", "file": "h_bj.c", "cflags": ["-DPART=1"]}, {"name": "bj2", "file": "h_bj.c", "cflags": ["-DPART=2"], "stubs": ["autocovar"]}, {"name": "bj4", "file": "h_bj.c", "cflags": ["-DPART=4"], "stubs": ["avaluem", "USPE", "USPE_seasonal"]}, {"name": "bj8", "file": "h_bj.c", "cflags": ["-DPART=8"], "stubs": ["nlalsm", "nlalsms"]}]}
