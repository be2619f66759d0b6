"""Which models, generators and trace specifications decide each property."""

UNITS = {
    "teststat": {"trace": "Trace_TestStat"},
    "spectrum": {"trace": "Trace_Spectrum"},
    "params": {"trace": "Trace_Params"},
    "config": {"trace": "Trace_Config"},
    "grid": {"trace": "Trace_Grid"},
    "convolve": {"trace": "Trace_Convolve"},
    "fit": {"trace": "Trace_Fit"},
    "limit": {"trace": "Trace_Limit"},
    "premade": {"trace": "Trace_PreMade"},
    "decay": {"trace": "Trace_Decay"},
    "events": {"trace": "Trace_Events"},
    "store": {"trace": "Trace_Store"},
    "scripts": {"trace": "Trace_Scripts"},
    "plots": {"trace": "Trace_Plots"},
    "session": {"trace": "Trace_Session"},
}

_SPEC_MC = {"module": "MC_Spectrum", "unit": "spectrum",
            "cfg": {"quick": "MC_Spectrum.cfg", "thorough": "MC_Spectrum_t.cfg"},
            "cap": {"quick": 600, "thorough": 6000}}
_ND_MC = {"module": "MC_NdArray", "unit": None,
          "cfg": {"quick": "MC_NdArray.cfg"}}
_SPEC_A = ["bin positions within 1e-9 of an edge count as on the edge",
           "bin-content comparison allows 1e-9 relative rounding"]


def _spec(profile, nq=300, nt=6000, extra=()):
    return {"mc": [_SPEC_MC, _ND_MC],
            "runs": [("spectrum", profile, nq, nt, 3)] + list(extra),
            "assumptions": _SPEC_A}

_CONF_MC = {"module": "MC_Config", "unit": "config",
            "cfg": {"quick": "MC_Config.cfg", "thorough": "MC_Config_t.cfg"},
            "cap": {"quick": 300, "thorough": 6000}}
_CONF_A = ["global parameters are named <dimension>_<kind>, spectral ones "
           "contain 'rate'; a spectra or spectra-fit configuration has at "
           "least one parameter"]

_GRID_MC = {"module": "MC_Grid", "unit": "grid",
            "cfg": {"quick": "MC_Grid.cfg", "thorough": "MC_Grid_t.cfg"},
            "cap": {"quick": 200, "thorough": 4000}}
_GARR_MC = {"module": "MC_GridArr", "unit": "grid",
            "cfg": {"quick": "MC_GridArr.cfg", "thorough": "MC_GridArr_t.cfg"},
            "cap": {"quick": 400, "thorough": 6000}}
_GRID_A = ["the grid values of one parameter differ from each other",
           "statistics add up to 1e-9"]

_CONV_MC = {"module": "MC_Convolve", "unit": "convolve",
            "cfg": {"quick": "MC_Convolve.cfg", "thorough": "MC_Convolve_t.cfg"},
            "cap": {"quick": 150, "thorough": 3000}}
_CONV_A = ["bin contents are not negative, smeared axes not below zero",
           "moves that are not whole bins are judged to 3e-4 of the total, "
           "which covers the code's end-of-range offset of 1e-6"]

_FIT_MC = {"module": "MC_Fit", "unit": "fit",
           "cfg": {"quick": "MC_Fit.cfg", "thorough": "MC_Fit_t.cfg"},
           "cap": {"quick": 130, "thorough": 3000}}
_FIT_A = ["all spectra of a fit have the dimensions of the data, in the same "
          "order", "floating backgrounds have at most one rate parameter, and "
          "different names"]

_LIM_MC = {"module": "MC_Limit", "unit": "limit", "workers": 2,
           "cfg": {"quick": "MC_Limit.cfg", "thorough": "MC_Limit_t.cfg"},
           "cap": {"quick": 250, "thorough": 4000}}
_STORE_A = ["HDF5 itself is played by a stand-in that follows h5py's rules"]


def _store(quick):
    return {"module": "MC_Store", "unit": "store", "workers": 4,
            "cfg": {"quick": quick, "thorough": "MC_Store_t.cfg"},
            "cap": {"quick": 250, "thorough": 6000}}


CHECKS = {
    "C01": _spec("fill"),
    "C02": _spec("shrink", 400),
    "C03": _spec("rebin"),
    "C04": _spec("project"),
    "C05": _spec("norm"),
    "C06": _spec("alias"),
    "C07": {"mc": [{"module": "MC_Params", "unit": "params",
                    "cfg": {"quick": "MC_Params.cfg", "thorough": "MC_Params_t.cfg"},
                    "cap": {"quick": 500, "thorough": 4000}}],
            "runs": [("params", "grid", 400, 12000, 3)],
            "assumptions": ["low < high; log mode with low > 0; deviation mode with the "
                            "prior inside the bounds and at least 3 points"]},
    "C08": {"mc": [{"module": "MC_Params", "unit": None,
                    "cfg": {"quick": "MC_Params.cfg", "thorough": "MC_Params_t.cfg"}}],
            "runs": [("params", "axis", 400, 12000, 3)],
            "assumptions": ["bins at exactly represented edges are judged exactly; other "
                            "edges up to 1e-9 of a bin width"]},
    "C09": {"mc": [_CONF_MC], "runs": [("config", "trips", 500, 15000, 4)],
            "assumptions": _CONF_A},
    "C25": {"mc": [_CONF_MC], "runs": [("config", "assemble", 400, 12000, 3)],
            "assumptions": _CONF_A},
    "C11": {"mc": [_GRID_MC], "runs": [("grid", "search", 500, 15000, 3),
                                       ("grid", "read", 150, 3000, 2)],
            "assumptions": _GRID_A},
    "C12": {"mc": [_GRID_MC, _GARR_MC],
            "runs": [("grid", "search", 500, 15000, 3)],
            "assumptions": _GRID_A},
    "C24": {"mc": [_GRID_MC], "runs": [("grid", "read", 400, 12000, 4)],
            "assumptions": _GRID_A},
    "C18": {"mc": [_CONV_MC], "runs": [("convolve", "scale", 400, 12000, 4)],
            "assumptions": _CONV_A},
    "C19": {"mc": [_CONV_MC], "runs": [("convolve", "shift", 500, 15000, 4)],
            "assumptions": _CONV_A},
    "C20": {"mc": [_CONV_MC], "runs": [("convolve", "smear", 350, 10000, 4),
                                       ("convolve", "random", 120, 3000, 2)],
            "assumptions": _CONV_A},
    "C13": {"mc": [_FIT_MC], "runs": [("fit", "expect", 210, 3500, 7)],
            "assumptions": _FIT_A},
    "C14": {"mc": [_FIT_MC], "runs": [("fit", "confine", 210, 3500, 7)],
            "assumptions": _FIT_A},
    "C15": {"mc": [_LIM_MC], "runs": [("limit", "limits", 420, 9000, 7)],
            "assumptions": _FIT_A},
    "C16": {"mc": [_store("MC_Store.cfg")], "runs": [("store", "spectra", 300, 9000, 4)],
            "assumptions": _STORE_A},
    "C17": {"mc": [_store("MC_StoreRes.cfg")], "runs": [("store", "results", 300, 9000, 4)],
            "assumptions": _STORE_A},
    "C21": {"mc": [{"module": "MC_PreMade", "unit": "premade", "workers": 4,
                    "cfg": {"quick": "MC_PreMade.cfg", "thorough": "MC_PreMade_t.cfg"},
                    "cap": {"quick": 400, "thorough": 6000}}],
            "runs": [("premade", "all", 400, 9000, 4)],
            "assumptions": _STORE_A + [
                "files end in .hdf5; directories above the first dimension "
                "are not called smear, scale or shift"]},
    "C22": {"mc": [{"module": "MC_Decay", "unit": "decay", "workers": 4,
                    "cfg": {"quick": "MC_Decay.cfg", "thorough": "MC_Decay_t.cfg"},
                    "cap": {"quick": 400, "thorough": 6000}}],
            "runs": [("decay", "all", 300, 12000, 4)],
            "assumptions": ["values are the double nearest to the decimal text recorded; "
                            "1e-9 relative noise is not a violation",
                            "zero or negative values a conversion would divide by are left open"]},
    "C26": {"mc": [{"module": "MC_Scripts", "unit": "scripts", "workers": 4,
                    "cfg": {"quick": "MC_Scripts.cfg", "thorough": "MC_Scripts_t.cfg"},
                    "cap": {"quick": 300, "thorough": 6000}}],
            "runs": [("scripts", "cli", 350, 9000, 6)],
            "assumptions": _STORE_A + ["file names have an extension; event "
                                       "files are read through a stand-in"]},
    "C27": {"mc": [{"module": "MC_Plots", "unit": "plots",
                    "cfg": {"quick": "MC_Plots.cfg", "thorough": "MC_Plots_t.cfg"},
                    "cap": {"quick": 300, "thorough": 6000}}],
            "runs": [("plots", "all", 450, 9000, 4)],
            "assumptions": ["matplotlib and ROOT are played by stand-ins that "
                            "keep what is drawn (drv/shims/site)"]},
    "C28": {"mc": [{"module": "MC_Session", "unit": "session",
                    "cfg": {"quick": "MC_Session.cfg", "thorough": "MC_Session_t.cfg"},
                    "cap": {"quick": 400, "thorough": 8000}}],
            "runs": [("session", "all", 500, 15000, 4)],
            "assumptions": ["a new process is played by resetting Python's "
                            "logging and warnings and echidna's flag"]},
    "C23": {"mc": [{"module": "MC_Events", "unit": "events", "workers": 4,
                    "cfg": {"quick": "MC_Events.cfg", "thorough": "MC_Events_t.cfg"},
                    "cap": {"quick": 250, "thorough": 6000}}],
            "runs": [("events", "all", 400, 12000, 4), ("events", "cuts", 288, 4320, 2)],
            "assumptions": [
                "ROOT and RAT are played by a stand-in (drv/shims/site/ROOT.py) "
                "that follows their interfaces",
                "events within 1e-9 of the fiducial radius are left open"]},
    "C10": {
        "mc": [{"module": "MC_TestStat", "cfg": {"quick": "MC_TestStat.cfg", "thorough": "MC_TestStat_t.cfg"},
                "unit": "teststat", "cap": {"quick": 120, "thorough": 1500}}],
        # (unit, profile, sequences quick, thorough, parallel chunks)
        "runs": [("teststat", "all", 60, 3000, 3)],
        "assumptions": ["counts are non-negative", "double-precision noise of 1e-9 relative is not a violation"],
    },
}

NOTES = {}
NOT_APPLICABLE = {}
