"""Which binaries, library variants and case counts decide each property."""
CAPS_DEFAULT = 512
SOURCES = {
    "p3a": {"src": ["p3a.cpp"]},
}


def std(b, q=1.0, t=15.0, aq=0.15, at=2.0):
    """plain build plus an address/undefined-sanitized build of the library"""
    return [{"bin": b, "variant": "plain", "quick": q, "thorough": q * t},
            {"bin": b, "variant": "asan", "quick": q * aq, "thorough": q * at}]


PROPS = {
    "C01": {"runs": std("p3a", 4)},
    "C02": {"runs": std("p3a", 3)},
    "C03": {"runs": std("p3a", 4)},
    "C04": {"runs": std("p3a", 2)},
    "C05": {"runs": std("p3a", 4)},
    "C06": {"runs": std("p3a", 20)},
    "C08": {"runs": std("p3a", 16)},
    "C09": {"runs": std("p3a", 25)},
}
SOURCES["p3b"] = {"src": ["p3b.cpp"]}
PROPS["C07"] = {"runs": [{"bin": "p3b", "variant": "asan", "cap": k, "quick": 1.0, "thorough": 30} for k in (16, 24, 41, 64)] + std("p3b", 1.0)}
PROPS["C10"] = {"runs": std("p3b", 1)}
PROPS["C11"] = {"runs": std("p3b", 15)}
PROPS["C12"] = {"runs": std("p3b", 6) + [{"bin": "p3b", "variant": "asan", "cap": k, "quick": 3.0, "thorough": 60} for k in (16, 40)]}
SOURCES["p2d"] = {"src": ["p2d.cpp"]}
for _p, _q in (("C13", 15), ("C14", 12), ("C15", 15), ("C16", 4), ("C17", 20), ("C18", 25), ("C19", 25), ("C20", 20)):
    PROPS[_p] = {"runs": std("p2d", _q)}
SOURCES["pnd"] = {"src": ["pnd.cpp"]}
for _p, _q in (("C21", 6), ("C22", 8), ("C23", 0.5), ("C24", 12), ("C25", 12)):
    PROPS[_p] = {"runs": std("pnd", _q)}
for _p in ("C22", "C23"):
    PROPS[_p]["runs"].append({"bin": "pnd", "variant": "plain", "prefix": _p + "X/", "quick": 1, "thorough": 1})

_T = "Sampled, not proved: random structured inputs up to the stated sizes; trusts the reference in harness/ and the measured rounding limits (far above what is observed, far below a wrong result)."
NOTES = {
    "C01": ("property-based testing of clip histories against an exact signed-simplex reference, plus metamorphic order/grouping relations", _T),
    "C02": ("property-based testing of list splits against an exact signed-simplex reference and conservation", _T),
    "C03": ("stateful property-based testing: random operation histories with a topology invariant after every step", _T),
    "C04": ("property-based testing of moments against Gauss-quadrature reference, plus translation and orientation relations", _T),
    "C05": ("property-based testing of initialisations over generated solids: round trip of vertices and faces, reference moments", _T),
    "C06": ("property-based round-trip testing of boundary extraction over histories of clips, with allocation balance under AddressSanitizer", _T),
    "C07": ("property-based testing under small configured capacities with AddressSanitizer; reference count of needed vertices", _T + " Capacities 16, 24, 41, 64 and the default 512."),
    "C08": ("property-based testing of transformations against the documented formulas in long double, and inverse round trips", _T),
    "C09": ("property-based testing of planes and determinants against exact arithmetic in long double", _T),
    "C10": ("property-based testing of voxelization cell by cell against an exact reference, guard zones around the grid", _T),
    "C11": ("property-based testing of index boxes and clamping against exact bounds and the clipped reference", _T),
    "C12": ("property-based testing of generated valid and broken graphs against a brute-force connectivity oracle, under AddressSanitizer at small capacities too", _T),
    "C13": ("property-based testing of clip histories against an exact signed-triangle reference, plus metamorphic relations", _T),
    "C14": ("property-based testing of list splits against an exact signed-triangle reference and conservation", _T),
    "C15": ("property-based testing of moments against Gauss-quadrature reference, plus translation and orientation relations", _T),
    "C16": ("property-based testing of rasterization cell by cell against an exact reference, guard zones around the grid", _T),
    "C17": ("property-based testing of index boxes and clamping against exact bounds and the clipped reference", _T),
    "C18": ("property-based testing of transformations against the documented formulas in long double, and inverse round trips", _T),
    "C19": ("property-based testing of initialisation, edge lines and areas against exact arithmetic in long double", _T),
    "C20": ("property-based testing of generated valid and broken loop sets with a known verdict, under AddressSanitizer", _T),
    "C21": ("stateful property-based testing of clip histories against vertex enumeration over all hyperplane quadruples, with a topology invariant after every step", _T + " Hyperplanes within rounding of several vertices are left out."),
    "C22": ("property-based testing of volumes against an exact simplex reference with a conditioning-aware limit", _T),
    "C23": ("property-based testing of 4D voxelization, index boxes and clamping cell by cell against an exact reference", _T),
    "C24": ("property-based testing of 4D initialisation, transformations and determinants in long double", _T),
    "C25": ("property-based testing of generated 4-regular graphs against a brute-force 4-connectivity oracle, under AddressSanitizer", _T),
}
SOURCES["pcc"] = {"src": ["pcc.cpp"]}
PROPS["C26"] = {"runs": std("pcc", 3)}
PROPS["C27"] = {"runs": [{"bin": "pcc", "variant": "tsan", "quick": 1.0, "thorough": 20}, {"bin": "pcc", "variant": "plain", "quick": 1.0, "thorough": 20}]}
NOTES["C26"] = ("property-based testing of operation sequences: bitwise repetition under dirtied stack, poisoned outputs, moved data and other preceding calls; inputs compared byte for byte", _T)
NOTES["C27"] = ("property-based testing of concurrent operation sequences under ThreadSanitizer, results compared bitwise with the same calls run alone", _T + " Schedules are those the machine produces; ThreadSanitizer also reports races that did not show in the results.")
SOURCES["dep3"] = {"src": ["dep3.cpp"], "legacy": ["deprecated/r3d.c"]}
SOURCES["dep3t"] = {"src": ["dep3.cpp"], "legacy": ["deprecated/r3d.c"], "cdefs": "-DUSE_TREE", "defs": "-DUSE_TREE"}
SOURCES["dep2"] = {"src": ["dep2.cpp"], "legacy": ["deprecated/r2d.c"]}
SOURCES["dep2t"] = {"src": ["dep2.cpp"], "legacy": ["deprecated/r2d.c"], "cdefs": "-DUSE_TREE", "defs": "-DUSE_TREE"}
PROPS["C28"] = {"runs": std("dep3", 5) + std("dep3t", 5)}
PROPS["C29"] = {"runs": std("dep2", 5) + std("dep2t", 5)}
NOTES["C28"] = ("property-based testing of legacy tetrahedron voxelization and clipping, cell by cell against an exact reference, in both compile-time variants", _T)
NOTES["C29"] = ("property-based testing of legacy quadrilateral rasterization and clipping, cell by cell against an exact reference, in both compile-time variants", _T)

# the single-precision configuration: the same checks, linked with a library built with -DSINGLE_PRECISION
_F = [("p3a", "C01", 1), ("p3a", "C02", 1), ("p3a", "C03", 1), ("p3a", "C04", 1), ("p3a", "C05", 1), ("p3a", "C06", 2), ("p3a", "C08", 2), ("p3a", "C09", 2),
      ("p3b", "C07", 0.5), ("p3b", "C10", 0.3), ("p3b", "C11", 1), ("p2d", "C13", 2), ("p2d", "C14", 1.5), ("p2d", "C15", 2), ("p2d", "C16", 0.7), ("p2d", "C17", 2), ("p2d", "C18", 3), ("p2d", "C19", 3),
      ("pnd", "C21", 1), ("pnd", "C22", 1), ("pnd", "C23", 0.7), ("pnd", "C24", 2), ("pcc", "C26", 0.5), ("dep3", "C28", 0.7), ("dep3t", "C28", 0.7), ("dep2", "C29", 0.7), ("dep2t", "C29", 0.7)]
PROPS["C30"] = {"runs": [{"bin": b, "variant": "float", "prefix": p + "/", "quick": q, "thorough": q * 20, "tmaxsec": 300} for b, p, q in _F]}
NOTES["C30"] = ("property-based testing of the single-precision builds of all libraries with the generators and oracles of the other properties, limits scaled to single precision", _T + " Inputs stay inside the exponent range of float.")

# the N-dimensional library built for other dimensions
for _d in (3, 5, 6):
    SOURCES["pnk%d" % _d] = {"src": ["pnk.cpp"], "nddim": _d}
PROPS["C31"] = {"runs": [{"bin": "pnk%d" % d, "variant": v, "quick": q, "thorough": q * (20 if v == "plain" else 6)} for d, q0 in ((3, 2), (5, 1), (6, 0.5)) for v, q in (("plain", q0), ("asan", q0 * 0.2))]}
NOTES["C31"] = ("property-based testing of the library built for 3, 5 and 6 dimensions against enumeration of all hyperplane subsets, exact simplex volumes, documented formulas and a brute-force connectivity oracle", _T + " Dimensions 3, 5 and 6 (4 is decided by the other properties; the sources state that 2 does not work).")

SOURCES["prt"] = {"src": ["prt.cpp"]}
PROPS["C32"] = {"runs": std("prt", 4)}
NOTES["C32"] = ("property-based testing of the printed text against the stored fields: every number parsed back and compared in order", _T)

# CMake's Release configuration: assertions and messages compiled out, full optimisation
_R = [x for x in _F if x[1] != "C26"] + [("p3b", "C12", 1), ("p2d", "C20", 2), ("pnd", "C25", 1), ("prt", "C32", 0.3)]
PROPS["C33"] = {"runs": [{"bin": b, "variant": "release", "prefix": p + "/", "quick": q * 0.6, "thorough": q * 15, "tmaxsec": 300} for b, p, q in _R] +
                [{"bin": "p3b", "variant": "asannd", "cap": k, "prefix": "C07/", "quick": 0.7, "thorough": 20} for k in (16, 41)]}
NOTES["C33"] = ("property-based testing of Release builds (-O3 -DNDEBUG) with the generators and oracles of the other properties", _T)
PROPS["C30"]["runs"].append({"bin": "prt", "variant": "float", "prefix": "C32/", "quick": 0.5, "thorough": 10, "tmaxsec": 300})
