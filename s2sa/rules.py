"""Registry of the rules, one per property."""
from __future__ import annotations

ASSUMPTIONS = [
    "the models of Python, NumPy, JAX, Torch and s2fft operations in s2sa/lib.py and s2sa/s2model.py are faithful",
    "real-number semantics: round-off is not modelled",
    "closed forms that are not identical after normalisation are compared by random interpretation at the listed valuations; equality there is not a proof for all parameters",
]


TECH = "abstract interpretation of the syntax tree into parametric value graphs (value numbering), compared with a reference graph"
NOTE = ("Every public entry point the property names is analysed for symbolic parameters and data; a violation is reported only with a construct and a witness "
        "valuation at which the extracted closed forms differ. Trusted: the models of Python/NumPy/JAX/Torch/s2fft operations; real-number semantics. Closed forms that "
        "do not normalise to the same term are compared by random interpretation at the listed valuations, which is strong evidence but not a proof for all parameters; "
        "constructs outside the modelled language are reported as undecided in the evidence, never as violations.")


class Rule:
    def __init__(self, fn, rule, explanation, assumptions=(), technique=TECH, note=NOTE):
        self.fn, self.rule, self.explanation, self.assumptions = fn, rule, explanation, assumptions
        self.technique, self.note = technique, note

    def run(self, rep, tier):
        self.fn(rep, tier)


RULES = {}


def register(pid, fn, rule, explanation, assumptions=(), **kw):
    RULES[pid] = Rule(fn, rule, explanation, assumptions, **kw)


from . import rules_transform as T
from . import rules_filters as F

EXPL = "Abstract interpretation of the source of the public entry points into parametric value graphs (loops summarised, branches joined, calls inlined, s2fft calls as transform records); "

register("C06", T.c06, "value graph of analysis in every backend and calling context == reference graph; every shape, bounds and call obligation on the way holds",
         EXPL + "the graph of each backend's analysis result is compared, scale by scale, with the reference definition.")
register("C07", T.c07, "value graph of synthesis in every backend and calling context == reference graph; shape, bounds and call obligations hold",
         EXPL + "the graph of each backend's synthesis result is compared with the reference definition.")
register("C08", T.c08, "value graph of flm_to_analysis (with and without J_max) == wavelet part of the reference analysis",
         EXPL + "the graph of each backend's flm_to_analysis result is compared with the wavelet part of the reference analysis for J_min..J_max.")

FEXPL = "Abstract interpretation of the filter generators and band-limit helpers into closed-form element functions of (L, N, J_min, lam, spin, spin0); "
register("C01", F.c01, "extracted LN_j, wav_j_bandlimit, L0_j, scal_bandlimit, j_max formulas cover the filter supports, are non-empty, within L, and keep the parity of N",
         FEXPL + "the extracted closed forms are compared with the filter supports over a grid of parameters around every power of lam and every threshold the code branches on.")
register("C03", F.c03, "sum over scales and orders of the extracted filters == 1 for every degree",
         FEXPL + "the admissibility sum of every generator's element functions is formed and compared with one.")
register("C04", F.c04, "element functions of looped, vectorised, JAX (and Torch-converted) generators agree",
         FEXPL + "generators are compared pairwise, shapes and elements.")
register("C05", F.c05, "extracted filters vanish outside their documented support and satisfy the reality symmetry",
         FEXPL + "every element outside the documented support must be zero, and the reality symmetry must hold.")
register("C20", F.c20, "every quotient, root, exponential and gamma function on the way to a filter is evaluated inside its domain",
         FEXPL + "elements are evaluated with strict IEEE semantics (no short-circuit of 0*inf), and every scalar quotient site is checked on its path condition, including nodes at and beyond the ends of the tiling kernel's support.")

register("C22", F.c22, "element functions of every generator == the published closed form (generating-function profile x directionality coefficient x spin factor), within the quadrature tolerance",
         FEXPL + "every element is compared with the documented formula, and the documented building blocks (generating function, directionality coefficients, tiling kernel) with theirs.")

register("C09", T.c09, "kernel record reaching each transform call == the record that transform needs (L, N, sampling, nside, reality, direction, spin)",
         EXPL + "kernel constructors are modelled as records of their arguments; the record selected at each transform call, for every scale, must match the roles of that call.")
register("C10", T.c10, "value graph of synthesis(analysis(f)) with fwd(inv(x)) -> x rewritten == inv(fwd(f))",
         EXPL + "the synthesis is analysed on the abstract result of the analysis with the package's own filter generators inlined; inverse/forward pairs with equal roles and matching kernels cancel.")
register("C11", T.c11, "roles (sampling, nside, reality, spin, band-limit) of every transform call == those of the caller",
         EXPL + "every transform call reached from a public function is checked in non-default calling contexts.")
register("C17", T.c17, "value graph with filters/precomps omitted == value graph with the generated ones passed", EXPL + "both calls are analysed and their results compared.")
register("C18", T.c18, "value graph with reality=True == value graph with reality=False on data with the reality symmetry", EXPL + "both calls are analysed and their results compared on symmetric data.")
register("C21", T.c21, "base transforms with multiresolution off / scattering on / spin0 != 0 == reference graph at full band-limits", EXPL + "compared with the reference definition at (L, N, 0).")

register("C23", T.c23, "no raise, failing assertion, out-of-range index, shape mismatch, failed unpacking or failed call is reachable in any configuration of the valid domain",
         EXPL + "every raise, assert, subscript, operand-shape, unpacking and call site reached from a public function is an obligation; each is decided at the edges of every parameter's range, on a spread of the valid domain and at configurations chosen so that both outcomes of every condition guarding such a site occur.",
         technique="reachability of failure sites (path conditions, bounds and shape obligations) over the abstract interpretation of the syntax tree")

from . import rules_api as A
register("C02", A.c02, "shapes reported / allocated by the samples helpers == shapes of the extracted analysis results; shape check accepts exactly those",
         EXPL + "shape terms of helpers and transforms are compared scale by scale; the shape check is analysed on valid inputs and on inputs with one wrong axis, rank or scale count.")
register("C16", A.c16, "every invalid configuration reaches a raise on all paths, no valid one does", EXPL + "path conditions of raise and assert statements are compared with the documented validity conditions.")
register("C19", A.c19, "public names bind to the documented functions; shared parameters have one order and one default",
         "Name resolution over the package's import graph and the signatures in the syntax tree.",
         technique="resolved import graph and signature comparison over the syntax tree",
         note="Exact for the names and signatures in the source; parameters reached through **kwargs wrappers are reported undecided.")

from . import rules_state as S
register("C12", S.c12, "no store through a handle whose origin is an argument or a cached value; no returned handle aliases a cache or module-level object; every cache key determines the cached value; a call in the state left by another call returns the same value graph",
         EXPL + "every store site carries the origin of the object it writes (argument, fresh, cached, module-level); caches are checked for key adequacy and by analysing a second call in the state the first one left.",
         technique="abstract interpretation with ownership (origin) tracking of every mutable handle, alias analysis of results, and key-adequacy analysis of caches",
         note="Exact for the modelled aliasing operations (views, asarray, reshape, list elements, closures); constructs outside the modelled language are reported undecided.")
register("C13", S.c13, "no node on a dataflow path from the data inputs to an output is a detach, host conversion, rounding, truncation or sign",
         EXPL + "every dataflow path from signal, harmonic or wavelet-coefficient inputs to a result element is searched for non-differentiable nodes; a hit is reported when its path condition is satisfiable.",
         technique="dataflow (taint) analysis from data inputs to results over the extracted value graphs, with feasibility of the path conditions",
         note="Exact for the modelled operations; the derivatives of s2fft's own transforms are assumed.")
register("C14", S.c14, "no node of a result graph, no buffer, kernel or returned array is single precision; no complex value with an imaginary part is stored in a real buffer",
         EXPL + "dtype inference with the promotion rules of NumPy, JAX and Torch; nodes computed or stored in single precision are marked and searched in every result graph.",
         technique="dtype inference (abstract interpretation with the promotion rules of NumPy, JAX and Torch) and dataflow from single-precision nodes to results",
         note="Assumes 64-bit JAX enabled, as the package documents; exact for the modelled operations.")
register("C15", S.c15, "no value of a traced parameter or array reaches a shape, loop bound, branch, slice bound, host call or static argument; no static parameter receives an array or list; no string reaches a traced parameter",
         EXPL + "every compiled function is analysed with its non-static scalar parameters replaced by opaque traced values, all parameters passed.",
         technique="taint analysis of traced parameters of every jitted function (binding-time analysis)",
         note="Exact for the modelled operations; the static arguments of s2fft's own compiled functions are part of the model.")

register("C24", S.c24, "every array in the value returned by a public function is of the framework (NumPy, JAX, Torch) the function stands for",
         EXPL + "every array value carries the framework that creates it; library operations map the frameworks of their operands to that of their result as the libraries do.",
         technique="framework (array type) inference by abstract interpretation, over every leaf of the returned value and every calling context",
         note="Exact for the modelled operations; s2fft's transforms are modelled as returning their own framework's arrays.")
