"""C22: values of named options are told apart, others refused."""
import ast
import re
from .. import spec
from ..values import DictRec, Ref, StrVal, Num, VN
from .base import Finding

# Options whose unsupported values are refused (everything else is decided
# by the library the value is handed to, or has a documented fallback).
REFUSED = {
    "postprocessing.rescale": ["nbit"],
    "postprocessing.rescale_dataset": ["nbit"],
    "postprocessing.reslice_dataset": ["axis"],
    "calculation.calculate_reconstructable_height": ["scan_type"],
    "calculation.calculate_maximum_index": ["scan_type"],
    "conversion.generate_sinogram_helical_scan": ["scan_type"],
    "filtering.double_wedge_filter": ["sino_type"],
    "utility.detect_sample": ["sino_type"],
    "reconstruction.astra_reconstruction": ["method"],
    "vertrec.vertical_reconstruction": ["ramp_filter"],
    "vertrec.vertical_reconstruction_multiple": ["ramp_filter"],
    "vertrec.vertical_reconstruction_different_angles": ["ramp_filter"],
    "vertrec.find_center_vertical_slice": ["metric", "ramp_filter"],
    "vertrec.find_center_visual_vertical_slices": ["ramp_filter"],
    "calibration.find_tilt_roll": ["method"],
}
FLAGS = {"gpu"}
# Values documented in prose.
PROSE = {
    "removal.remove_stripe_based_wavelet_fft": {
        "window_name": ["gaussian", "butter"]},
    "utility.make_2d_damping_window": {
        "window_name": ["gaussian", "butter"]},
}
# Options which name the library routine to use.
NAMED = {"reconstruction.make_smoothing_window": (
    "filter_name", "hann bartlett blackman hamming nuttall parzen "
    "triang".split(), "scipy.signal.windows.")}
# An option that is not used when another one is given.
UNUSED_WITH = {("vertrec.find_center_vertical_slice", "metric"):
               "metric_function"}
# Functions taking a filter by its name: {"method": name, ...}.
FILTERS = {
    "removal.remove_stripe_based_sorting": "median_filter",
    "removal.remove_stripe_based_filtering": "median_filter",
    "removal.remove_stripe_based_fitting": "median_filter",
    "removal.remove_all_stripe": "median_filter",
    "removal.remove_large_stripe": "median_filter",
    "removal.remove_stripe_based_2d_filtering_sorting": "median_filter",
    "removal.remove_stripe_based_normalization": "median_filter",
    "removal.remove_stripe_based_wavelet_fft": "median_filter",
    "removal.remove_stripe_based_fft": "median_filter",
    "correction.flat_field_correction": "remove_zinger",
}


def documented(fi):
    """{parameter: values} written as {a, b, ...} in the docstring."""
    d = ast.get_docstring(fi.node) or ""
    d = re.sub(r"\\\s*\n\s*", " ", d)
    out = {}
    for m in re.finditer(r"^(\w+)\s*:\s*([^\n]*?)\{([^}]*)\}", d, re.M):
        vals = []
        for x in re.findall(r"""["'][^"']*["']|\bNone\b|\bTrue\b|\bFalse\b"""
                            r"""|-?\d+""", m.group(3)):
            vals.append(ast.literal_eval(x))
        if vals and m.group(1) in spec.params_of(fi):
            out[m.group(1)] = vals
    for p, vals in PROSE.get(fi.short, {}).items():
        out.setdefault(p, vals)
    return out


def numeric(fi, p, vals):
    d = fi.defaults.get(p)
    if isinstance(d, ast.Constant) and isinstance(d.value, str):
        return False
    return any(type(x) is int for x in vals)


def foreign(fi, p, vals):
    return spec.ints(97) if numeric(fi, p, vals) else \
        spec.strs("__sentinel_filter")


def anything(fi, p, vals):
    tags = frozenset([("opt", p)])
    if numeric(fi, p, vals):
        return [spec.v("any int", lambda b: Num(spec.symp("opt_" + p),
                                                tags=tags))]
    return [spec.v("any str", lambda b: StrVal(None, VN("in", p), tags))]


def constant(x):
    return spec.ints(x) if type(x) is int else spec.strs(x)


def named_filter(name):
    """opt1={"method": name, "para1": 3}"""
    def make(b):
        i = VN("param", b.p, "dict")
        b.st.heap[i] = DictRec((("method", spec.strv(name)),
                                ("para1", spec.num(3))), True, None)
        return Ref(i, "dict")
    return {"opt1": make}


class C22:
    ID = "C22"
    TITLE = "unsupported option values are refused"
    EXPLANATION = (
        "The public functions are analysed with a symbolic string or integer "
        "for one named option; every comparison, membership test and table "
        "look-up of that value anywhere in the call graph is recorded.  All "
        "but at most one of the documented values (the one left for 'else') "
        "must be told apart unless the value is handed to a library routine, "
        "and the value must not be compared with anything undocumented.  "
        "With a value outside the documented ones, the options that are "
        "checked (%d parameters, and the named-filter dictionaries of the "
        "stripe removal and correction functions) must end in an exception "
        "on every path; each documented value must be able to complete."
        % sum(len(x) for x in REFUSED.values()))
    RULES = {"apart": "documented values are told apart",
             "named": "an option naming a window selects that window",
             "known": "an option is compared with documented values only",
             "refused": "a value that is not supported ends in an exception",
             "accepted": "a documented value is not refused"}
    ASSUMPTIONS = ["loops over data run at least once",
                   "joblib judges the 'prefer' option",
                 "library routines judge the values they are given"]
    budget = 400000

    def jobs(self, project, tier):
        quick = tier == "quick"
        self.limit = 3 if quick else 40
        self.few, self.most = (2, 5) if quick else (10 ** 6, 10 ** 6)
        out = []
        for fi in project.public_functions():
            for p in documented(fi):
                if p == "prefer":
                    continue
                out.append((fi.short, p, "apart"))
            for p in REFUSED.get(fi.short, ()):
                out.append((fi.short, p, "refused"))
            if fi.short in NAMED:
                out.append((fi.short, NAMED[fi.short][0], "named"))
            if fi.kwarg and fi.short in FILTERS:
                out.append((fi.short, "**" + fi.kwarg, "filter"))
        return out

    def run(self, project, fi, combo, kw=None, **opts):
        opts["nonempty"] = True
        opts["kernels"] = False
        opts.setdefault("cuda", False)
        self.calls += 1
        return spec.run(project, fi, combo, opts, self.budget, kw=kw)

    def do(self, project, job):
        short, p, what = job
        fi = project.by_short(short)
        self.calls = 0
        self.project, self.fi = project, fi
        self.short, self.p = short, p
        self.where = (fi.module.rel, fi.node.lineno, fi.name)
        self.stats = {"options": {"%s.%s" % (short, p)}}
        fs = getattr(self, what)()
        self.stats["calls analysed"] = self.calls
        return fs, self.stats

    def combos(self, variants):
        extra = {self.p: variants}
        other = UNUSED_WITH.get((self.short, self.p))
        if other:
            extra[other] = [spec.NONEV]
        return list(spec.combos(self.fi, self.limit, extra=extra))

    def filter(self):
        for combo in spec.combos(self.fi, self.limit):
            good = self.run(self.project, self.fi, combo,
                            kw=named_filter(FILTERS[self.short]))
            if good.status != "ok":
                continue
            bad = self.run(self.project, self.fi, combo,
                           kw=named_filter("__sentinel_filter"))
            if bad.status == "ok":
                return [Finding(
                    "refused", self.short, self.where,
                    "%s completes with a filter that does not exist" %
                    self.short, {"call": bad.label()})]
        return []

    def named(self):
        p, names, lib = NAMED[self.short]
        out = []
        for x in names:
            for combo in list(spec.combos(self.fi, 1, extra={
                    p: spec.strs(x)}))[:1]:
                r = self.run(self.project, self.fi, combo)
                used = {e.info["name"] for e in r.events
                        if e.kind == "ext_call" and
                        e.info["name"].startswith(lib)}
                self.stats["documented values"] = self.stats.get(
                    "documented values", 0) + 1
                if lib + x not in used or len(used) > 1:
                    out.append(Finding(
                        "named", "%s.%s=%s" % (self.short, p, x), self.where,
                        "%s with %s=%r uses %s" % (
                            self.short, p, x,
                            ", ".join(sorted(used)) or "no window"), {}))
        return out

    def refused(self):
        vals = documented(self.fi).get(self.p, [])
        for a, b in zip(
                self.combos(foreign(self.fi, self.p, vals))[:self.most],
                self.combos(spec.variants(self.fi, self.p)[:1])):
            bad = self.run(self.project, self.fi, a)
            if bad.status != "ok":
                continue
            if self.run(self.project, self.fi, b).status == "ok":
                return [Finding(
                    "refused", "%s.%s" % (self.short, self.p), self.where,
                    "%s completes with an unsupported value of '%s'" % (
                        self.short, self.p), {"call": bad.label()})]
        return []

    def apart(self):
        fs = []
        short, p = self.short, self.p
        vals = documented(self.fi)[p]
        names = [x for x in vals if isinstance(x, str) or type(x) is int]
        seen, lib = set(), False
        for i, combo in enumerate(self.combos(anything(self.fi, p, vals))):
            if i >= self.few and (lib or len(names) - len(
                    [x for x in names if (str(x), False) in seen]) <= 1):
                break
            r = self.run(self.project, self.fi, combo, options=True,
                         cuda=None if p in FLAGS else False)
            seen |= {(c, part) for q, c, part in r.I.optcmp if q == p}
            lib = lib or p in r.I.optlib
        got = {c for c, part in seen}
        parts = {c for c, part in seen if part}
        left = [x for x in names if str(x) not in got and
                not any(c in str(x) for c in parts)]
        if len(left) > 1 and not lib:
            fs.append(Finding(
                "apart", "%s.%s" % (short, p), self.where,
                "%s: the values %s of '%s' are not told apart" % (
                    short, ", ".join(map(str, left)), p),
                {"compared with": sorted(got)}))
        low = {str(x).lower() for x in vals}
        for c in sorted(got - parts):
            if c.lower() not in low and c not in ("None", "True", "False"):
                fs.append(Finding(
                    "known", "%s.%s: %s" % (short, p, c), self.where,
                    "%s compares '%s' with %r, which is not one of the "
                    "documented values" % (short, p, c),
                    {"documented": [str(x) for x in vals]}))
        if p in FLAGS or p not in REFUSED.get(short, ()):
            return fs
        for x in names:
            self.stats["documented values"] = self.stats.get(
                "documented values", 0) + 1
            if not any(self.run(self.project, self.fi, combo).status ==
                       "ok" for combo in self.combos(constant(x))):
                fs.append(Finding(
                    "accepted", "%s.%s=%s" % (short, p, x), self.where,
                    "%s refuses the documented value %r of '%s'" % (
                        short, x, p), {}))
        return fs


CHECK = C22()
