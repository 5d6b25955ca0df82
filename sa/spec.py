"""What callers may pass to the public functions: abstract argument values.

For each parameter a list of variants; the first is the base one.  A variant
is (label, maker) where maker(B) builds the abstract value."""
import ast
import itertools
from .sym import Poly, C, INF
from . import sym as S
from .values import *
from . import models as M
from . import iomodel
from .interp import Interp, Dead, Budget


def declare(name, lo, hi, isint):
    """A symbol of this range; a second range gets another name."""
    nm, k = name, 2
    while nm in S.SYMS and S.SYMS[nm] != (lo, hi, isint):
        nm = "%s_%d" % (name, k)
        k += 1
    S.declare(nm, lo, hi, isint)
    return nm


def symp(name, lo=-INF, hi=INF, isint=True):
    return Poly.atom(("s", declare(name, lo, hi, isint)))


H = symp("H", 8)
W = symp("W", 8)
V = symp("V", 8)      # a second width
D = symp("D", 4)
NA = symp("nA", 4)
NP = symp("nP", 4)
TWO = C(2)


class B:
    """Builds the arguments of one run."""

    def __init__(self, I, st, pname, fi):
        self.I = I
        self.st = st
        self.p = pname
        self.fi = fi

    def arr(self, shape, dtype="f4", unit=None, tags=("meas",), lo=None,
            hi=None, nz=False, tag=""):
        i = VN("param", self.p, tag)
        if dtype == "f4" and "meas" in tags and self.I.opts.get("meas"):
            dtype = self.I.opts["meas"]
            lo = 0 if lo is None else lo
        self.st.heap[i] = ArrRec(
            tuple(x if isinstance(x, Poly) else C(x) for x in shape), dtype,
            lo=None if lo is None else C(lo), hi=None if hi is None else
            C(hi), nz=nz, unit=unit, vn=VN("in", self.p, tag),
            roots=frozenset([self.p]), tags=frozenset(tags) |
            {("arg", self.p)})
        return Ref(i, "arr")

    def dset(self, shape, tag=""):
        a = self.arr(shape, tags=("meas", "dset"), tag="d" + tag)
        i = VN("param", self.p, "obj", tag)
        self.st.heap[i] = ObjRec("dset", (
            ("arr", a), ("shape", Tup(Num(d if isinstance(d, Poly) else C(d),
                                          isint=True, ispy=True)
                                      for d in shape))),
            VN("in", self.p, "dset", tag), roots=frozenset([self.p]))
        return Ref(i, "obj")

    def lst(self, elts=None, n=None, elem=None, tag=""):
        i = VN("param", self.p, "list", tag)
        if elts is not None:
            self.st.heap[i] = ListRec(tuple(elts), C(len(elts)), None,
                                      frozenset([self.p]),
                                      VN("in", self.p, tag))
        else:
            self.st.heap[i] = ListRec(None, n, elem, frozenset([self.p]),
                                      VN("in", self.p, tag))
        return Ref(i, "list")

    def num(self, lo=-INF, hi=INF, isint=True, name=None, unit=None,
            tags=()):
        nm = declare(name or self.p, lo, hi, isint)
        return Num(Poly.atom(("s", nm)), isint=isint, ispy=True, unit=unit,
                   tags=frozenset(tags) | {("arg", self.p)},
                   nz=lo > 0)

    def path(self, ext="", tags=(), name=None, exists=None):
        nm = name or self.p
        vn = VN("inpath", nm, ext)
        tg = frozenset(["path?", ("user", nm), ("pb", vn)]) | frozenset(tags)
        tg = tg - {"path?"}
        if ext:
            base = VN("inpath", nm)
            v = M.mkstr((("str", base), ("const", ext)))
            return StrVal(None, v.vn, frozenset(
                [("user", nm), ("pb", v.vn)]) | frozenset(tags))
        iomodel.NOSUF.add(vn)
        return StrVal(None, vn, tg)

    def text(self, name=None):
        nm = name or self.p
        return StrVal(None, VN("instr", nm), frozenset([("user", nm)]))

    def fact(self, kind, p):
        self.st.add_fact(kind, p)


# ------------------------------------------------------------ maker helpers
def v(label, mk):
    return (label, mk)


NONEV = v("None", lambda b: NONE)
BOOLS = {True: [v("True", lambda b: TRUE), v("False", lambda b: FALSE)],
         False: [v("False", lambda b: FALSE), v("True", lambda b: TRUE)]}


def strs(*names):
    return [v(repr(n), lambda b, n=n: strv(n)) for n in names]


def ints(*vals):
    return [v(repr(n), lambda b, n=n: num(n)) for n in vals]


def integer(lo=1, hi=INF, name=None):
    return v("int>=%s" % lo, lambda b: b.num(lo, hi, True, name))


def real(lo=-INF, hi=INF, unit=None):
    return v("float", lambda b: b.num(lo, hi, False, unit=unit))


def arr(*shape, **kw):
    label = kw.pop("label", "array(%s)" % ", ".join(map(str, shape)))
    return v(label, lambda b: b.arr(shape, **kw))


def dset(*shape):
    return v("hdf dataset", lambda b: b.dset(shape))


def tup(*mk):
    return v("tuple", lambda b: Tup(m(b) for m in mk))


def path(ext="", tags=(), name=None):
    return v("path" + ext, lambda b: b.path(ext, tags, name))


def crop2(h, w, names=("c_top", "c_bottom", "c_left", "c_right")):
    def mk(b):
        ns = [b.num(0, INF, True, n) for n in names]
        lim = [h, h, w, w]
        for n, l in zip(ns, lim):
            b.fact("ge", l - n.sym - C(2))
        b.fact("ge", h - ns[0].sym - ns[1].sym - C(4))
        b.fact("ge", w - ns[2].sym - ns[3].sym - C(4))
        return Tup(ns)
    return [v("(0,0,0,0)", lambda b: Tup(num(0) for _ in range(4))),
            v("crop", mk)]


def crop3(d, h, w):
    def mk(b):
        ns = [b.num(0, INF, True, "c%d" % i) for i in range(6)]
        for k, l in enumerate((d, h, w)):
            b.fact("ge", l - ns[2 * k].sym - ns[2 * k + 1].sym - C(1))
        return Tup(ns)
    return [v("(0,)*6", lambda b: Tup(num(0) for _ in range(6))),
            v("crop", mk)]


def opaque_fn(label):
    return v("callable", lambda b: Func(("opaque", label)))


def bounded(mk, *facts):
    """Variant with side conditions: facts are functions sym -> (kind, p)."""
    label, f = mk

    def g(b):
        r = f(b)
        for k in facts:
            b.fact(*k(r.sym))
        return r
    return (label, g)


IMG = arr(H, W)
FLAT = arr(H, W, tags=("flat",))
DARK = arr(H, W, tags=("dark",))
ANG = arr(H, unit="rad", tags=("angles",), label="angles(H)")
NCORE = [NONEV, v("1", lambda b: num(1)),
         v("int>=2", lambda b: b.num(2, INF, True))]
BLOCK2 = [tup(lambda b: b.num(1, 32, True, "bx"),
              lambda b: b.num(1, 32, True, "by"))]
FILTERS = ("hann", "bartlett", "blackman", "hamming", "nuttall", "parzen",
           "triang")
IDX_H = v("index", lambda b: within(b, b.num(0, INF, True), H))
CEN = v("center", lambda b: within(b, b.num(0, INF, False), W))


def within(b, n, size):
    b.fact("ge", size - n.sym - C(1))
    return n


def list_img(b, k=3, shape=(H, W)):
    return b.lst([b.arr(shape, tag="e%d" % i) for i in range(k)])


def list_img_n(b, shape=(H, W)):
    return b.lst(None, symp("nlist", 2), b.arr(shape, tag="e"))


def pathlist(ext):
    def mk(b):
        e = b.path(ext, name=b.p + "[]")
        return b.lst(None, symp("nlist", 2), e)
    return mk


# --------------------------------------------------- by parameter name
PARAM = {
    "sinogram": [IMG], "sino_180": [IMG], "sino_360": [IMG],
    "sino_flip": [IMG], "sino_comp": [IMG], "mat": [IMG], "proj": [IMG],
    "image": [IMG], "grad_x": [IMG], "grad_y": [IMG], "mat1": [IMG],
    "mat2": [IMG], "ref_mat": [IMG], "rec_img": [arr(W, W)],
    "sinograms": [arr(H, D, W)],
    "ref_stack": [arr(D, H, W)], "sam_stack": [arr(D, H, W)],
    "tomo_data": [arr(D, H, W), dset(D, H, W)],
    "projections": [arr(D, H, W)],
    "image_stack": [arr(D, H, W)],
    "weight_map": [NONEV, IMG],
    "angles": [NONEV, ANG],
    "ncore": NCORE,
    "prefer": strs("threads", "processes"),
    "block": BLOCK2,
    "center": [CEN],
    "ratio": [real(0, 1)],
    "pad": [integer(0)],
    "pad_mode": strs("edge", "reflect", "constant"),
    "mode": strs("reflect", "constant", "nearest"),
    "filter_name": [v("None", lambda b: NONE)] + strs("hann"),
    "size": [integer(1)], "sigma": [integer(1)], "order": [integer(1)],
    "num_chunk": [integer(1)], "snr": [real(1.1)], "level": [integer(1)],
    "drop_ratio": [real(0, 0.8)], "u": [integer(1)], "n": [integer(1)],
    "v": [integer(0)], "smooth_strength": [integer(1)],
    "la_size": [integer(1)], "sm_size": [integer(1)],
    "dim": ints(1, 2), "kind": strs("linear", "cubic", "quintic"),
    "wavelet_name": strs("db9"), "window_name": strs("gaussian", "butter"),
    "alpha": [real(0)], "threshold": [real(0)], "max_size": [integer(1)],
    "start": [real(0)], "stop": [real(0)], "step": [real(0.01)],
    "radius": [integer(1)], "width": [integer(8)], "height": [integer(8)],
    "win_width": [integer(4)], "side": ints(0, 1),
    "index": [IDX_H], "start_index": [IDX_H], "stop_index": [IDX_H],
    "slice_index": [IDX_H],
    "xcenter": [real(0)], "ycenter": [real(0)],
    "list_fact": [v("list", lambda b: b.lst(
        None, symp("nfact", 1), Num(S.named_opaque("fact"), ispy=True)))],
    "nbit": ints(16, 8), "percentile": [tup(
        lambda b: b.num(0, 100, False, "pc0"),
        lambda b: b.num(0, 100, False, "pc1"))],
    "minmax": [NONEV, tup(lambda b: b.num(-INF, INF, False, "mn"),
                          lambda b: b.num(-INF, INF, False, "mx"))],
    "skip": [integer(1)], "key_path": [v("key", lambda b: b.text())],
    "data_key": [v("key", lambda b: b.text())],
    "image_key": [v("key", lambda b: b.text())],
    "ref_key": [v("key", lambda b: b.text())],
    "sam_key": [v("key", lambda b: b.text())],
    "pattern": [v("str", lambda b: b.text())],
    "prefix": [v("str", lambda b: b.text())],
    "cell_size": [integer(1), tup(lambda b: b.num(1, INF, True, "cs0"),
                                  lambda b: b.num(1, INF, True, "cs1"))],
    "output_path": [path()], "output_folder": [path()],
    "scan_type": strs("180", "360"), "sino_type": strs("180", "360"),
    "flat": [NONEV, FLAT], "dark": [NONEV, DARK], "mask": [NONEV, IMG],
    "flat_field": [NONEV, FLAT], "dark_field": [NONEV, DARK],
    "crop": crop2(H, W),
    "pitch": [real(0.001)], "pixel_size": [real(0.0001)],
    "y_start": [real(0)], "y_stop": [real(0)], "num_proj": [integer(2)],
    "win_size": [integer(3)], "margin": [integer(1)],
    "list_ij": [v("points", lambda b: b.lst([
        b.lst(None, symp("npts", 1), b.num(0, INF, True, "pt_i"), "i"),
        b.lst(None, symp("npts", 1), b.num(0, INF, True, "pt_j"), "j")]))],
    "global_value": strs("mixed", "median", "mean"),
    "method": strs("diff", "poly_fit"),
    "bgr": strs("bright", "dark"),
    "size_opt": strs("max", "min", "median", "mean"),
    "chunk_size": [integer(1)],
    "zoom": [real(0.01)], "iteration": [integer(1)],
    "total_width": [NONEV, integer(8)],
    "axis": ints(0, 1),
    "x": [arr(NP, tags=())], "y": [arr(NP, tags=())],
    "win_for": [NONEV, arr(H.scale(2), W.scale(2), tags=(), nz=True)],
    "win_back": [NONEV, arr(H.scale(2), W.scale(2), tags=(), nz=True)],
    "hor_drop": [NONEV, integer(0)], "ver_drop": [NONEV, integer(0)],
    "num_use": [NONEV, integer(1)],
    "start_idx": [integer(0)],
    "xlist": [arr(W, tags=())], "ylist": [arr(W, tags=())],
    "x_mat": [arr(NP, W, tags=())], "y_mat": [arr(NP, W, tags=())],
    "q": [real(0.001)], "strength_ratio": [real(0)],
    "stripe_type": strs("partial", "full", "dead", "fluctuating"),
    "position": [integer(0)],
    "length": [real(0.1), tup(lambda b: b.num(0.1, INF, False, "len0"),
                              lambda b: b.num(0.1, INF, False, "len1"))],
    "metric_function": [NONEV, opaque_fn("metric")],
    "metric": strs("entropy", "sharpness", "autocorrelation"),
    "ramp_filter": strs("after", "before"),
    "masking": BOOLS[False],
    "invert_metric": BOOLS[False],
    "win_1d": [arr(W, tags=())],
    "list_mask": [arr(W, tags=(), lo=0, hi=1)],
    "list_metric": [arr(NP, tags=())],
    "list_data": [arr(NP, tags=())],
}

DEG = real(-INF, INF, "deg")
DEGARR = arr(D, unit="deg", tags=("angles",), label="angles(D) degree")
CENTER2 = [real(0), tup(lambda b: b.num(0, INF, False, "cen0"),
                        lambda b: b.num(0, INF, False, "cen1"))]
SIZE = [integer(8)]
SQ = arr(W, W)
OVERLAPS = v("list of (overlap, side)", lambda b: b.lst(
    [Tup([overlap_of(b, "ov%d" % i), num(i % 2)])
     for i in range(2)]))
COEF2 = v("coords", lambda b: Tup([b.arr((W, W), tags=(), tag="c0"),
                                   b.arr((W, W), tags=(), tag="c1")]))


def win3(h, w):
    return [NONEV, v("3 windows", lambda b: b.lst(
        [b.arr((h, w), tags=(), tag="w%d" % i) for i in range(3)]))]


def overlap_of(b, name=None):
    n = b.num(1, INF, False, name)
    b.fact("ge", W - n.sym - C(1))
    b.fact("ge", V - n.sym - C(1))
    return n


WAVE = [v("wavelet data", lambda b: b.lst(
    [b.arr((symp("wh0", 2), symp("ww0", 2)), tag="w0")] +
    [Tup([b.arr((symp("wh%d" % k, 2), symp("ww%d" % k, 2)),
                tag="w%d%d" % (k, j)) for j in range(3)])
     for k in (1, 2)]))]
TIFDIR = path("", ("tifdir",))
HDF = path(".hdf", ("hdf",))
TIF = path(".tif", ("tif",))
VOLIN = [arr(D, H, W), HDF, TIFDIR, dset(D, H, W)]
OUTP = [path("", ("outdir",)), path(".hdf", ("hdf",))]
CROP6 = crop3(D, H, W)
META = v("metadata", lambda b: b.arr((NP, 2), tags=()))
META3 = v("grid metadata", lambda b: b.arr((NP, symp("nQ", 1), 2), tags=()))
CEN_PAIR = [CEN, tup(lambda b: within(b, b.num(1, INF, False, "ovl"), W),
                     lambda b: num(0)),
            tup(lambda b: within(b, b.num(1, INF, False, "ovl"), W),
                lambda b: num(1))]
BLOCK1 = [integer(1, 32)]
KEYNONE = [NONEV, v("key", lambda b: b.text())]

# ------------------------------------------------ by function and parameter
OVER = {
    "calculation.make_inverse_double_wedge_mask": {},
    "calculation.calculate_center_metric": {"mask": [arr(H.scale(2), W)]},
    "calculation.coarse_search_cor": {
        "start": [integer(0)], "stop": [integer(0)]},
    "calculation.find_center_vo": {
        "start": [NONEV, real(0)], "stop": [NONEV, real(0)],
        "radius": [real(0.5)]},
    "calculation.fine_search_cor": {"radius": [real(0.5)]},
    "calculation.downsample_cor": {
        "dsp_fact0": [integer(1)], "dsp_fact1": [integer(1)]},
    "calculation.search_overlap": {"mat2": [arr(H, V)]},
    "calculation.find_overlap": {"mat2": [arr(H, V)],
                                 "side": ints(0, 1)[:0] + [NONEV] +
                                 ints(0, 1)},
    "calculation.find_overlap_multiple": {
        "list_mat": [v("list", list_img)], "side": [NONEV] + ints(0, 1)},
    "calculation.find_center_360": {"side": [NONEV] + ints(0, 1)},
    "calculation.find_center_projection": {
        "win_width": [NONEV, integer(4)],
        "chunk_height": [NONEV, integer(1), v(
            "fraction", lambda b: b.num(0.05, 0.95, False, "chf"))],
        "start_row": [NONEV, integer(0)]},
    "conversion.make_weight_matrix": {"overlap": [v(
        "overlap", lambda b: within(b, within(b, b.num(1, INF, True), W),
                                    V))],
                                      "mat2": [arr(H, V)]},
    "conversion.stitch_image": {
        "mat2": [arr(H, V)],
        "overlap": [v("overlap", overlap_of)],
        "wei_mat1": [NONEV, IMG], "wei_mat2": [NONEV, arr(H, V)]},
    "conversion.join_image": {"mat2": [arr(H, V)],
                              "joint_width": [real(1)]},
    "conversion.stitch_image_multiple": {
        "list_mat": [v("list", list_img)], "list_overlap": [OVERLAPS]},
    "conversion.join_image_multiple": {
        "list_mat": [v("list", list_img)], "list_joint": [OVERLAPS]},
    "conversion.convert_sinogram_360_to_180": {
        "cor": CEN_PAIR,
        "wei_mat1": [NONEV, arr(S.floordiv(H, TWO) + C(1), W)],
        "wei_mat2": [NONEV, arr(S.floordiv(H, TWO) + C(1), W)]},
    "conversion.extend_sinogram": {"cor": CEN_PAIR},
    "conversion.generate_sinogram_helical_scan": {
        "angles": [NONEV, DEGARR], "index": [integer(0)]},
    "conversion.generate_full_sinogram_helical_scan": {
        "angles": [NONEV, DEGARR], "index": [integer(0)]},
    "correction.flat_field_correction": {
        "proj": [arr(D, H, W), IMG], "flat": [FLAT, arr(W, tags=("flat",))],
        "dark": [DARK, arr(W, tags=("dark",))]},
    "correction.unwarp_sinogram": {"data": [arr(D, H, W), dset(D, H, W)]},
    "correction.unwarp_sinogram_chunk": {
        "data": [arr(D, H, W), dset(D, H, W)]},
    "correction.mtf_deconvolution": {"window": [IMG], "pad": [integer(0)]},
    "correction.generate_tilted_sinogram": {
        "data": [arr(D, H, W), dset(D, H, W)], "angle": [DEG]},
    "correction.generate_tilted_sinogram_chunk": {
        "data": [arr(D, H, W), dset(D, H, W)], "angle": [DEG]},
    "correction.generate_tilted_profile_line": {"angle": [DEG]},
    "correction.generate_tilted_profile_chunk": {"angle": [DEG]},
    "correction.non_linear_function": {"intensity": [real(0, 1)],
                                       "n": [real(1.01)]},
    "correction.beam_hardening_correction": {"n": [real(1.01)]},
    "correction.upsample_sinogram": {"scale": [integer(2)]},
    "filtering.make_fresnel_window": {"dim": ints(1, 2)},
    "filtering.fresnel_filter": {"window": [NONEV, IMG]},
    "phase.get_quality_map": {"size": [integer(2)]},
    "phase.unwrap_phase_based_cosine_transform": {"window": [NONEV, IMG]},
    "phase.reconstruct_surface_from_gradient_FC_method": {
        "window": win3(H.scale(2), W.scale(2))},
    "phase.reconstruct_surface_from_gradient_SCS_method": {
        "window": win3(H + symp("pad", 0).scale(2),
                       W + symp("pad", 0).scale(2))},
    "filtering.double_wedge_filter": {
        "center": [v("center", lambda b: within(b, b.num(1, INF, False), W))],
        "mask": [NONEV, arr(H, W + symp("pad", 0).scale(2))]},
    "phase.find_shift_between_image_stacks": {"block": BLOCK1},
    "phase.find_shift_between_sample_images": {
        "block": BLOCK1, "sr_shifts": [arr(D, 2, tags=())]},
    "phase.align_image_stacks": {
        "sr_shifts": [arr(D, 2, tags=())],
        "sam_shifts": [NONEV, arr(D, 2, tags=())]},
    "phase.get_transmission_dark_field_signal": {
        "x_shifts": [IMG], "y_shifts": [IMG],
        "margin": [NONEV, integer(1)]},
    "phase.retrieve_phase_based_speckle_tracking": {
        "find_shift": strs("correl", "umpa"), "gpu": "gpu3",
        "surf_method": strs("SCS", "FC"),
        "window": win3(symp("hw3", 8), symp("ww3", 8)),
        "filter_name": strs("hamming") + [NONEV],
        "chunk_size": [integer(1), NONEV]},
    "correlation.find_local_shifts": {
        "mat": [IMG, arr(D, H, W)], "ref_mat": [IMG, arr(D, H, W)],
        "gpu": "gpu3", "chunk_size": [integer(1), NONEV]},
    "correlation.find_local_shifts_umpa": {
        "mat": [arr(D, H, W)], "ref_mat": [arr(D, H, W)],
        "gpu": "gpu3", "chunk_size": [integer(1), NONEV],
        "filter_name": strs("hamming") + [NONEV]},
    "correlation.find_global_shift_based_local_shifts": {
        "block": BLOCK1, "list_ij": [PARAM["list_ij"][0], NONEV],
        "num_point": [NONEV, integer(1)]},
    "correlation.generate_correlation_map": {
        "ref_mat": [IMG, arr(D, H, W)],
        "mat": [arr(symp("h2", 3), symp("w2", 3)),
                arr(D, symp("h2", 3), symp("w2", 3))]},
    "correlation.find_shift_based_correlation_map": {
        "ref_mat": [IMG, arr(D, H, W)], "mat": [IMG, arr(D, H, W)],
        "axis": [NONEV] + ints(0, 1)},
    "correlation.normalize_image": {"mat": [IMG, arr(D, H, W)]},
    "correlation.locate_peak": {"size": [integer(1)]},
    "removal.remove_zinger": {"size": [integer(1)]},
    "removal.generate_blob_mask": {"flat": [IMG]},
    "removal.remove_blob_1d": {"sino_1d": [arr(W)],
                               "mask_1d": [arr(W, tags=(), lo=0, hi=1)]},
    "removal.remove_blob": {"mask": [arr(H, W, tags=(), lo=0, hi=1)]},
    "reconstruction.make_smoothing_window": {
        "filter_name": strs(*FILTERS)},
    "reconstruction.make_2d_ramp_window": {
        "filter_name": [NONEV] + strs("hann")},
    "reconstruction.apply_ramp_filter": {
        "ramp_win": [NONEV, v("window", lambda b: b.arr((H, symp("Wp", 8)),
                                                        tags=()))],
        "pad": [NONEV, integer(0)]},
    "reconstruction.back_projection_gpu": {"angles": [ANG]},
    "reconstruction.back_projection_gpu_chunk": {"angles": [ANG]},
    "reconstruction.back_projection_cpu": {"angles": [ANG]},
    "reconstruction.apply_circular_ramp_filter": {
        "ramp_win": [NONEV, v("window", lambda b: b.arr(
            (symp("Wp", 8), symp("Wp", 8)), tags=()))],
        "pad": [NONEV, integer(0)]},
    "reconstruction.generate_mapping_coordinate": {
        "width_sino": SIZE, "height_sino": SIZE, "width_rec": SIZE,
        "height_rec": SIZE},
    "reconstruction.fbp_reconstruction": "recon",
    "reconstruction.bpf_reconstruction": "recon",
    "reconstruction.dfi_reconstruction": "recon",
    "reconstruction.gridrec_reconstruction": {
        "angles": [NONEV, ANG], "pad": [v("True", lambda b: TRUE),
                                        v("False", lambda b: FALSE),
                                        integer(0)],
        "filter_name": strs("hann") + [NONEV], "filter_par": [real(0)],
        "sinogram": [IMG, arr(H, D, W)]},
    "reconstruction.astra_reconstruction": "recon",
    "reconstruction.find_center_based_slice_metric": {
        "sinogram": [IMG], "method": strs("fbp", "bpf", "dfi", "gridrec",
                                          "astra"),
        "sigma": [integer(1), v("0", lambda b: num(0))],
        "filter_name": strs("hann") + [NONEV], "radius": [real(0.5)]},
    "reconstruction.find_center_visual_slices": {
        "output": [path()], "method": strs("fbp", "bpf", "dfi", "gridrec",
                                           "astra"),
        "filter_name": strs("hann") + [NONEV]},
    "vertrec.vertical_back_projection_cpu": "vbp",
    "vertrec.vertical_back_projection_cpu_chunk": "vbp",
    "vertrec.vertical_back_projection_gpu": "vbp",
    "vertrec.vertical_back_projection_gpu_chunk": "vbp",
    "vertrec.vertical_reconstruction": "vrec",
    "vertrec.vertical_reconstruction_multiple": "vrec",
    "vertrec.vertical_reconstruction_different_angles": "vrec",
    "vertrec.find_center_vertical_slice": "vrec",
    "vertrec.find_center_visual_vertical_slices": "vrec",
    "calibration.normalize_background_based_fft": {
        "pad": [NONEV, integer(0)]},
    "calibration.binarize_image": {"threshold": [NONEV, real(0)]},
    "calibration.calculate_distance": {"threshold": [NONEV, real(0)]},
    "calibration.get_dot_size": {},
    "calibration.check_dot_size": {"min_size": [real(0)],
                                   "max_size": [real(0)]},
    "calibration.select_dot_based_size": {"dot_size": [real(0)]},
    "calibration.find_tilt_roll": {"method": strs("ellipse", "linear")},
    "simulation.make_elliptic_mask": {
        "size": SIZE, "center": CENTER2, "angle": [DEG]},
    "simulation.make_rectangular_mask": {
        "size": SIZE, "center": CENTER2, "angle": [DEG]},
    "simulation.make_triangular_mask": {
        "size": SIZE, "center": CENTER2, "angle": [DEG]},
    "simulation.make_line_target": {"size": SIZE},
    "simulation.make_face_phantom": {"size": SIZE},
    "simulation.make_sinogram": {
        "mat": [SQ], "angles": [arr(NA, unit="rad", tags=("angles",))],
        "pad_rate": [real(0)]},
    "simulation.add_noise": {"noise_ratio": [real(0)]},
    "simulation.convert_to_Xray_image": {"global_max": [NONEV, real(0)]},
    "utility.parallel_process_slices": {
        "data": [arr(D, H, W), dset(D, H, W)],
        "method": [opaque_fn("method")],
        "parameters": [v("list", lambda b: b.lst(
            [b.num(-INF, INF, False, "par0")]))],
        "axis": ints(1, 0, 2)},
    "utility.mapping": {"x_mat": [arr(NP, V, tags=())],
                        "y_mat": [arr(NP, V, tags=())]},
    "utility.sort_backward": {"mat_index": [arr(H, W, dtype="int",
                                                tags=())]},
    "utility.separate_frequency_component": {
        "window": [NONEV, v("1d window", lambda b: b.arr((W,), tags=())),
                   v("dict", lambda b: mkdict(b, {"name": strv("gaussian"),
                                                  "sigma": num(5)}))]},
    "utility.make_2d_damping_window": {"size": [integer(1)]},
    "utility.apply_wavelet_reconstruction": {
        "data": WAVE, "ignore_level": [NONEV, integer(0)]},
    "utility.apply_wavelet_decomposition": {"level": [NONEV, integer(1)]},
    "utility.check_level": {"level": [NONEV, integer(1), v(
        "list", lambda b: b.lst([num(1), num(2)]))],
        "n_level": [integer(1)]},
    "utility.apply_filter_to_wavelet_component": {
        "data": WAVE, "level": [NONEV, integer(1)], "order": ints(1, 0, 2),
        "method": strs("gaussian_filter"),
        "para": [v("[(1,11)]", lambda b: b.lst(
            [Tup([num(1), num(11)])]))]},
    "utility.interpolate_inside_stripe": {},
    "utility.rectangular_from_polar": {
        "width_reg": SIZE, "height_reg": SIZE, "width_pol": SIZE,
        "height_pol": SIZE},
    "utility.polar_from_rectangular": {
        "width_reg": SIZE, "height_reg": SIZE, "width_pol": SIZE,
        "height_pol": SIZE},
    "utility.transform_slice_forward": {"mat": [SQ],
                                        "coord_mat": [NONEV, COEF2]},
    "utility.transform_slice_backward": {"mat": [SQ],
                                         "coord_mat": [NONEV, COEF2]},
    "utility.make_2d_gaussian_window": {"sigma_x": [integer(1)],
                                        "sigma_y": [integer(1)]},
    "utility.apply_gaussian_filter": {
        "sigma_x": [integer(1)], "sigma_y": [integer(1)],
        "pad": [NONEV, integer(0)], "mode": [NONEV] + strs("reflect")},
    "utility.apply_1d_regularizer": {"list_data": [arr(W, tags=())],
                                     "sijmat": [arr(W, W, tags=())]},
    "utility.fix_non_sample_areas": {
        "overlap_metadata": [v("grid metadata", lambda b: b.arr(
            (NP, symp("nQ", 1), 2), tags=()))],
        "direction": strs("horizontal", "vertical")},
    "utility.locate_slice": {"slice_idx": [integer(0)],
                             "overlap_metadata": [META3]},
    "utility.locate_slice_chunk": {
        "slice_start": [integer(0)], "slice_stop": [integer(0)],
        "overlap_metadata": [META3]},
    "utility.generate_spiral_positions": {
        "step": [integer(1)], "num_pos": [integer(1)],
        "spiral_shape": [real(0.1)]},
    "utility.find_center_visual_sinograms": {"output": [path()]},
    "utility.make_circle_mask": {},
    "utility.calculate_regularization_coefficient": {},
    "postprocessing.get_statistical_information": {},
    "postprocessing.get_statistical_information_dataset": {
        "input_": VOLIN, "crop": CROP6, "key_path": KEYNONE},
    "postprocessing.downsample": {
        "mat": [IMG],
        "cell_size": [integer(1), v("tuple", lambda b: Tup(
            [b.num(1, INF, True, "cs%d" % i) for i in range(2)]))],
        "method": strs("mean", "median", "max", "min")},
    "postprocessing.downsample_dataset": {
        "input_": VOLIN, "output": OUTP, "crop": CROP6,
        "key_path": KEYNONE, "skip": [NONEV, integer(1)],
        "cell_size": [integer(1), v("tuple3", lambda b: Tup(
            [b.num(1, INF, True, "cs%d" % i) for i in range(3)]))],
        "method": strs("mean", "median", "max", "min")},
    "postprocessing.rescale_dataset": {
        "input_": VOLIN, "output": OUTP, "crop": CROP6,
        "key_path": KEYNONE, "skip": [NONEV, integer(1)]},
    "postprocessing.reslice_dataset": {
        "input_": [HDF, TIFDIR], "output": OUTP, "crop": CROP6,
        "axis": ints(1, 2),
        "key_path": KEYNONE, "skip": [NONEV, integer(1)],
        "rotate": [v("0", lambda b: num(0)), DEG], "chunk": [integer(1)],
        "mode": strs("constant", "reflect")},
    "postprocessing.remove_ring_based_fft": {"mat": [SQ]},
    "postprocessing.remove_ring_based_wavelet_fft": {"mat": [SQ]},
    "postprocessing.rescale": {"mat": [IMG]},
    "loadersaver.load_image": {"file_path": [TIF, path(".png")]},
    "loadersaver.get_hdf_information": {"file_path": [HDF]},
    "loadersaver.find_hdf_key": {"file_path": [HDF]},
    "loadersaver.load_hdf": {"file_path": [HDF]},
    "loadersaver.make_folder": {"file_path": [TIF]},
    "loadersaver.make_folder_name": {
        "folder_path": [path()], "name_prefix": [v("str", lambda b:
                                                   b.text())],
        "zero_prefix": [integer(1)]},
    "loadersaver.make_file_name": {"file_path": [TIF]},
    "loadersaver.find_file": {"path": [v("pattern", lambda b: b.text())]},
    "loadersaver.save_image": {"file_path": [TIF, path(".png")]},
    "loadersaver.open_hdf_stream": {
        "file_path": [HDF], "data_shape": [tup(
            lambda b: b.num(1, INF, True, "s0"),
            lambda b: b.num(1, INF, True, "s1"),
            lambda b: b.num(1, INF, True, "s2"))],
        "data_type": strs("float32")},
    "loadersaver.load_distortion_coefficient": {"file_path": [path(".txt")]},
    "loadersaver.save_distortion_coefficient": {"file_path": [path(".txt")]},
    "loadersaver.get_hdf_tree": {"file_path": [HDF],
                                 "output": [NONEV, path(".txt")]},
    "loadersaver.get_reference_sample_stacks_dls": {
        "proj_idx": [integer(0)], "list_path": [v("list", pathlist(".hdf"))],
        "data_key": KEYNONE, "image_key": KEYNONE},
    "loadersaver.get_reference_sample_stacks": {
        "proj_idx": [integer(0)], "ref_path": [v("list", pathlist(".hdf"))],
        "sam_path": [v("list", pathlist(".hdf"))]},
    "loadersaver.get_tif_stack": {"file_base": [TIFDIR],
                                  "idx": [NONEV, integer(0)]},
    "loadersaver.get_image_stack": {
        "idx": [integer(0), NONEV],
        "paths": [v("list hdf", pathlist(".hdf")), TIFDIR,
                  v("list dirs", pathlist(""))],
        "data_key": KEYNONE},
    "loadersaver.load_image_multiple": {
        "list_path": [v("list", pathlist(".tif"))]},
    "loadersaver.save_image_multiple": {
        "list_path": [path(), v("list", pathlist(".tif"))],
        "axis": ints(0, 1, 2)},
    "converter.convert_tif_to_hdf": {"input_path": [TIFDIR],
                                     "output_path": [HDF],
                                     "pattern": [NONEV, v("str", lambda b:
                                                          b.text())],
                                     "key_path": [v("key", lambda b:
                                                    b.text())]},
    "converter.extract_tif_from_hdf": {
        "input_path": [HDF], "output_path": [path()],
        "index": [tup(lambda b: num(0), lambda b: num(-1), lambda b: num(1)),
                  integer(0), tup(lambda b: b.num(0, INF, True, "i0"),
                                  lambda b: b.num(0, INF, True, "i1"),
                                  lambda b: b.num(1, INF, True, "i2"))],
        "axis": ints(0, 1, 2)},
}

GROUPS = {
    "recon": {
        "angles": [NONEV, ANG], "ramp_win": [NONEV, v(
            "window", lambda b: b.arr((H, symp("Wp", 8)), tags=()))],
        "pad": [NONEV, integer(0)], "filter_name": strs("hann") + [NONEV],
        "pad_rate": [real(0)], "filter_par": [real(0)],
        "method": strs("FBP_CUDA", "SIRT_CUDA", "FBP", "SIRT"),
        "num_iter": [integer(1)], "sinogram": [IMG, arr(H, D, W)]},
    "vbp": {"angles": [arr(D, unit="rad", tags=("angles",),
                           label="angles(D)")],
            "center": [v("center", lambda b: within(
                b, b.num(0, INF, False), W))]},
    "vrec": {"angles": [NONEV, arr(D, unit="rad", tags=("angles",),
                                   label="angles(D)")],
             "alpha": [DEG], "projections": [arr(D, H, W), dset(D, H, W)],
             "alphas": [v("list deg", lambda b: b.lst(
                 None, NP, b.num(-INF, INF, False, "alpha_k", "deg")))],
             "slice_indices": [v("list", lambda b: b.lst(
                 None, NP, b.num(0, INF, True, "slice_k")))],
             "proj_start": [v("0", lambda b: num(0)), integer(0)],
             "proj_stop": [v("-1", lambda b: num(-1)), integer(1)],
             "pad": [NONEV, integer(0)],
             "filter_name": strs("hann") + [NONEV],
             "sigma": [integer(1), v("0", lambda b: num(0))],
             "step_index": [integer(1)]},
}
GPU = {"2": [v("False", lambda b: FALSE), v("True", lambda b: TRUE)],
       "3": [v("False", lambda b: FALSE), v("True", lambda b: TRUE),
             v("'hybrid'", lambda b: strv("hybrid"))]}


def mkdict(b, items):
    i = VN("param", b.p, "dict")
    b.st.heap[i] = DictRec(tuple(items.items()), True, None,
                           frozenset([b.p]), VN("in", b.p, "dict"))
    return Ref(i, "dict")


def variants(fi, p):
    """Variants of one parameter."""
    o = OVER.get(fi.short, {})
    if isinstance(o, str):
        o = GROUPS[o]
    if p == "projections" and "find_center" in fi.short:
        return [arr(D, H, W)]
    r = o.get(p)
    if r == "gpu3":
        return GPU["3"]
    if r is not None:
        return r
    d = fi.defaults.get(p)
    if p == "gpu":
        return GPU["2"]
    if isinstance(d, ast.Constant) and isinstance(d.value, bool):
        return BOOLS[d.value]
    r = PARAM.get(p)
    if r is not None:
        return r
    if isinstance(d, ast.Constant):
        c = d.value
        if c is None:
            return [NONEV]
        if isinstance(c, int):
            return [integer(0)]
        if isinstance(c, float):
            return [real()]
        if isinstance(c, str):
            return strs(c)
    if d is not None:
        return [v("default", lambda b: b.I.default_value(
            b.fi, b.p, b.st))]
    return [v("any", lambda b: Top(VN("in", b.p), frozenset(
        [("root", b.p)])))]


def is_none_default(fi, p):
    d = fi.defaults.get(p)
    return isinstance(d, ast.Constant) and d.value is None


def params_of(fi):
    return [p for p in list(fi.params) + list(fi.kwonly) if p != "self"]


def nd_of(x):
    return x[0].count(",") + 1 if x[0].startswith("array(") else 0


def same_dim(a, b):
    def f(d, vs):
        """Both images or both stacks."""
        if nd_of(d[a]) != nd_of(d[b]):
            for x in vs[b]:
                if nd_of(x) == nd_of(d[a]):
                    d[b] = x
        return d
    return f


# arguments whose kinds go together
TOGETHER = {
    "correlation.generate_correlation_map": same_dim("ref_mat", "mat"),
    "correlation.find_local_shifts": same_dim("ref_mat", "mat"),
    "correlation.find_shift_based_correlation_map": same_dim("ref_mat",
                                                             "mat"),
}


def combos(fi, limit=24, skip=(), extra=None):
    fix = TOGETHER.get(fi.short)
    if fix is None or not set(fix.__closure__ and [
            c.cell_contents for c in fix.__closure__] or []) <= set(
                params_of(fi)):
        yield from combos_(fi, limit, skip, extra)
        return
    vs = {p: (extra or {}).get(p) or variants(fi, p) for p in params_of(fi)}
    for d in combos_(fi, limit, skip, extra):
        yield fix(d, vs)


def combos_(fi, limit=24, skip=(), extra=None):
    """Choices of variants: full product when small, else one at a time."""
    ps = params_of(fi)
    vs = {p: (extra or {}).get(p) or variants(fi, p) for p in ps}
    multi = [p for p in ps if len(vs[p]) > 1 and p not in skip]
    base = {p: vs[p][0] for p in ps}
    total = 1
    for p in multi:
        total *= len(vs[p])
    if total <= limit:
        for c in itertools.product(*[vs[p] for p in multi]):
            d = dict(base)
            d.update(zip(multi, c))
            yield d
        return
    yield base
    for p in multi:
        for x in vs[p][1:]:
            d = dict(base)
            d[p] = x
            yield d
    d = {p: vs[p][-1] for p in ps}
    yield d


FILE_WORDS = {
    "delete": {"rmtree", "remove", "unlink", "rmdir", "removedirs", "move",
               "rename", "replace", "mkdtemp", "mkstemp", "TemporaryDirectory",
               "NamedTemporaryFile"},
    "write": {"File", "open", "save", "savetxt", "write_text", "write_bytes",
              "mkdir", "makedirs", "copy", "copyfile", "copytree", "tofile",
              "imwrite", "imsave"},
    "open": {"File", "open", "fdopen", "TiffFile", "memmap"},
    "read": {"File", "open", "load", "imread", "fromfile", "memmap"},
    "list": {"glob", "iglob", "listdir", "scandir", "iterdir", "rglob"},
}
FILE_WORDS["write"] |= FILE_WORDS["delete"]
STDLIB_FS = {"os", "shutil", "pathlib", "tempfile", "h5py", "PIL", "io"}


def touches_files(project, fi, what="write"):
    """Can the call reach a file operation of this kind (by name)?"""
    ms = project.mentions(fi)
    return bool(ms & FILE_WORDS[what]) and (
        bool(ms & (STDLIB_FS | {"glob"})) or "open" in ms)


def _nested(b):
    """{"<user key>": 1-D array}"""
    a = b.arr((Poly.sym("nopt", 1),), tag="opt")
    i = VN("param", b.p, "dict")
    b.st.heap[i] = DictRec((), False, a, frozenset([b.p]),
                           VN("in", b.p, "dict"))
    return Ref(i, "dict")


KWARGS = {"loadersaver.open_hdf_stream": {"options": _nested}}


class Run:
    """One analysed call."""
    __slots__ = ("fi", "combo", "I", "value", "state", "bound", "status",
                 "events", "init")

    def label(self):
        ds = []
        for p, x in self.combo.items():
            if len(variants(self.fi, p)) > 1:
                ds.append("%s=%s" % (p, x[0]))
        return "%s(%s)" % (self.fi.short, ", ".join(ds))


def run(project, fi, combo, opts=None, budget=400000, kw=None, init=None):
    I = Interp(project, dict(opts or {}), budget)
    st = State()
    r = Run()
    r.fi = fi
    r.combo = combo
    r.I = I
    bound = {}
    st.heap[VN("argslot")] = ObjRec("args")
    for p, (label, mk) in combo.items():
        bound[p] = mk(B(I, st, p, fi))
    if fi.vararg:
        bound[fi.vararg] = Tup(())
    if fi.kwarg:
        i = VN("param", "**" + fi.kwarg)
        items = tuple((kw or KWARGS.get(fi.short, {})).items())
        st.heap[i] = DictRec(tuple((k, x(B(I, st, k, fi)))
                                   for k, x in items), True, None)
        bound[fi.kwarg] = Ref(i, "dict")
    if init:
        init(I, st, bound)
    r.bound = bound
    r.init = st.copy()
    r.status = "ok"
    r.value = None
    try:
        r.value = I.call_function(fi, bound, st, None)
    except Dead:
        r.status = "dead"
    except Budget:
        r.status = "budget"
    except RecursionError:
        r.status = "recursion"
    r.state = st
    r.events = I.events
    return r
