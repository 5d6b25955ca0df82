"""C23: inputs that contradict each other or the data are refused."""
from fractions import Fraction
from .. import spec
from ..spec import H, W, V, D, C, NP, v, arr, symp, num
from ..values import Num, Tup, TRUE, FALSE
from .base import Finding

ONE = C(1)
IH, IW = symp("imgH", 8), symp("imgW", 8)
HALF = C(Fraction(1, 2))


def val(label, p, isint=True):
    return v(label, lambda b: Num(p, isint=isint, ispy=True))


def beyond(size, name="far"):
    """Any value >= size."""
    def mk(b):
        n = b.num(0, spec.INF, True, name + b.p)
        b.fact("ge", n.sym - size)
        return n
    return v(">=%s" % size, mk)


def below(name="neg"):
    return v("< 0", lambda b: b.num(-spec.INF, -1, True, name + b.p))


def shape(*dims, **kw):
    return arr(*dims, **kw)


def outside(size):
    """Centres or indices outside [0, size - 1]."""
    return [val("-1", C(-1)), val("size", size), below(), beyond(size)]


def lengths(n, **kw):
    kw.setdefault("tags", ("angles",))
    return [arr(n + ONE, **kw), arr(n - ONE, **kw),
            arr(n.scale(2), **kw)]


def swapped(h, w, **kw):
    def mk(b):
        b.fact("ge", w - h - ONE)
        return b.arr((w, h), **kw)
    return v("transposed", mk)


def others(h, w, **kw):
    """Images of another size than (h, w)."""
    return [arr(h + ONE, w, **kw), arr(h - ONE, w, **kw),
            arr(h, w + ONE, **kw), arr(h, w - ONE, **kw),
            arr(h + w, w, **kw), swapped(h, w, **kw)]


def stacks(d, h, w, **kw):
    return [arr(d + ONE, h, w, **kw), arr(d, h + ONE, w, **kw),
            arr(d, h, w - ONE, **kw)]


def cropped(i, h, w):
    """Crops which leave nothing of an image."""
    def mk(k, size):
        t = [C(0)] * 4
        t[k] = size
        return v("crop %d" % k, lambda b: Tup(Num(x, isint=True, ispy=True)
                                              for x in t))
    return [mk(0, h), mk(1, h), mk(2, w), mk(3, w + ONE)]


def cropped6(d, h, w):
    def mk(k, size):
        t = [C(0)] * 6
        t[k] = size
        return v("crop %d" % k, lambda b: Tup(Num(x, isint=True, ispy=True)
                                              for x in t))
    return [mk(0, d), mk(1, d), mk(2, h), mk(3, h + ONE), mk(4, w),
            mk(5, w)]


RAD = dict(unit="rad")
# function: [(what is wrong, {parameter: variants}, fixed parameters)]
T = {}


def add(fs, what, bad, fixed=None, good=None):
    for f in fs.split():
        T.setdefault(f, []).append((what, bad, fixed or {}, good or {}))


R = "reconstruction."
REC = R + "fbp_reconstruction " + R + "bpf_reconstruction "
ANY = REC + R + "dfi_reconstruction " + R + "gridrec_reconstruction " + \
    R + "astra_reconstruction"
add(ANY, "the centre is outside the sinogram", {"center": outside(W)})
add(ANY, "angles and projections differ in number",
    {"angles": lengths(H, unit="rad")})

VR = "vertrec.vertical_reconstruction"
VALL = " ".join((VR, VR + "_multiple", VR + "_different_angles"))
add(VALL, "the centre is outside the image", {"center": outside(W)})
add(VALL, "angles and projections differ in number",
    {"angles": lengths(D, unit="rad")},
    {"proj_start": spec.ints(0), "proj_stop": spec.ints(-1)})
add(VALL, "the crop leaves nothing", {"crop": cropped(4, H, W)})
add(VALL, "no projection is selected",
    {"proj_start": [v("start", lambda b: Num(D, isint=True, ispy=True))]},
    {"proj_stop": spec.ints(-1)})
add(VR + " " + VR + "_multiple", "the flat-field has another size",
    {"flat_field": others(H, W, tags=("flat",))})
add(VR + " " + VR + "_multiple", "the dark-field has another size",
    {"dark_field": others(H, W, tags=("dark",))},
    {"flat_field": [spec.FLAT]})
add(VR, "the slice is outside the image", {"slice_index": outside(W)})
add(VR + "_multiple", "a slice is outside the image",
    {"start_index": outside(W)})
add(VR + "_multiple", "a slice is outside the image",
    {"stop_index": [val("-2", C(-2)), val("W", W), beyond(W)]})
add(VR + "_different_angles", "a slice is outside the image",
    {"slice_indices": [
        v("[.., %s]" % lab, lambda b, x=x: b.lst(
            [num(1), Num(x, isint=True, ispy=True)]))
        for lab, x in (("-1", C(-1)), ("W", W))]},
    {"alphas": [v("[..]", lambda b: b.lst([num(10), num(20)]))],
     "crop": [spec.PARAM["crop"][0]]},
    {"slice_indices": [v("[..]", lambda b: b.lst([num(1), num(2)]))]})
add(VR + "_different_angles", "slices and angles differ in number",
    {"slice_indices": [v("[1, 2, 3]", lambda b: b.lst(
        [num(1), num(2), num(3)])), v("[1]", lambda b: b.lst([num(1)]))]},
    {"alphas": [v("[..]", lambda b: b.lst([num(10), num(20)]))]},
    {"slice_indices": [v("[..]", lambda b: b.lst([num(1), num(2)]))]})

CALC = "calculation."
CONV = "conversion."
add(CALC + "search_overlap " + CALC + "find_overlap " +
    CONV + "stitch_image " + CONV + "join_image",
    "the images differ in height", {"mat2": [arr(H + ONE, V),
                                             arr(H - ONE, V)]})
MULT = [v("one image", lambda b: b.lst([b.arr((H, W))]))]
add(CALC + "find_overlap_multiple " + CONV + "stitch_image_multiple " +
    CONV + "join_image_multiple", "there is one image only",
    {"list_mat": MULT})
HEL = CONV + "generate_sinogram_helical_scan"
add(HEL, "the index is out of the reconstructable range",
    {"index": [val("-1", C(-1)), below()]})

COR = "correction."
NOT3 = [arr(H, W), arr(W), arr(D, D, H, W)]
NOT2 = [arr(W), arr(D, H, W)]
add(" ".join(COR + x for x in (
    "unwarp_sinogram", "unwarp_sinogram_chunk", "generate_tilted_sinogram",
    "generate_tilted_sinogram_chunk")), "the data are not 3D",
    {"data": NOT3})
add(COR + "generate_tilted_profile_line " +
    COR + "generate_tilted_profile_chunk", "the image is not 2D",
    {"mat": NOT2})
add(COR + "mtf_deconvolution", "the window is smaller than the image",
    {"window": [arr(H - ONE, W), arr(H, W - ONE)]})
add(COR + "beam_hardening_correction", "n is less than 2",
    {"n": [val("1", ONE), v("1.5", lambda b: Num(C(Fraction(3, 2)),
                                                 ispy=True))]})
add(COR + "upsample_sinogram", "the scale is odd",
    {"scale": spec.ints(3, 5)})
add(COR + "upsample_sinogram", "the centre is not positive",
    {"center": [val("0", C(0)), below()]}, {"sino_type": spec.strs("180")})
add("filtering.double_wedge_filter", "the centre is missing",
    {"center": [val("0", C(0))]}, {"sino_type": spec.strs("180")})
add("filtering.double_wedge_filter", "the mask has another size",
    {"mask": [arr(H + ONE, W + symp("pad", 0).scale(2)),
              arr(H, W + symp("pad", 0).scale(2) + ONE)]},
    {"sino_type": spec.strs("360")})

PH = "phase."
PAD = symp("pad", 0).scale(2)
GRAD = PH + "reconstruct_surface_from_gradient_FC_method " + \
    PH + "reconstruct_surface_from_gradient_SCS_method"
add(GRAD, "the gradients have different sizes",
    {"grad_y": others(H, W)})


def wins(h, w, n=3):
    return v("%d windows" % n, lambda b: b.lst(
        [b.arr((h, w), tags=(), tag="w%d" % i) for i in range(n)]))


add(GRAD.split()[0], "a window has another size",
    {"window": [wins(H.scale(2), W), wins(H, W.scale(2)),
                wins(H.scale(2) + ONE, W.scale(2))]})
add(GRAD.split()[1], "a window has another size",
    {"window": [wins(H + PAD, W + PAD + ONE), wins(H + PAD + ONE, W + PAD)]})
add(GRAD.split()[0], "the number of windows is wrong",
    {"window": [wins(H.scale(2), W.scale(2), 2),
                wins(H.scale(2), W.scale(2), 4)]})
add(GRAD.split()[1], "the number of windows is wrong",
    {"window": [wins(H + PAD, W + PAD, 2), wins(H + PAD, W + PAD, 4)]})
add(PH + "unwrap_phase_based_cosine_transform", "the window has another size",
    {"window": others(H, W)})
add(PH + "unwrap_phase_based_fft", "the window has another size",
    {"win_for": [arr(H.scale(2), W), arr(H, W.scale(2)), arr(H, W)]})
add(PH + "unwrap_phase_based_fft", "the window has another size",
    {"win_back": [arr(H.scale(2), W), arr(H, W.scale(2)), arr(H, W)]},
    {"win_for": [spec.NONEV]})
STK = " ".join(PH + x for x in (
    "find_shift_between_image_stacks", "find_shift_between_sample_images",
    "align_image_stacks"))
add(STK, "the stacks have different sizes",
    {"sam_stack": stacks(D, H, W)})
add(PH + "align_image_stacks", "shifts and images differ in number",
    {"sr_shifts": [arr(D + ONE, 2, tags=()), arr(D - ONE, 2, tags=())]})
add(PH + "align_image_stacks", "shifts and images differ in number",
    {"sam_shifts": [arr(D + ONE, 2, tags=()), arr(D - ONE, 2, tags=())]})
add(PH + "get_transmission_dark_field_signal", "the data are not 2D or 3D",
    {"ref_stack": [arr(W)], "sam_stack": [arr(W)]})
add("removal.remove_blob", "the mask has another size",
    {"mask": others(H, W)})
CAL = "calibration."
add(CAL + "fit_points_to_ellipse " + CAL + "find_tilt_roll",
    "the coordinates differ in number",
    {"y": [arr(NP + ONE, tags=()), arr(NP - ONE, tags=())]})
CR = "correlation."
h2, w2 = symp("h2", 3), symp("w2", 3)
add(CR + "generate_correlation_map", "the image is larger than the reference",
    {"mat": [arr(H + ONE, w2), arr(h2, W + ONE)]}, {"ref_mat": [spec.IMG]})
add(CR + "generate_correlation_map", "the image is larger than the reference",
    {"mat": [arr(D, H + ONE, w2), arr(D, h2, W + ONE)]},
    {"ref_mat": [arr(D, H, W)]})
add(CR + "generate_correlation_map", "the stacks differ in number",
    {"mat": [arr(D + ONE, h2, w2), arr(D - ONE, h2, w2)]},
    {"ref_mat": [arr(D, H, W)]})
add(CR + "generate_correlation_map", "the data are not 2D or 3D",
    {"mat": [arr(W)], "ref_mat": [arr(W)]})
DEV = [("cpu", [v("False", lambda b: FALSE)]),
       ("gpu", [v("True", lambda b: TRUE)]),
       ("hybrid", spec.strs("hybrid"))]
IMG3 = [arr(D, H, W)]
FLS, UMPA = CR + "find_local_shifts", CR + "find_local_shifts_umpa"
GLOB = CR + "find_global_shift_based_local_shifts"
for dev, gpu in DEV:
    for dim in (1, 2):
        fix = {"gpu": gpu, "dim": spec.ints(dim)}
        on = " (%s, dim=%d)" % (dev, dim)
        if dim == 2:
            add(FLS, "the images have different sizes" + on,
                {"mat": others(H, W)}, dict(fix, ref_mat=[spec.IMG]))
        add(FLS, "the stacks have different sizes" + on,
            {"mat": stacks(D, H, W)}, dict(fix, ref_mat=IMG3),
            {"mat": IMG3})
    on = " (%s)" % dev
    add(UMPA, "the stacks have different sizes" + on,
        {"mat": stacks(D, H, W)}, {"gpu": gpu})
    add(UMPA, "the data are not 3D" + on,
        {"mat": [arr(H, W)], "ref_mat": [arr(H, W)]}, {"gpu": gpu})
    if dev != "hybrid":
        add(GLOB, "the images have different sizes" + on,
            {"mat": others(H, W)}, {"gpu": gpu})
        add(GLOB, "the data are not 2D" + on,
            {"mat": IMG3, "ref_mat": IMG3}, {"gpu": gpu})


def big_win():
    def mk(size):
        def f(b):
            n = b.num(1, spec.INF, True, "winbig")
            b.fact("ge", n.sym - size)
            return n
        return f
    return [v("win_size >= width", mk(W)), v("win_size >= height", mk(H))]


WIN = "the window does not fit in the image"
for dev, gpu in DEV:
    add(FLS, WIN + " (%s)" % dev, {"win_size": big_win()},
        {"dim": spec.ints(2), "gpu": gpu, "ref_mat": [spec.IMG],
         "mat": [spec.IMG]})
    add(FLS, WIN + " (stack, %s)" % dev, {"win_size": big_win()},
        {"dim": spec.ints(2), "gpu": gpu, "ref_mat": IMG3, "mat": IMG3})
    add(UMPA, WIN + " (%s)" % dev, {"win_size": big_win()}, {"gpu": gpu})
    if dev != "hybrid":
        add(GLOB, WIN + " (%s)" % dev, {"win_size": big_win()},
            {"gpu": gpu})
add(PH + "get_transmission_dark_field_signal", WIN,
    {"win_size": big_win()}, {"margin": [spec.integer(1)]})
add(VALL.split()[0] + " " + VALL.split()[1],
    "the angle of the slice is out of range",
    {"alpha": [val("-1", C(-1)), val("181", C(181)), below()]})

add("simulation.make_sinogram", "the image is not square",
    {"mat": [arr(W, W + ONE), arr(W, W - ONE)]})
U = "utility."
add(U + "separate_frequency_component", "the window has another length",
    {"window": [arr(W + ONE, tags=()), arr(W - ONE, tags=())]},
    {"axis": spec.ints(1)}, {"window": [arr(W, tags=())]})
add(U + "separate_frequency_component", "the window has another length",
    {"window": [arr(H + ONE, tags=()), arr(H - ONE, tags=())]},
    {"axis": spec.ints(0)}, {"window": [arr(H, tags=())]})
add(U + "interpolate_inside_stripe", "the mask has another length",
    {"list_mask": [arr(W + ONE, tags=()), arr(W - ONE, tags=())]})
SQR = U + "transform_slice_forward " + U + "transform_slice_backward " + \
    "postprocessing.remove_ring_based_fft " + \
    "postprocessing.remove_ring_based_wavelet_fft"
add(SQR, "the slice is not square", {"mat": [arr(W, W + ONE),
                                             arr(W, W - ONE)]})


def coords(h, w, k):
    def mk(b):
        ss = [(W, W), (W, W)]
        ss[k] = (h, w)
        return Tup([b.arr(s, tags=(), tag="c%d" % i)
                    for i, s in enumerate(ss)])
    return v("coords", mk)


add(U + "transform_slice_forward " + U + "transform_slice_backward",
    "the coordinates have another size",
    {"coord_mat": [coords(W, W + ONE, 0), coords(W, W - ONE, 1),
                   coords(W + ONE, W, 1)]})
add(U + "check_level", "the level is out of range",
    {"level": [val("0", C(0)), val("-1", C(-1)), v(
        "n_level + 1", lambda b: Num(symp("n_level", 1) + ONE, isint=True,
                                     ispy=True)),
        v("[0, 1]", lambda b: b.lst([num(0), num(1)]))]},
    {"n_level": [v("n", lambda b: Num(symp("n_level", 1), isint=True,
                                      ispy=True))]})
add(U + "locate_slice_chunk", "the slices are in the wrong order",
    {"slice_start": spec.ints(5), "slice_stop": spec.ints(4)})
PP = "postprocessing."
add(" ".join(PP + x for x in (
    "get_statistical_information_dataset", "downsample_dataset",
    "rescale_dataset")), "the crop leaves nothing",
    {"crop": cropped6(D, H, W)}, {"input_": [arr(D, H, W), spec.HDF]})
add(" ".join(PP + x for x in (
    "get_statistical_information_dataset", "downsample_dataset",
    "rescale_dataset")), "the crop has not six numbers",
    {"crop": [v("(0,)*%d" % k, lambda b, k=k: Tup([num(0)] * k))
              for k in (5, 7)]}, {"input_": [arr(D, H, W), spec.HDF]})


def cells(k, size):
    t = [ONE, ONE, ONE]
    t[k] = size + ONE
    return v("cell %d" % k, lambda b: Tup(Num(x, isint=True, ispy=True)
                                          for x in t))


add(PP + "downsample_dataset", "a cell is larger than the data",
    {"cell_size": [cells(0, D), cells(1, H), cells(2, W)]},
    {"input_": [arr(D, H, W), spec.HDF], "crop": [spec.CROP6[0]]})
add(PP + "reslice_dataset", "the crop leaves nothing",
    {"crop": cropped6(D, H, W)}, {"input_": [spec.HDF]})
add("converter.convert_tif_to_hdf", "the crop leaves nothing",
    {"crop": cropped(4, IH, IW)})
add(VR + "_different_angles", "the flat-field has another size",
    {"flat_field": others(H, W, tags=("flat",))})
add(VR + "_different_angles", "the dark-field has another size",
    {"dark_field": others(H, W, tags=("dark",))},
    {"flat_field": [spec.FLAT]})

# Values at the end of the allowed range, which must be accepted.
OK = {}


def allow(fs, what, good, fixed=None):
    for f in fs.split():
        OK.setdefault(f, []).append((what, good, fixed or {}))


ENDS = [val("0", C(0)), val("W - 1", W - ONE)]
NOCROP = {"crop": [spec.PARAM["crop"][0]]}
allow(ANY, "the centre is in the first or last column", {"center": ENDS})
allow(VALL, "the centre is in the first or last column", {"center": ENDS},
      NOCROP)
allow(VALL.split()[0] + " " + VALL.split()[1],
      "the angle is at the end of its range",
      {"alpha": spec.ints(0, 180)}, NOCROP)
allow(VR, "the slice is at the end of its range", {"slice_index": ENDS},
      NOCROP)
allow(VR + "_multiple", "the slice is at the end of its range",
      {"start_index": ENDS, "stop_index": ENDS}, NOCROP)
allow(VALL, "one projection is selected",
      {"proj_start": [val("D - 1", D - ONE)]},
      {"proj_stop": spec.ints(-1), "angles": [spec.NONEV]})
allow(CR + "generate_correlation_map", "both images have the same size",
      {"mat": [spec.IMG]}, {"ref_mat": [spec.IMG]})
allow(PH + "get_transmission_dark_field_signal", "the data are images",
      {"ref_stack": [spec.IMG]}, {"sam_stack": [spec.IMG]})
allow(U + "locate_slice_chunk", "one slice is asked for",
      {"slice_start": spec.ints(5)}, {"slice_stop": spec.ints(5)})
allow(COR + "beam_hardening_correction", "n is 2", {"n": spec.ints(2)})


class C23:
    ID = "C23"
    TITLE = "impossible geometry is refused before any computation"
    EXPLANATION = (
        "Every public function of the contract table (%d functions, %d "
        "kinds of contradiction) is analysed with arguments which contradict "
        "each other or the data by one element and by any amount, over the "
        "variants of the other options; every path must end in an exception. "
        "The same call without the contradiction must be able to complete."
        % (len(T), sum(len(x) for x in T.values())))
    RULES = {"refused": "no path completes with contradicting inputs",
             "accepted": "inputs without a contradiction are not refused"}
    ASSUMPTIONS = []
    budget = 400000

    def jobs(self, project, tier):
        self.limit = 3 if tier == "quick" else 40
        self.most = 8 if tier == "quick" else 10 ** 6
        return [(f, i, tuple(bad)[0]) for f in sorted(T)
                for i, (what, bad, fixed, good) in enumerate(T[f])] + [
            (f, i, None) for f in sorted(OK) for i in range(len(OK[f]))]

    def run(self, project, fi, combo, **opts):
        opts.setdefault("nonempty", True)
        opts.update( kernels=False, h5_shape=lambda *_: (D, H, W))
        self.calls += 1
        return spec.run(project, fi, combo, opts, self.budget)

    def allowed(self, project, fi, i):
        what, good, fixed = OK[fi.short][i]
        self.calls = 0
        fs = []
        for k in range(max(len(x) for x in good.values())):
            extra = dict(fixed, **{p: [vs[k]] for p, vs in good.items()})
            combo = next(iter(spec.combos(fi, self.limit, extra=extra)))
            if self.run(project, fi, combo).status == "dead":
                fs.append(Finding(
                    "accepted", "%s: %s" % (fi.short, what),
                    (fi.module.rel, fi.node.lineno, fi.name),
                    "%s refuses the input although only %s" % (
                        fi.short, what),
                    {"parameters": {p: x[0][0] for p, x in extra.items()}}))
        return fs, {"ends of ranges": {"%s: %s" % (fi.short, what)},
                    "calls analysed": self.calls}

    def do(self, project, job):
        short, i, p = job
        fi = project.by_short(short)
        if p is None:
            return self.allowed(project, fi, i)
        what, bad, fixed, fine_with = T[short][i]
        where = (fi.module.rel, fi.node.lineno, fi.name)
        fs = []
        self.calls = 0
        n = max(len(x) for x in bad.values())
        most = self.most
        for k in range(n):
            extra = dict(fixed)
            good = dict(fixed)
            for p, vs in bad.items():
                extra[p] = [vs[k]]
                good[p] = fine_with.get(p) or [x for x in spec.variants(fi, p)
                           if x[0] != "None"][:1]
            pairs = list(zip(spec.combos(fi, self.limit, extra=extra),
                             spec.combos(fi, self.limit, extra=good)))
            if len(pairs) > most:
                step = len(pairs) / most
                pairs = [pairs[int(j * step)] for j in range(most)]
            fine = False
            for a, b in pairs:
                r = self.run(project, fi, a,
                             nonempty="nothing" not in what and
                             "no " not in what)
                if r.status != "ok" and (k or fine):
                    continue
                g = self.run(project, fi, b)
                fine = fine or g.status != "dead"
                if r.status == "ok" and g.status == "ok":
                    fs.append(Finding(
                        "refused", "%s: %s" % (short, what), where,
                        "%s completes although %s" % (short, what),
                        {"call": r.label(),
                         "contradiction": {p: extra[p][0][0] for p in bad}}))
                    break
            if not k and not fine:
                fs.append(Finding(
                    "accepted", "%s: %s" % (short, what), where,
                    "%s refuses inputs without a contradiction" % short,
                    {"parameters": sorted(bad)}))
            if fs:
                break
        return fs, {"contradictions": {"%s: %s" % (short, what)},
                    "calls analysed": self.calls}


CHECK = C23()
