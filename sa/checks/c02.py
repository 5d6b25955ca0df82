"""C02: array shapes."""
import ast
from .. import sym as S
from ..sym import C, ZERO, ONE
from ..values import *
from .base import ApiCheck, Finding, construct_of, src

# the documented size of the result: the size of one of the inputs ...
SAME = {
    "postprocessing.rescale": "mat",
    "postprocessing.remove_ring_based_fft": "mat",
    "postprocessing.remove_ring_based_wavelet_fft": "mat",
    "correction.unwarp_projection": "proj",
    "correction.mtf_deconvolution": "proj",
    "correction.flat_field_correction": "proj",
    "correction.beam_hardening_correction": "mat",
    "filtering.fresnel_filter": "mat",
    "filtering.double_wedge_filter": "sinogram",
    "phase.get_quality_map": "mat", "phase.get_weight_mask": "mat",
    "phase.unwrap_phase_based_cosine_transform": "mat",
    "phase.unwrap_phase_based_fft": "mat",
    "phase.unwrap_phase_iterative_fft": "mat",
    "phase.reconstruct_surface_from_gradient_FC_method": "grad_x",
    "phase.reconstruct_surface_from_gradient_SCS_method": "grad_x",
    "removal.remove_stripe_based_sorting": "sinogram",
    "removal.remove_stripe_based_filtering": "sinogram",
    "removal.remove_stripe_based_fitting": "sinogram",
    "removal.remove_large_stripe": "sinogram",
    "removal.remove_dead_stripe": "sinogram",
    "removal.remove_all_stripe": "sinogram",
    "removal.remove_stripe_based_2d_filtering_sorting": "sinogram",
    "removal.remove_stripe_based_normalization": "sinogram",
    "removal.remove_stripe_based_regularization": "sinogram",
    "removal.remove_stripe_based_fft": "sinogram",
    "removal.remove_stripe_based_wavelet_fft": "sinogram",
    "removal.remove_stripe_based_interpolation": "sinogram",
    "removal.select_zinger": "mat", "removal.remove_zinger": "mat",
    "removal.generate_blob_mask": "flat",
    "removal.remove_blob_1d": "sino_1d", "removal.remove_blob": "mat",
    "reconstruction.apply_ramp_filter": "sinogram",
    "reconstruction.apply_circular_ramp_filter": "rec_img",
    "calibration.normalize_background": "mat",
    "calibration.normalize_background_based_fft": "mat",
    "calibration.invert_dot_contrast": "mat",
    "calibration.binarize_image": "mat",
    "calibration.select_dot_based_size": "mat",
    "correlation.normalize_image": "mat",
    "simulation.add_noise": "mat",
    "simulation.add_stripe_artifact": "sinogram",
    "simulation.convert_to_Xray_image": "mat",
    "simulation.add_background_fluctuation": "sinogram",
    "utility.mapping": "x_mat",
    "utility.sort_backward": "mat",
    "utility.generate_fitted_image": "mat",
    "utility.interpolate_inside_stripe": "mat",
    "utility.transform_slice_forward": "mat",
    "utility.transform_slice_backward": "mat",
    "utility.apply_gaussian_filter": "mat",
    "utility.apply_1d_regularizer": "list_data",
    "utility.apply_regularization_filter": "mat",
    "utility.fix_non_sample_areas": "overlap_metadata",
    "utility.detect_stripe": "list_data",
}
# ... or of several (tuple results)
SAME_ALL = {
    "utility.sort_forward": ("mat", "mat"),
    "utility.separate_frequency_component": ("mat", "mat"),
    "correlation.find_local_shifts": ("mat2d", "mat2d"),
    "phase.get_transmission_dark_field_signal": ("x_shifts", "x_shifts"),
}
# ... or made of size parameters and sizes of the inputs; n(param),
# dim(param, axis)
MADE = {
    "filtering.make_fresnel_window": ("height", "width"),
    "filtering.make_double_wedge_mask": ("height", "width"),
    "calculation.make_inverse_double_wedge_mask": ("height", "width"),
    "reconstruction.make_smoothing_window": ("width",),
    "reconstruction.make_2d_ramp_window": ("height", "width"),
    "utility.make_circle_mask": ("width", "width"),
    "utility.make_2d_butterworth_window": ("height", "width"),
    "utility.make_2d_gaussian_window": ("height", "width"),
    "utility.make_2d_damping_window": ("height", "width"),
    "utility.calculate_regularization_coefficient": ("width", "width"),
    "simulation.make_elliptic_mask": ("size", "size"),
    "simulation.make_rectangular_mask": ("size", "size"),
    "simulation.make_triangular_mask": ("size", "size"),
    "simulation.make_line_target": ("size", "size"),
    "simulation.make_face_phantom": ("size", "size"),
    "utility.generate_spiral_positions": ("num_pos", 2),
    "reconstruction.back_projection_cpu": (("sinogram", 1),
                                           ("sinogram", 1)),
    "reconstruction.back_projection_gpu": (("sinogram", 1),
                                           ("sinogram", 1)),
    "reconstruction.back_projection_gpu_chunk": (
        ("sinograms", 2), ("sinograms", 1), ("sinograms", 2)),
    "vertrec.vertical_back_projection_cpu": (("projections", 1),
                                             ("projections", 2)),
    "vertrec.vertical_back_projection_gpu": (("projections", 1),
                                             ("projections", 2)),
    "correction.unwarp_sinogram": (("data", 0), ("data", 2)),
    "correction.generate_tilted_sinogram": (("data", 0), ("data", 2)),
    "correction.generate_tilted_profile_line": (("mat", 1),),
    "conversion.convert_sinogram_180_to_360": (
        ("sino_180", 0, lambda d: d.scale(2) - ONE), ("sino_180", 1)),
}
# reconstructions: a 2-D sinogram gives (width, width), a 3-D one
# (width, slices, width)
RECON = ("fbp_reconstruction", "bpf_reconstruction", "dfi_reconstruction",
         "gridrec_reconstruction", "astra_reconstruction")


def shape_of(v, st):
    if isinstance(v, Ref) and v.what == "arr":
        r = st.heap.get(v.id)
        return r.shape if isinstance(r, ArrRec) else None
    if isinstance(v, Ref) and v.what == "obj":
        r = st.heap.get(v.id)
        s = dict(r.attrs).get("shape") if isinstance(r, ObjRec) else None
        if isinstance(s, Tup) and all(isinstance(x, Num) for x in s.elts):
            return tuple(x.sym for x in s.elts)
    return None


def expected(r):
    """[(what, shape)] one per array of the result, or None."""
    s = r.fi.short
    st = r.init

    def inp(p):
        if p == "mat2d":
            x = inp("mat")
            return x[-2:] if x else None
        if p not in r.bound:
            return None
        # sizes found equal on the way are unified in the final state
        a, b = shape_of(r.bound[p], st), shape_of(r.bound[p], r.state)
        return b if b is not None and a is not None and \
            len(a) == len(b) else a
    if s in SAME:
        return [(SAME[s], inp(SAME[s]))]
    if s in SAME_ALL:
        return [(p, inp(p)) for p in SAME_ALL[s]]
    if s in MADE:
        out = []
        for x in MADE[s]:
            if isinstance(x, int):
                out.append(C(x))
            elif isinstance(x, str):
                b = r.bound.get(x)
                out.append(b.sym if isinstance(b, Num) else None)
            else:
                sh = inp(x[0])
                d = sh[x[1]] if sh else None
                out.append(x[2](d) if d is not None and len(x) > 2 else d)
        if r.fi.short == "filtering.make_fresnel_window" and isinstance(
                r.bound.get("dim"), Num) and r.bound["dim"].const() == 1:
            return None
        return [(str(MADE[s][0]) if isinstance(MADE[s][0], str)
                 else "inputs", tuple(out))]
    if s.split(".")[-1] in RECON:
        sh = inp("sinogram")
        if sh is None:
            return None
        if len(sh) == 2:
            return [("sinogram", (sh[1], sh[1]))]
        return [("sinogram", (sh[2], sh[1], sh[2]))]
    return None


def has_break(node):
    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise,
                              ast.Continue)) for x in ast.walk(node))


def out_of_range(e, I):
    """The index is outside for some input: shown when the largest (smallest)
    index, at the last (first) iteration, is provably outside."""
    idx, dim = e.idx, e.dim
    if idx is None or dim is None:
        return None
    facts = e.facts
    if S.decide(">=", idx, dim, facts) is True:
        return "index %s of an axis of length %s" % (idx, dim)
    if S.decide("<", idx, -dim, facts) is True:
        return "index %s of an axis of length %s" % (idx, dim)
    if e.conds and any(True for c in e.conds if not isinstance(c, tuple)):
        return None
    env = {}
    names = []
    for l in e.loops:
        a = ("s", l.sym)
        if l.n is None or has_break(l.node):
            continue
        if a in idx.all_atoms() and a in idx.atoms() and idx.is_int():
            env[a] = l.n - ONE
            names.append(l.sym)
    if not env:
        return None
    top = idx.subst(env)
    if top.has_opaque() or dim.has_opaque():
        return None
    base = [f for f in facts if not any(
        ("s", n) in f[1].all_atoms() for n in names)]
    # linear, non-negative coefficients only: the maximum is at the end
    for a in env:
        p0 = idx.subst({a: ZERO})
        if S.decide(">=", idx - p0, ZERO, facts) is not True:
            return None
    extra = [f for f in facts if f not in base and not is_range_fact(
        f, e.loops)]
    if extra:
        return None
    if S.decide(">=", top, dim, tuple(base)) is True:
        return "index %s reaches %s, the axis has %s elements" % (
            idx, top, dim)
    return None


def is_range_fact(f, loops):
    for l in loops:
        if l.n is not None and f[1] == l.n - ONE - S.Poly.atom(
                ("s", l.sym)):
            return True
    return False


class C02(ApiCheck):
    ID = "C02"
    TITLE = "images of any height and width come back with the documented size"
    EXPLANATION = (
        "Symbolic shape inference: height, width and depth of the inputs are "
        "independent symbols; every array expression reached from the public "
        "API gets a shape in these symbols.  Reported: an operation, "
        "assignment or index whose operand shapes differ for some sizes "
        "(with such sizes as witness), an index that lies outside its axis, "
        "and a result whose shape is not the documented function of the "
        "input's.")
    RULES = {"operands": "shapes combined agree for all sizes",
             "index": "integer indices lie inside their axis",
             "axes": "number of indices/targets equals number of axes",
             "result": "the result has the documented shape"}

    def examine(self, r, project):
        fs = []
        st = {"index obligations": 0, "inside": 0,
              "arrays combined (disagree)": 0, "result shapes compared": 0,
              "result shapes equal": 0}
        for e in r.events:
            if e.kind == "shape_mismatch":
                st["arrays combined (disagree)"] += 1
                fs.append(Finding(
                    "operands", construct_of(e), e.where(),
                    "%s: %s against %s%s" % (e.how, e.a, e.b, " (e.g. %s)" %
                                             e.witness if e.witness else ""),
                    {"call": r.label(), "path": e.chain()}))
            elif e.kind in ("too_many_indices", "unpack_mismatch"):
                fs.append(Finding(
                    "axes", construct_of(e), e.where(),
                    "%s indices for an array of shape %s" % (
                        e.n, tuple(map(str, e.shape)))
                    if e.kind == "too_many_indices" else
                    "%s values unpacked into %s names" % (e.got, e.want),
                    {"call": r.label(), "path": e.chain()}))
            elif e.kind == "index":
                st["index obligations"] += 1
                if e.definite:
                    m = "index %s of a sequence of %s" % (e.idx, e.dim)
                else:
                    if S.decide("<", e.idx, e.dim, e.facts) is True and \
                            S.decide(">=", e.idx, -e.dim, e.facts) is True:
                        st["inside"] += 1
                        continue
                    m = out_of_range(e, r.I)
                if m:
                    fs.append(Finding(
                        "index", construct_of(e), e.where(), m,
                        {"call": r.label(), "path": e.chain()}))
        if r.status == "ok" and r.value is not None:
            ex = expected(r)
            vals = [r.value]
            if isinstance(r.value, Tup):
                vals = list(r.value.elts)
            if ex:
                for (what, sh), v in zip(ex, vals):
                    for a in (v.alts if isinstance(v, Union) else (v,)):
                        got = shape_of(a, r.state)
                        st["result shapes compared"] += 1
                        if sh is None or got is None:
                            continue
                        bad = None
                        if len(sh) != len(got):
                            bad = "%d axes instead of %d" % (len(got),
                                                             len(sh))
                        else:
                            eq = 0
                            for p, q in zip(got, sh):
                                if p is None or q is None:
                                    continue
                                w = S.find_difference(p, q, r.state.facts)
                                if w:
                                    bad = "%s instead of %s (e.g. %s)" % (
                                        p, q, w)
                                    break
                                eq += p == q
                            st["result shapes equal"] += eq == len(sh)
                        if bad:
                            fs.append(Finding(
                                "result", r.fi.short,
                                "%s:%d (in %s)" % (
                                    r.fi.module.rel, r.fi.node.lineno,
                                    r.fi.qualname),
                                "size of the result: " + bad,
                                {"call": r.label()}))
        return fs, st


CHECK = C02()
