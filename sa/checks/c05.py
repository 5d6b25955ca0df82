"""C05: angle units."""
from .. import sym as S
from ..models import op_of
from ..values import Tup
from .base import ApiCheck, Finding, construct_of

# functions that return angles, and the documented unit
RETURNS = {"calibration.find_tilt_roll_based_linear_fit": {0: "deg", 1: "deg"},
           "calibration.find_tilt_roll_based_ellipse_fit":
           {0: "deg", 1: "deg"},
           "calibration.find_tilt_roll": {0: "deg", 1: "deg"},
           "calibration.fit_points_to_ellipse": {0: "deg"}}


def const_range(e):
    lo = None if e.lo is None else S.bounds(e.lo)
    hi = None if e.hi is None else S.bounds(e.hi)
    if lo is None or hi is None:
        return None
    return lo[0], hi[1]


class C05(ApiCheck):
    ID = "C05"
    TITLE = "angles are used in the unit they are documented in"
    EXPLANATION = (
        "Unit analysis: every scalar and array carries the angle unit "
        "(degree, radian, partly converted, none); parameters get the "
        "documented unit, deg2rad/rad2deg and factors pi/180, 180/pi convert "
        "it, arithmetic and element-wise operations propagate it, inverse "
        "trigonometric functions produce radians.  Every trigonometric "
        "function, conversion, rotation routine and external reconstruction "
        "routine reached from the public API is checked.")
    RULES = {
        "trig": "a trigonometric function gets radians",
        "conv": "an angle is converted exactly once",
        "rotate": "ndimage.rotate gets degrees",
        "external": "astra and tomopy get angles in radians",
        "scan": "generated scan angles over half/full circle in degrees are "
                "converted before use, those in radians are not",
        "mix": "angles of different units are not added or compared",
        "return": "returned angles are in the documented unit"}

    def examine(self, r, project):
        fs = []
        n = dict(trig=0, conv=0, rotate=0, external=0)
        known = 0

        def bad(rule, e, msg):
            fs.append(Finding(rule, construct_of(e), e.where(), msg,
                              {"call": r.label(), "path": e.chain()}))
        for e in r.events:
            if e.kind == "trig":
                if e.fn == "ndi.rotate":
                    n["rotate"] += 1
                    if e.unit not in (None, "deg"):
                        bad("rotate", e, "scipy.ndimage.rotate, which works "
                            "in degrees, gets an angle in unit '%s'" % e.unit)
                    continue
                n["trig"] += 1
                known += e.unit is not None
                if e.unit not in (None, "rad"):
                    bad("trig", e, "%s gets an angle in unit '%s' instead of "
                        "radians" % (e.fn, e.unit))
                elif e.unit is None:
                    c = const_range(e)
                    if c is not None and c[0] == 0 and c[1] in (180, 360):
                        bad("scan", e, "%s gets generated angles from 0 to "
                            "%s that were not converted to radians"
                            % (e.fn, c[1]))
            elif e.kind == "angle_conv":
                n["conv"] += 1
                known += e.unit is not None
                want = "deg" if e.fn in ("deg2rad", "radians") else "rad"
                if e.unit not in (None, want):
                    bad("conv", e, "%s is applied to an angle in unit '%s'"
                        % (e.fn, e.unit))
                elif e.unit is None:
                    c = const_range(e)
                    if want == "deg" and c is not None and c[0] == 0 and \
                            3.1 < c[1] < 6.4:
                        bad("scan", e, "angles generated in radians are "
                            "converted as if in degrees")
            elif e.kind == "angle_sink":
                n["external"] += 1
                known += e.unit is not None
                if e.unit not in (None, "rad"):
                    bad("external", e, "%s, which works in radians, gets "
                        "angles in unit '%s'" % (e.fn, e.unit))
            elif e.kind == "unit_mix":
                bad("mix", e, "operator %s combines a %s angle with a %s one"
                    % (e.op, e.a or "plain degree/radian", e.b or
                       "plain degree/radian"))
        want = RETURNS.get(r.fi.short)
        if want and r.value is not None:
            v = r.value
            for i, u in want.items():
                x = v.elts[i] if isinstance(v, Tup) and i < len(v.elts) \
                    else None
                if x is None:
                    continue
                o = op_of(r.I, x, r.state)
                if o.unit not in (None, u):
                    fs.append(Finding(
                        "return", "%s: value %d" % (r.fi.short, i),
                        "%s:%d (in %s)" % (r.fi.module.rel,
                                           r.fi.node.lineno, r.fi.short),
                        "returned angle has unit '%s', documented as '%s'"
                        % (o.unit, u), {"call": r.label()}))
        st = {"angle uses (%s)" % k: v for k, v in n.items()}
        st["uses with a known unit"] = known
        return fs, st


CHECK = C05()
