"""C06: casts to 8- and 16-bit integers."""
from .. import sym as S
from ..sym import INF
from .base import ApiCheck, Finding, construct_of


class C06(ApiCheck):
    ID = "C06"
    TITLE = "conversions to small integer types never wrap around"
    EXPLANATION = (
        "Value-range analysis: at every conversion to an 8/16-bit integer "
        "type reached from the public API (constructor, astype, dtype "
        "argument, store into a small-integer array) the symbolic bounds of "
        "the operand are compared with the range of the type.  Sizes are "
        "unbounded symbols, so an index or size held in 16 bits is reported "
        "for the image size at which it wraps; image data count as "
        "unbounded after scaling until they are clipped or normalised by "
        "their own minimum and maximum.")
    RULES = {"range": "operand bounds lie inside the range of the type",
             "image": "scaled image data are clipped or normalised before "
                      "the conversion"}

    def examine(self, r, project):
        fs = []
        n = proved = und = 0
        for e in r.events:
            if e.kind != "cast":
                continue
            n += 1
            a, b = e.rng
            lo = hi = None
            if e.lo is not None:
                lo = S.bounds(e.lo)[0] if not e.lo.has_opaque() else None
            if e.hi is not None:
                hi = S.bounds(e.hi)[1] if not e.hi.has_opaque() else None
            if lo is not None and hi is not None and lo >= a and hi <= b:
                proved += 1
                continue
            msg = None
            if hi is not None and hi > b and attained(e.hi):
                msg = "can reach %s" % ("any value (%s)" % e.hi
                                        if hi == INF else hi)
                rule = "range"
            elif lo is not None and lo < a and attained(e.lo):
                msg = "can be as low as %s" % (
                    "any value (%s)" % e.lo if lo == -INF else lo)
                rule = "range"
            elif "affine" in e.tags and e.src[0] not in "iu" and (
                    lo is None or hi is None):
                msg = "is scaled image data that was not clipped"
                rule = "image"
            if msg is None:
                und += 1
                continue
            fs.append(Finding(
                rule, construct_of(e), e.where(),
                "value converted to %s [%s, %s] %s" % (
                    {"u1": "uint8", "i1": "int8", "u2": "uint16",
                     "i2": "int16"}[e.dt], a, b, msg),
                {"call": r.label(), "path": e.chain()}))
        return fs, {"conversions": n, "within range": proved,
                    "undecided": und}


def attained(p):
    """Bounds made of sizes and parameters only are reached for some input;
    bounds with functions of unknown sign are not reported."""
    return len(p.t) <= 6


CHECK = C06()
