"""C04: no zero or negative pixel reaches a logarithm or a flat-field
division."""
from ..models import sgn
from .base import ApiCheck, Finding, construct_of


class C04(ApiCheck):
    ID = "C04"
    TITLE = ("logarithm and flat-field division never meet a zero or "
             "negative value")
    EXPLANATION = (
        "Value-range analysis of every public call: arrays carry bounds, a "
        "non-zero flag and the tag 'measured' / 'flat minus dark' while "
        "their elements are those of the input.  np.where, masked stores, "
        "clip and tests such as np.any(x <= 0), 0 in x and x.min() refine "
        "the bounds.  At every logarithm of measured data the elements must "
        "be positive, or the logarithm must run with warnings turned into "
        "exceptions that are handled; at every division by the flat/dark "
        "difference its elements must be non-zero.")
    RULES = {"log": "argument of a logarithm of measured data is positive",
             "div": "flat/dark difference used as divisor has no zero"}

    def examine(self, r, project):
        fs = []
        n = m = g = 0
        for e in r.events:
            if e.kind == "log" and "meas" in e.tags:
                n += 1
                if e.sign == "+":
                    continue
                if e.guarded:
                    g += 1
                    continue
                if e.sign == "0+" and "mean" in e.tags:
                    continue
                fs.append(Finding(
                    "log", construct_of(e), e.where(),
                    "logarithm of measured data whose elements may be zero "
                    "or negative", {"call": r.label(), "path": e.chain()}))
            elif e.kind == "div" and {"ffdiff", "flat"} & e.den.tags:
                m += 1
                d = e.den
                if d.nz or sgn(d.lo, d.hi, d.nz) in ("+", "-"):
                    continue
                fs.append(Finding(
                    "div", construct_of(e), e.where(),
                    "division by a flat/dark difference that may be zero",
                    {"call": r.label(), "path": e.chain()}))
        return fs, {"logarithms of measured data": n, "guarded by warnings as "
                    "errors": g, "flat-field divisions": m}


CHECK = C04()
