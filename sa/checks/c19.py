"""C19: out-of-core reading of datasets."""
from fractions import Fraction
from ..values import StrVal
from .. import spec
from .. import sym as S
from .base import ApiCheck, Finding, construct_of


def reference(e):
    """The averaged flat/dark/reference images, not the scan itself."""
    k = getattr(e, "key", None)
    return isinstance(k, StrVal) and any(
        isinstance(t, tuple) and t[0] == "user" and
        t[1] in ("ref_key", "flat_key", "dark_key") for t in k.tags)


def grows(e):
    """Does what is read grow with the size of the data set in all three
    directions, everything else held fixed?  None: cannot be computed."""
    if e.out is None or e.shape is None or len(e.shape) < 3:
        return False if e.out is not None else None
    if any(d is None for d in e.out) or any(d is None for d in e.shape):
        return None
    size = S.base_atoms(e.shape)
    if not size or any(a[0] != "s" for a in size):
        return None
    vol = []
    for n in (1000, 10000, 100000):
        env = {}
        for a in S.base_atoms(list(e.out) + list(e.shape)):
            if a in size:
                env[a] = Fraction(n)
            elif a[0] != "s":
                return None
            else:
                lo, hi = S.SYMS.get(a[1], (0, 0, True))[:2]
                env[a] = Fraction(0 if lo <= 0 <= hi else
                                  lo if lo > 0 else hi)
        v = Fraction(1)
        try:
            for d in e.out:
                v *= d.ev(env)
        except S.Unknown:
            return None
        vol.append(v)
    return vol[0] > 0 and all(
        b >= 700 * a for a, b in zip(vol, vol[1:]))


def stack_loader(e):
    """The loaders of stacks of speckle images read, as documented, the few
    images at one position, or average them."""
    return any(f.short.startswith("loadersaver.get_image_stack") or
               "ref_sam_stacks" in f.short or
               "reference_sample_stacks" in f.short
               for f in (e.func,) if f is not None)


class C19(ApiCheck):
    ID = "C19"
    TITLE = "large datasets are read piecewise"
    EXPLANATION = (
        "Effect analysis on file-backed datasets: every subscript, "
        "conversion or reduction of a three-dimensional HDF dataset reached "
        "from the public API is classified by the number of slices it reads, "
        "compared symbolically with the size of the dataset; reading all of "
        "it at once is reported.")
    limit = {"quick": 40, "thorough": 200}
    RULES = {"whole": "no operation reads all slices of a 3-D dataset"}

    def functions(self, project):
        return [f for f in project.public_functions()
                if spec.touches_files(project, f, "read")]

    def examine(self, r, project):
        fs = []
        n = part = und = ref = 0
        for e in r.events:
            if e.kind != "dset_read":
                continue
            n += 1
            g = e.full or (grows(e) if not stack_loader(e) else False)
            if g is None:
                und += 1
            elif not g:
                part += 1
            elif reference(e):
                ref += 1
            else:
                fs.append(Finding(
                    "whole", construct_of(e), e.where(),
                    "%s reads %s into memory" % (
                        r.fi.short, "the complete dataset" if e.full else
                        "all requested slices of the dataset at once"), {"call": r.label(), "path": e.chain()}))
        return fs, {"dataset reads": n, "of a part": part, "undecided": und,
                    "stacks of reference images": ref}


CHECK = C19()
