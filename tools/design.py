"""The algorithms as such: TLC checks the laws of spec/MKAlg.tla symbolically, and that deliberate mistakes break them."""
from mbt import *

# property -> (laws, deliberate mistakes each of which must break one of them)
LAWS = {
    "C02": (["AddLaw"], ["sub"]),
    "C03": (["MulLaw", "MulLawInt", "SquareLaw"], ["vsign", "noU"]),
    "C04": (["RotLaw", "ComposeLaw"], ["rotdir"]),
    "C05": (["ConjLaw"], ["cjk"]),
    "C06": (["MulLaw", "RotLaw"], ["vsign", "rotdir"]),
    "C10": (["PartialLaw"], ["partial"]),
    "C22": (["MulLaw", "ConjLaw", "RotLaw"], ["noU"]),
}


def run(prop, tier, work):
    if prop not in LAWS:
        return None
    laws, bugs = LAWS[prop]
    np, nr = (2, 8) if tier == "quick" else (3, 16)
    out = dict(states=0, transitions=0, laws=laws, parties=np, rotations=nr, mistakes_noticed=[])
    for bug in ["none"] + bugs:
        cfg = "CONSTANTS NP = %d NR = %d Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
            np if bug == "none" else 2, nr if bug == "none" else 4, bug, " ".join(laws))
        o = tlc(work, "MKAlg", cfg, workers=CORES if bug == "none" else 2, heap="3g", tag="-" + bug)
        if bug == "none":
            if "No error has been found" not in o:
                raise Broken("the algorithm model does not satisfy its laws:\n" + o[-2500:])
            out["transitions"], out["states"] = tlc_counts(o)
        elif "is violated" not in o:
            raise Broken("the algorithm model does not notice the mistake %s:\n%s" % (bug, o[-1500:]))
        else:
            out["mistakes_noticed"].append(bug)
    return out
