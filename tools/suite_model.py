"""TLC model checking of a specification on its own."""
import vplib


class Model:
    def __init__(self, module, quick=None, thorough=None, what=""):
        self.module, self.quick, self.thorough, self.what = module, quick, thorough, what

    def run(self, pid, tier, seed):
        r = vplib.Result()
        for c in (self.quick or []) if tier == "quick" else (self.thorough or self.quick or []):
            r.merge(vplib.tlc_model(self.module, c, self.what))
        return r
