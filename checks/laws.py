"""Symbolic material laws."""
from .common import *

# how the constructors' parameters are named in the value graph: <Law>.<param>
PARAM_RANGES = {}


def law_obj(S, name, **over):
    """a law built by its own constructor from symbolic parameters"""
    cls = S.cls(name)
    init = cls.lookup("__init__")
    kw = {}
    if init is not None and hasattr(init, "node"):
        a = init.node.args
        names = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
    else:
        names = list(S.it.all_fields(cls))
    for n in names:
        if n in over:
            kw[n] = over[n]
        elif n in ("requires_F_reset",) or n.startswith(("is_", "use_", "init_by")):
            continue
        else:
            kw[n] = pyfloat("law." + n)
    kw.update({k: v for k, v in over.items() if k in names})
    return S.new(name, **{k: v for k, v in kw.items() if v is not OMIT})


class _Omit:
    pass


OMIT = _Omit()
STATES = {"LinearElasticLaw": "LinearElasticState", "NewtonFluid": "NewtonFluidState", "MuI_LC": "MuIState",
          "DruckerPrager": "DruckerPragerState", "ModifiedCamClay": "ModifiedCamClayState"}
LAW_RANGES = {}


def law_scene(R, name, dim=3, over=None, store_F=True, mp_over=None):
    S = R.use(Scene(dim))
    law = law_obj(S, name, **(over or {}))
    mp = S.body(0, store_F=store_F, **(mp_over or {}))
    ls = S.sym_obj(STATES[name], "ls", {"num_points": size("N0")})
    res = S.call(law, "update", mp, ls, pyfloat("dt"))
    return S, law, mp, ls, res
