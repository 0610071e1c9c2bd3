"""C25 critical time step: safety * cell size / max over particles (wave speed + particle speed)"""
from .laws import *
from .c11 import PAR
from .tens import *

L_ = lambda n: X.sym("law." + n)


def shear(K, nu):
    return X.div(X.mul(X.C(3), K, X.sub(X.ONE, X.mul(X.C(2), nu))), X.mul(X.C(2), X.add(X.ONE, nu)))


def modulus(name):
    """stiffness governing the fastest elastic wave"""
    K, nu, E = L_("K"), L_("nu"), L_("E")
    f = X.div(X.C(4), X.C(3))
    if name == "LinearElasticLaw":
        K = X.div(E, X.mul(X.C(3), X.sub(X.ONE, X.mul(X.C(2), nu))))
        return X.add(K, X.mul(f, X.div(E, X.mul(X.C(2), X.add(X.ONE, nu)))))
    if name == "DruckerPrager":
        return X.add(K, X.mul(f, shear(K, nu)))
    if name == "NewtonFluid":
        return X.mul(K, L_("beta"))
    return K


def run(R):
    R.ranges = dict(PAR)
    R.ranges.update({"h": (0.2, 2.0), "safety": (0.1, 0.9), "p0.velocity_stack": (-3, 3)})
    for name in ("LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager"):
        for dim in (3, 2):
            with R.group("%s %dD" % (name, dim)):
                estimate(R, name, dim)
    # any other law offering an estimate is held to the same shape
    S = R.use(Scene(3))
    known = {"LinearElasticLaw", "NewtonFluid", "MuI_LC", "DruckerPrager"}
    if S.has("ModifiedCamClay"):
        c = S.cls("ModifiedCamClay")
        own = c.lookup("get_dt_crit")
        R.ob("laws with an estimate are all decided", "ModifiedCamClay", True if own is None else None, "offers none" if own is None else "new estimate")


def estimate(R, name, dim):
    S = R.use(Scene(dim))
    law = law_obj(S, name)
    mp = S.body(0)
    h, a = pyfloat("h"), pyfloat("safety")
    q = X.fresh_bv(size("N0"))
    rho = lambda q: X.div(X.sym("p0.mass_stack", q), X.sym("p0.volume_stack", q))
    speed = lambda q: X.sqrt(X.add(*[X.power(X.sym("p0.velocity_stack", q, X.C(k)), X.C(2)) for k in range(dim)]))
    sig = X.amax("max", q, X.add(X.sqrt(X.div(modulus(name), rho(q))), speed(q)))
    subj = "%s %dD" % (name, dim)
    r = S.call(law, "get_dt_crit", mp, h, a)
    R.eq("critical step = safety * cell size / max(wave speed + particle speed)", subj, lift(r).at() if not isinstance(r, Top) else None,
         X.div(X.mul(X.sym("safety"), X.sym("h")), sig))
    for f in ("mass_stack", "volume_stack", "velocity_stack"):
        R.depends("estimate uses the particles' current data", subj + " " + f, r, lambda n, f=f: n == "p0." + f)
    # default safety factor is a fraction
    r2 = S.call(law, "get_dt_crit", mp, h)
    fac = X.div(lift(r2).at(), lift(r).at())
    env = X.Env(1, R.ranges)
    v = env.ev(X.mul(fac, X.sym("safety")))
    R.ob("default safety factor lies between 0 and 1", subj, 0 < v <= 1, "default factor %.4g" % v)
