"""C21 tensor and state helpers satisfy their defining identities"""
from .common import *
from .tens import *
from .c11 import tied_diag

N0 = size("N0")
Q = P
A = lambda n: X.sym(n)
RG = {"A": (-2, 2), "B": (-2, 2), "S": (-2, 2), "F": (-0.2, 0.2), "phi": (0.3, 0.8), "e": (0.3, 1.5), "d0": (1000, 1600), "d1": (2000, 2700), "m": (0.5, 2), "V": (0.5, 2), "dt": (0.01, 0.1),
      "p": (0.5, 3), "gd": (0.1, 2), "dia": (0.1, 0.5), "rhop": (1, 3), "q": (-1, 1), "v": (-2, 2), "th": (-3, 3), "w": (-1, 1)}
HALF = X.div(X.ONE, X.C(2))
FS = {"F": tied_diag(1.0, 0.3, 0.3)}


def mat(n):
    return sym_arr(n, (3, 3))


def half(n, s):
    """symmetric (s=1) or antisymmetric (s=-1) part of a symbolic tensor"""
    return Arr((3, 3), lambda i, j: X.mul(HALF, X.add(X.sym(n, i, j), X.mul(X.C(s), X.sym(n, j, i)))))


def mats(n):
    return sym_arr(n, (N0, 3, 3))


def col(n):
    return sym_arr(n, (N0,))


def M(n):
    return T(lambda i, j: X.sym(n, X.C(i), X.C(j)))


def run(R):
    R.ranges = RG
    with R.group("tensor helpers"):
        tensors(R)
    with R.group("strain measures"):
        strains(R)
    with R.group("scalar helpers"):
        scalars(R)
    with R.group("rotations"):
        rotations(R)
    with R.group("matrix inverses"):
        inverses(R)
    with R.group("batched forms"):
        batched(R)
    for dim in (3, 2):
        with R.group("derived particle properties %dD" % dim):
            derived(R, dim)


class H:
    """helpers by name; absent ones are skipped"""

    def __init__(self, R):
        self.R, self.S = R, R.use(Scene(3))

    def __call__(self, name, *a, **kw):
        if not self.S.has(name):
            return None
        return self.S.it.call(self.S.cls(name), list(a), kw)


def safe(R, rule, name, f):
    """one helper = one group, so that a crash in one does not hide the others"""
    with R.group(name, key="completes/" + name):
        f()


def tm(R, rule, name, got, ref, **kw):
    if got is None:
        return R.ob(rule, name, None, "helper absent")
    R.eqa(rule, name, got, lambda i, j: ref.at(i, j), **kw)


def ts(R, rule, name, got, ref, **kw):
    if got is None:
        return R.ob(rule, name, None, "helper absent")
    R.eq(rule, name, got, ref, **kw)


def j2(s):
    d = s.dev()
    return X.mul(HALF, d.dd(d))


def tensors(R):
    h = H(R)
    a, b, s = M("A"), M("B"), M("S")
    tr3 = X.div(a.tr(), X.C(3))
    gp = a - EYE * X.sym("p")
    cases = [
        ("symmetric part", "get_sym_tensor", lambda: tm(R, "symmetric part", "get_sym_tensor", h("get_sym_tensor", mat("A")), a.sym())),
        ("spin part", "get_spin_tensor", lambda: tm(R, "spin part", "get_spin_tensor", h("get_spin_tensor", mat("A")), a.skew())),
        ("spin part", "get_skew_tensor", lambda: tm(R, "spin part", "get_skew_tensor", h("get_skew_tensor", mat("A")), a.skew())),
        ("", "get_strain_rate_tensor", lambda: tm(R, "strain rate = symmetric part", "get_strain_rate_tensor", h("get_strain_rate_tensor", mat("A")), a.sym())),
        ("", "get_double_contraction", lambda: ts(R, "double contraction", "get_double_contraction", h("get_double_contraction", mat("A"), mat("B")), a.dd(b))),
        ("", "get_pressure", lambda: ts(R, "pressure = mean of the diagonal", "get_pressure", h("get_pressure", mat("A")), tr3)),
        ("", "get_dev_stress", lambda: tm(R, "deviator = tensor minus pressure part", "get_dev_stress", h("get_dev_stress", mat("A")), a.dev())),
        ("", "get_dev_stress p", lambda: tm(R, "deviator uses the given pressure", "get_dev_stress", h("get_dev_stress", mat("A"), scalar(X.sym("p"), "f")), a - EYE * X.sym("p"))),
        ("", "get_J2", lambda: ts(R, "J2 = half the deviator contraction", "get_J2", h("get_J2", mat("A")), j2(a))),
        ("", "get_J2 p", lambda: ts(R, "the given pressure is used", "get_J2", h("get_J2", mat("A"), pressure=scalar(X.sym("p"), "f")), X.mul(HALF, gp.dd(gp)))),
        ("", "get_q_vm p", lambda: ts(R, "the given pressure is used", "get_q_vm", h("get_q_vm", mat("A"), pressure=scalar(X.sym("p"), "f")), X.sqrt(X.mul(X.C(1.5), gp.dd(gp))))),
        ("", "get_scalar_shear_stress p", lambda: ts(R, "the given pressure is used", "get_scalar_shear_stress", h("get_scalar_shear_stress", mat("A"), None, scalar(X.sym("p"), "f")), X.sqrt(X.mul(HALF, gp.dd(gp))))),
        ("", "get_scalar_shear_stress dev", lambda: ts(R, "the given deviator is used", "get_scalar_shear_stress", h("get_scalar_shear_stress", None, mat("B"), None), X.sqrt(X.mul(HALF, b.dd(b))))),
        ("", "get_dev_strain v", lambda: tm(R, "the given volumetric strain is used", "get_dev_strain", h("get_dev_strain", mat("A"), scalar(X.sym("p"), "f")), a - EYE * X.div(X.sym("p"), X.C(3)))),
        ("", "get_J2 both", lambda: ts(R, "the given deviator is used", "get_J2 with stress and deviator", h("get_J2", mat("A"), mat("B")), X.mul(HALF, b.dd(b)))),
        ("", "get_q_vm both", lambda: ts(R, "the given deviator is used", "get_q_vm with stress and deviator", h("get_q_vm", mat("A"), mat("B")), X.sqrt(X.mul(X.C(1.5), b.dd(b))))),
        ("", "get_J2 dev", lambda: ts(R, "J2 = half the deviator contraction", "get_J2 from deviator", h("get_J2", dev_stress=mat("B")), X.mul(HALF, b.dd(b)))),
        ("", "get_q_vm", lambda: ts(R, "q = sqrt(3 J2)", "get_q_vm", h("get_q_vm", mat("A")), X.sqrt(X.mul(X.C(3), j2(a))))),
        ("", "get_q_vm dev", lambda: ts(R, "q = sqrt(3 J2)", "get_q_vm from deviator", h("get_q_vm", dev_stress=mat("B")), X.sqrt(X.mul(X.C(1.5), b.dd(b))))),
        ("", "get_scalar_shear_stress", lambda: ts(R, "scalar shear stress = sqrt(J2)", "get_scalar_shear_stress", h("get_scalar_shear_stress", mat("A"), None, None), X.sqrt(j2(a)))),
        ("", "get_volumetric_strain", lambda: ts(R, "volumetric strain = trace", "get_volumetric_strain", h("get_volumetric_strain", mat("A")), a.tr())),
        ("", "get_dev_strain", lambda: tm(R, "strain deviator is trace-free part", "get_dev_strain", h("get_dev_strain", mat("A")), a.dev())),
        ("", "get_shear_strain_vm", lambda: ts(R, "equivalent shear strain = sqrt(2/3 dev:dev)", "get_shear_strain_vm", h("get_shear_strain_vm", mat("A")),
                                               X.sqrt(X.mul(X.div(X.C(2), X.C(3)), a.dev().dd(a.dev()))))),
        ("", "get_shear_strain_vm dev", lambda: ts(R, "equivalent shear strain = sqrt(2/3 dev:dev)", "get_shear_strain_vm from deviator", h("get_shear_strain_vm", dev_strain=mat("B")),
                                                   X.sqrt(X.mul(X.div(X.C(2), X.C(3)), b.dd(b))))),
        ("", "get_scalar_shear_strain", lambda: ts(R, "scalar shear strain = sqrt(1/2 dev:dev)", "get_scalar_shear_strain", h("get_scalar_shear_strain", mat("A")),
                                                   X.sqrt(X.mul(HALF, a.dev().dd(a.dev()))))),
        ("", "get_plastic_strain", lambda: tm(R, "plastic strain = total minus elastic", "get_plastic_strain", h("get_plastic_strain", mat("A"), mat("B")), a - b)),
        ("", "get_jaumann_increment", lambda: tm(R, "objective increment rotates with the spin", "get_jaumann_increment", h("get_jaumann_increment", half("A", 1), half("B", -1), pyfloat("dt")),
                                                 rot(a.sym(), b.skew(), X.sym("dt")))),
        ("", "sum of parts", lambda: parts(R, h, a)),
    ]
    for _, nm, f in cases:
        safe(R, "", nm, f)


def parts(R, h, a):
    s, w, p, d = h("get_sym_tensor", mat("A")), h("get_spin_tensor", mat("A")), h("get_pressure", mat("A")), h("get_dev_stress", mat("A"))
    if None not in (s, w):
        R.eqa("symmetric and spin parts add up to the tensor", "get_sym_tensor + get_spin_tensor", s, lambda i, j: X.sub(a.at(i, j), lift(w).at(i, j)))
    if None not in (p, d):
        R.eqa("pressure part and deviator add up to the tensor", "get_pressure + get_dev_stress", d,
              lambda i, j: X.sub(a.at(i, j), lift(p).at()) if i is j or X.cval(i) == X.cval(j) else a.at(i, j))
        R.eq("deviator is trace free", "get_dev_stress", X.add(*[lift(d).at(X.C(i), X.C(i)) for i in R3]), X.ZERO)


def strains(R):
    h = H(R)
    f = M("F")
    b = f @ f.t()

    def hencky():
        e = h("get_hencky_strain", mat("F"))
        if e is None:
            return R.ob("Hencky strain", "get_hencky_strain", None, "helper absent")
        ms = [b(i, j) for i in R3 for j in R3]
        ref = T(lambda i, j: X.mul(X.neg(HALF), X.add(*[X.mul(X.fn("svd_u", X.C(i), X.C(k), *ms), X.log(X.fn("svd_s", X.C(k), *ms)), X.fn("svd_u", X.C(j), X.C(k), *ms)) for k in R3])))
        tm(R, "Hencky strain = -1/2 log(F F^T)", "get_hencky_strain", e, ref, special=FS)
        ts(R, "volumetric Hencky strain = -log det F", "get_hencky_strain", T(lambda i, j: lift(e).at(X.C(i), X.C(j))).tr(), X.neg(X.log(det(f))), special=FS)
        tm(R, "Hencky strain is symmetric", "get_hencky_strain", e, T(lambda i, j: lift(e).at(X.C(j), X.C(i))), special=FS)
        for nm, c in (("large stretch", 40.0), ("large compression", 0.02)):
            ext = {"F": tied_diag(c, 0.3 * c, 0.3 * c)}
            ts(R, "volumetric Hencky strain = -log det F", "get_hencky_strain at %s" % nm, T(lambda i, j: lift(e).at(X.C(i), X.C(j))).tr(), X.neg(X.log(det(f))), special=ext, key=nm)
    safe(R, "", "get_hencky_strain", hencky)
    safe(R, "", "get_small_strain", lambda: tm(R, "small strain, compression positive", "get_small_strain", h("get_small_strain", mat("F")), EYE - f.sym()))


def scalars(R):
    h = H(R)
    x = lambda n: scalar(X.sym(n), "f", "float")
    s = X.sym
    v = X.div(X.ONE, s("phi"))

    def conv():
        ts(R, "void ratio from solid fraction", "phi_to_e", h("phi_to_e", x("phi")), X.sub(v, X.ONE))
        ts(R, "solid fraction from void ratio", "e_to_phi", h("e_to_phi", x("e")), X.div(X.ONE, X.add(X.ONE, s("e"))))
        ts(R, "conversions are mutually inverse", "e_to_phi(phi_to_e)", h("e_to_phi", h("phi_to_e", x("phi"))), s("phi"))
        ts(R, "conversions are mutually inverse", "phi_to_e(e_to_phi)", h("phi_to_e", h("e_to_phi", x("e"))), s("e"))
    safe(R, "", "phi_to_e", conv)

    def dens():
        ts(R, "void ratio from densities", "get_e_from_bulk_density", h("get_e_from_bulk_density", x("d1"), x("d0")), X.sub(X.div(s("d1"), s("d0")), X.ONE))
        ts(R, "solid fraction = bulk density over grain density", "get_phi_from_bulk_density", h("get_phi_from_bulk_density", x("d1"), x("d0")), X.div(s("d0"), s("d1")))
    safe(R, "", "get_e_from_bulk_density", dens)
    safe(R, "", "get_phi_from_L", lambda: ts(R, "solid fraction follows the volume change", "get_phi_from_L", h("get_phi_from_L", mat("A"), x("phi"), x("dt")),
                                             X.div(s("phi"), X.sub(X.ONE, X.mul(s("dt"), M("A").tr())))))
    safe(R, "", "get_KE", lambda: ts(R, "kinetic energy = 1/2 m v.v", "get_KE", h("get_KE", x("m"), sym_arr("v", (3,))),
                                     X.mul(HALF, s("m"), X.add(*[X.power(s("v", X.C(k)), X.C(2)) for k in R3]))))
    safe(R, "", "get_inertial_number", lambda: ts(R, "inertial number = rate * d / sqrt(p / rho)", "get_inertial_number", h("get_inertial_number", x("p"), x("gd"), x("dia"), x("rhop")),
                                                  X.div(X.mul(s("gd"), s("dia")), X.sqrt(X.div(s("p"), s("rhop"))))))
    safe(R, "", "safe_norm", lambda: ts(R, "guarded norm is the norm", "safe_norm", h("safe_norm", sym_arr("v", (3,))), X.sqrt(X.add(*[X.power(s("v", X.C(k)), X.C(2)) for k in R3]))))


def quat(n):
    """unit quaternion built from four free symbols"""
    l = X.sqrt(X.add(*[X.power(X.sym(n, X.C(k)), X.C(2)) for k in range(4)]))
    return Arr((4,), lambda i: X.div(X.sym(n, i), l), "f")


def qrot(q, v):
    """rotation matrix form of a unit quaternion acting on v"""
    w, x, y, z = [q.at(X.C(k)) for k in range(4)]
    one, two = X.ONE, X.C(2)
    m = X.mul
    sq = lambda a: m(a, a)
    Rm = [[X.sub(one, m(two, X.add(sq(y), sq(z)))), m(two, X.sub(m(x, y), m(w, z))), m(two, X.add(m(x, z), m(w, y)))],
          [m(two, X.add(m(x, y), m(w, z))), X.sub(one, m(two, X.add(sq(x), sq(z)))), m(two, X.sub(m(y, z), m(w, x)))],
          [m(two, X.sub(m(x, z), m(w, y))), m(two, X.add(m(y, z), m(w, x))), X.sub(one, m(two, X.add(sq(x), sq(y))))]]
    return [X.add(*[m(Rm[i][j], v(j)) for j in R3]) for i in R3]


def rotations(R):
    h = H(R)
    q = quat("q")
    v = sym_arr("v", (3,))
    sv = lambda j: X.sym("v", X.C(j))

    def q3():
        r = h("quaternion_rotate", q, v)
        if r is None:
            return
        ref = qrot(q, sv)
        R.eqa("quaternion rotation", "quaternion_rotate", r, lambda i: ref[int(X.cval(i))])
        R.eq("rotation preserves length", "quaternion_rotate", X.add(*[X.power(lift(r).at(X.C(k)), X.C(2)) for k in R3]), X.add(*[X.power(sv(k), X.C(2)) for k in R3]))
        qi = h("quaternion_inv", q)
        if qi is not None:
            R.eqa("inverse rotation undoes the rotation", "quaternion_inv", h("quaternion_rotate", qi, r), lambda i: X.sym("v", i))
    safe(R, "", "quaternion_rotate", q3)

    def r2():
        th = scalar(X.sym("th"), "f")
        u = sym_arr("v", (2,))
        r = h("rotation_2d", th, u)
        if r is None:
            return
        c, s = X.func("cos", X.sym("th")), X.func("sin", X.sym("th"))
        R.eqa("plane rotation is counter-clockwise", "rotation_2d", r, lambda i: [X.sub(X.mul(c, sv(0)), X.mul(s, sv(1))), X.add(X.mul(s, sv(0)), X.mul(c, sv(1)))][int(X.cval(i))])
        b = h("rotation_2d_inv", th, r)
        if b is not None:
            R.eqa("inverse rotation undoes the rotation", "rotation_2d_inv", b, lambda i: X.sym("v", i))
        up = h("rotate_2d_update", th, scalar(X.sym("w"), "f"), pyfloat("dt"))
        ts(R, "plane angle advances by rate * dt", "rotate_2d_update", up, X.add(X.sym("th"), X.mul(X.sym("w"), X.sym("dt"))))
    safe(R, "", "rotation_2d", r2)

    def integ():
        r = h("integrate_quaternion", q, sym_arr("w", (3,)), pyfloat("dt"))
        if r is None:
            return
        r = lift(r)
        R.eq("integrated orientation is normalised", "integrate_quaternion", X.add(*[X.power(r.at(X.C(k)), X.C(2)) for k in range(4)]), X.ONE)
        # q + dt/2 (0,w) q, normalised
        a = [q.at(X.C(k)) for k in range(4)]
        w = [X.ZERO] + [X.sym("w", X.C(k)) for k in R3]
        m, n = X.mul, X.neg
        wq = [X.add(n(m(w[1], a[1])), n(m(w[2], a[2])), n(m(w[3], a[3]))),
              X.add(m(w[1], a[0]), m(w[2], a[3]), n(m(w[3], a[2]))),
              X.add(n(m(w[1], a[3])), m(w[2], a[0]), m(w[3], a[1])),
              X.add(m(w[1], a[2]), n(m(w[2], a[1])), m(w[3], a[0]))]
        t = [X.add(a[k], m(HALF, X.sym("dt"), wq[k])) for k in range(4)]
        l = X.sqrt(X.add(*[X.power(x, X.C(2)) for x in t]))
        R.eqa("orientation advances with the angular velocity", "integrate_quaternion", r, lambda i: X.div(t[int(X.cval(i))], l))
    safe(R, "", "integrate_quaternion", integ)


def inverses(R):
    h = H(R)
    sp = {"A": tied_diag(1.5, 0.3, 0.4)}

    def inv(name, n):
        m = sym_arr("A", (n, n))
        r = h(name, m)
        if r is None:
            return
        r = lift(r)
        R.eqa("matrix times inverse is the identity", name, Arr((n, n), lambda i, j: X.add(*[X.mul(m.at(i, X.C(k)), r.at(X.C(k), j)) for k in range(n)]), "f"),
              lambda i, j: X.ONE if X.cval(i) == X.cval(j) else X.ZERO, loc=r.src, special=sp)
    safe(R, "", "inv_3x3_robust", lambda: inv("inv_3x3_robust", 3))
    safe(R, "", "inv_2x2_robust", lambda: inv("inv_2x2_robust", 2))
    safe(R, "", "safe_inv_scalar_clamped", lambda: ts(R, "guarded reciprocal is the reciprocal", "safe_inv_scalar_clamped", h("safe_inv_scalar_clamped", scalar(X.sym("m"), "f")), X.div(X.ONE, X.sym("m"))))


def row(x, q):
    x = lift(x)
    return Arr(x.shape[1:], lambda *i: x.at(q, *i), x.dt)


def batched(R):
    h = H(R)
    pairs = [  # batched name, single name, arguments ("m" matrix stack, "c" column, "x" shared scalar)
        ("get_double_contraction_stack", "get_double_contraction", "mn"), ("get_pressure_stack", "get_pressure", "m"), ("get_dev_stress_stack", "get_dev_stress", "m"),
        ("get_dev_stress_stack", "get_dev_stress", "mc"), ("get_q_vm_stack", "get_q_vm", "m"), ("get_J2_stack", "get_J2", "m"), ("get_volumetric_strain_stack", "get_volumetric_strain", "m"),
        ("get_hencky_strain_stack", "get_hencky_strain", "f"), ("get_dev_strain_stack", "get_dev_strain", "m"), ("get_strain_rate_tensor_stack", "get_strain_rate_tensor", "m"),
        ("get_shear_strain_vm_stack", "get_shear_strain_vm", "m"), ("get_KE_stack", "get_KE", "cv"), ("get_inertial_number_stack", "get_inertial_number", "pgxy"),
        ("get_plastic_strain_stack", "get_plastic_strain", "mn"), ("get_small_strain_stack", "get_small_strain", "f"), ("phi_to_e_stack", "phi_to_e", "c"), ("e_to_phi_stack", "e_to_phi", "c"),
        ("get_sym_tensor_stack", "get_sym_tensor", "m"), ("get_skew_tensor_stack", "get_skew_tensor", "m"), ("get_phi_from_bulk_density_stack", "get_phi_from_bulk_density", "xc"),
        ("get_scalar_shear_stress_stack", "get_scalar_shear_stress", "m--"), ("get_q_vm_stack", "get_q_vm", "m-c"), ("get_q_vm_stack", "get_q_vm", "-nc"), ("get_q_vm_stack", "get_q_vm", "-n"),
        ("get_J2_stack", "get_J2", "m-c"), ("get_J2_stack", "get_J2", "-n"), ("get_scalar_shear_stress_stack", "get_scalar_shear_stress", "m-c"),
        ("get_scalar_shear_stress_stack", "get_scalar_shear_stress", "-n-"), ("get_shear_strain_vm_stack", "get_shear_strain_vm", "-n"), ("get_scalar_shear_strain_stack", "get_scalar_shear_strain", "m"),
    ]
    mk = {"m": lambda: mats("A"), "n": lambda: mats("B"), "f": lambda: mats("F"), "c": lambda: col("m"), "p": lambda: col("p"), "g": lambda: col("gd"), "v": lambda: sym_arr("v", (N0, 3)),
          "x": lambda: pyfloat("dia"), "y": lambda: pyfloat("rhop"), "-": lambda: None}
    for b, s, args in pairs:
        if not (h.S.has(b) and h.S.has(s)):
            continue

        def one(b=b, s=s, args=args):
            full = [mk[a]() for a in args]
            got = lift(h(b, *full))
            if isinstance(got, Top):
                return R.ob("batched form = single form row by row", b, None, "unknown")
            single = h(s, *[row(x, Q) if a not in "xy-" else x for a, x in zip(args, full)])
            sg = lift(single)
            if got.shape and isinstance(got.shape[0], int):
                return R.ob("batched form = single form row by row", b, False, "no row per particle: shape %s" % (got.shape,), got.src)
            R.eqa("batched form = single form row by row", "%s(%s)" % (b, args), row(got, Q), lambda *i: sg.at(*i), loc=got.src, special=FS)
        safe(R, "", b, one)


def derived(R, dim):
    S = R.use(Scene(dim))
    mp = S.body(0, store_F=True)
    sp = {"p0.F_stack": tied_diag(1.0, 0.3, 0.3), "p0.F_store_stack": tied_diag(1.0, 0.3, 0.3)}
    m, V = X.sym("p0.mass_stack", Q), X.sym("p0.volume_stack", Q)
    sig, L = stack(mp.f["stress_stack"], Q), stack(mp.f["L_stack"], Q)
    rg = {"p0.mass_stack": (0.5, 2), "p0.volume_stack": (0.5, 2), "p0.volume0_stack": (0.5, 2)}
    ms = lambda name: [X.sym(name, Q, X.C(i), X.C(j)) for i in R3 for j in R3]

    def hen(name):
        f = ms(name)
        return T(lambda i, j: X.neg(X.add(*[X.mul(X.fn("svd_u", X.C(i), X.C(k), *f), X.log(X.fn("svd_s", X.C(k), *f)), X.fn("svd_u", X.C(j), X.C(k), *f)) for k in R3])))
    vm = lambda e: X.sqrt(X.mul(X.div(X.C(2), X.C(3)), e.dev().dd(e.dev())))
    eps, st = hen("p0.F_stack"), hen("p0.F_store_stack")
    sc = {
        "density_stack": X.div(m, V), "density_ref_stack": X.div(m, X.sym("p0.volume0_stack", Q)), "pressure_stack": X.div(sig.tr(), X.C(3)),
        "KE_stack": X.mul(HALF, m, X.add(*[X.power(X.sym("p0.velocity_stack", Q, X.C(k)), X.C(2)) for k in range(dim)])),
        "q_stack": X.sqrt(X.mul(X.C(3), j2(sig))), "eps_v_stack": eps.tr(), "shear_strain_rate_stack": vm(L.sym()), "shear_strain_stack": vm(eps), "stored_shear_strain_stack": vm(st),
    }
    te = {"eps_stack": eps, "stored_eps_stack": st, "deps_dt_stack": L.sym()}
    for f, ref in list(sc.items()) + list(te.items()):
        if mp.cls.lookup(f) is None:
            continue

        def one(f=f, ref=ref):
            v = S.it.getattr(mp, f)
            if isinstance(v, Top):
                return R.ob("derived property = helper of the stored fields", f, None, "unknown")
            if v is None:
                return R.ob("derived property = helper of the stored fields", f, False, "the property returns nothing")
            v = lift(v)
            if isinstance(ref, T):
                R.eqa("derived property = helper of the stored fields", "%s %dD" % (f, dim), row(v, Q), lambda i, j: ref.at(i, j), loc=v.src, ranges=rg, special=sp)
            else:
                R.eq("derived property = helper of the stored fields", "%s %dD" % (f, dim), v.at(Q), ref, loc=v.src, ranges=rg, special=sp)
        safe(R, "", "%s %dD" % (f, dim), one)
    for f, ref in (("q_p_stack", X.div(sc["q_stack"], sc["pressure_stack"])), ("KE_density_stack", X.div(sc["KE_stack"], V))):
        if mp.cls.lookup(f) is None:
            continue
        key = "unimplemented/" + f
        try:
            v = S.it.getattr(mp, f)
        except PyErr as e:
            R.ob("derived property is implemented or refuses", f, True if e.kind == "NotImplementedError" else None, "raises %s" % e.kind)
            continue
        if v is None:
            R.ob("derived property is implemented or refuses", f, False, "%s silently returns nothing" % f, key=key)
        elif not isinstance(v, Top):
            R.eq("derived property = helper of the stored fields", f, lift(v).at(Q), ref, ranges=rg)
    R.eq("particle count", "num_points %dD" % dim, S.get(mp, "num_points"), N0) if False else None
