"""The library's public computations as data: an environment of objects built from a spec, calls on them by name, and a
canonical form of whatever a call returns."""
import sys
import threading

import numpy as np


class Env:
    """Objects by name, built on first use from (spec, name); the same spec gives the same values in any process."""

    def __init__(self, spec, fresh=None):
        self.spec = spec
        self.mods = spec.setdefault("mods", {})
        self.o = {}

    def get(self, name):
        if name not in self.o:
            v = build(self.spec, name)
            for m in self.mods.get(name, ()):
                v = modify(v, m)
            self.o[name] = v
        return self.o[name]

    def fresh(self, name):
        v = build(self.spec, name)
        for m in self.mods.get(name, ()):
            v = modify(v, m)
        return v

    def modify(self, name, m):
        """The program changes one of its own objects; later builds of the same spec include the change."""
        v = self.get(name)
        self.o[name] = modify(v, m)
        self.mods.setdefault(name, []).append(m)

    def snapshot(self):
        return {n: canon(v) for n, v in sorted(self.o.items())}


def rng_of(spec, name):
    return np.random.Generator(np.random.PCG64(abs(hash_str(f"{spec['seed']}:{name}"))))


def hash_str(s):
    import hashlib
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")


def cls(module, name):
    """A class of the package, or nothing if that module has not been imported."""
    m = sys.modules.get("starwinds_magnetogram." + module)
    return getattr(m, name) if m is not None and hasattr(m, name) else ()


def modify(v, m):
    k = m[0]
    if isinstance(v, np.ndarray):
        if not v.flags.writeable:
            return v
        if k == "mul":
            np.multiply(v, np.asarray(m[1], dtype=v.dtype), out=v)
        elif k == "elem":
            if v.size:
                v.flat[m[1] % v.size] *= 1 + m[2]
        elif k == "roll":
            v[...] = np.roll(v, 1, axis=-1)
    elif isinstance(v, cls("coefficients", "Coefficients")):
        if k == "set":
            v.set(m[1], m[2], np.full(len(v.default_coefficients), complex(m[3], m[4])))
        elif k == "mulset":
            for (l, o), x in list(v.contents()):
                v.set(l, o, x * m[1])
    elif isinstance(v, cls("zdi_magnetogram", "ZdiMagnetogram")):
        if k == "inplace":
            a = getattr(v, m[1])
            a *= m[2]
        elif k == "assign":
            setattr(v, m[1], getattr(v, m[1]) * m[2])
        elif k == "elem":
            a = getattr(v, m[1])
            a[m[2] % len(a)] += m[3]
    else:
        raise ValueError(k)
    return v


def mesh(spec, shift=0.0, dn=0):
    a, b = spec["np"] + dn, spec["na"] + dn
    turn = spec.get("turn", 0.0)
    shift += turn
    pc = np.linspace(0, np.pi * (1 - turn / 16), a + 1)
    ac = np.linspace(0, 2 * np.pi, b + 1) * (1 - abs(shift) / 8) + shift * 0.5
    p, z = np.meshgrid(0.5 * (pc[1:] + pc[:-1]), 0.5 * (ac[1:] + ac[:-1]))
    return pc, ac, p, z


def build(spec, name):
    g = rng_of(spec, name)
    deg = spec["deg"]
    base = name.rstrip("0123456789")
    idx = int(name[len(base):] or 0)
    pc, ac, p, z = mesh(spec)
    if base == "zdi":
        lm = [(l, m) for l in range(0 if idx == 2 else 1, deg + 1) for m in range(l + 1)]
        l, m = (np.array(x) for x in zip(*lm))
        c = [g.normal(size=len(lm)) + 1j * g.normal(size=len(lm)) for _ in range(3)]
        if idx == 1:
            c[0][0] = complex(-0.0, -0.0)
        from starwinds_magnetogram import zdi_magnetogram
        return zdi_magnetogram.ZdiMagnetogram(l, m, *c, dplm_method=("gradient", "gradient", "roll", "roll2")[idx % 4])
    if base in ("p", "n", "c"):
        from starwinds_magnetogram import coefficients as shc
        k = 3 if base == "c" else 1
        c = shc.Coefficients(np.zeros(k, dtype=complex))
        keys = [(l, m) for l in range(idx % 2, deg + 1) for m in range(-l if base == "n" else 0, l + 1)]
        if idx == 2:
            keys = [x for x in keys if g.random() < 0.5] or keys[-1:]
        if idx == 3:
            g.shuffle(keys)
        for l, m in keys:
            c.append(int(l), int(m), g.normal(size=k) + 1j * g.normal(size=k))
        return c
    if base == "g":
        if idx == 1:
            pc, ac, p, z = mesh(spec, shift=0.3)
        if idx == 2:
            pc, ac, p, z = mesh(spec, dn=1)
        if idx == 3:
            pc = pc.copy()
            pc[1:-1] += 0.02
        from starwinds_magnetogram import geometry
        return geometry.ZdiGeometry(pc, ac)
    if base in ("pl", "az"):
        v = p if base == "pl" else z
        if idx in (1, 4):
            v = v.copy()
            v[1 if idx == 1 else -1, 1 if idx == 1 else -2] += 1e-3
        elif idx == 2:
            v = mesh(spec, shift=0.3)[2 + (base == "az")]
        elif idx == 3:
            v = mesh(spec, dn=1)[2 + (base == "az")]
        elif idx == 5:
            v = np.asfortranarray(v)
        elif idx == 6:
            v = np.repeat(np.repeat(v, 2, axis=0), 2, axis=1)[::2, ::2]
        elif idx in (7, 8):
            v = np.meshgrid(np.arange(1, 5) / 8, np.arange(6) / 4)[base == "az"]
            v = v.astype(np.float32) if idx == 7 else v
        elif idx == 9:
            v = v.ravel()[::2].copy()
        elif idx == 10:
            v = v[::-1, ::-1].copy()
        elif idx == 11:
            v = v[:1, :] if base == "pl" else v[:, :1]
        elif idx == 12:
            v = np.array([0.0, np.pi, 0.0, 1.0, np.pi]) if base == "pl" else np.array([0.0, -0.0, 2.0, 2 * np.pi, -1.0])
        elif idx == 13:
            v = np.array([[1, 2, 3], [3, 1, 2]]) if base == "pl" else np.array([[0, 1, 6], [2, 3, 4]])
        elif idx == 14:
            v = mesh(dict(np=41, na=29))[2 + (base == "az")]
        elif idx == 15:
            v = v[:0]
        v = np.array(v) if idx not in (5, 6) else v
        if idx == 10:
            v.flags.writeable = False
        return v
    if base == "li":
        return [0.3, 1.1, 2.0] if idx == 0 else [0.1, 4.0, 2.0 + 1e-3 * idx]
    if base == "r":
        return 0.8 + 2.4 * g.random(p.shape) if idx else np.array([1.5])
    if base == "rad":
        v = 6.9551e8 * (0.5 + 5 * g.random(9))
        return v.astype(np.int64) if idx == 2 else v.reshape(3, 3) if idx == 3 else v
    if base in ("x", "y", "z"):
        v = g.normal(size=(2, 3)) + (1.0 if base == "x" else 0)
        if idx == 1:
            v[0, 0], v[1, "xyz".index(base)] = -0.0, -0.0
        if idx == 1 and base == "x":
            v[0, 0] = 0.5
        if idx == 2:
            v = np.abs(v) if base == "x" else v * 0.0
        return v
    if base == "img":
        v = g.normal(size=p.shape if idx < 2 else p.T.shape)
        v[0, 0] = -0.0
        return v
    if base == "f":
        v = g.normal(size=p.shape)
        v[0, 0] = -0.0
        return v
    if base == "vec":
        return g.normal(size=3)
    if base == "pk":
        from starwinds_magnetogram import parker_solution
        return parker_solution.ParkerSolution(temperature=(1.5e6, 1.50001e6, 3e6)[idx % 3], stellar_mass=(1.989e30, 1e30)[idx // 3 % 2])
    if base == "dl":
        return np.array([l for l in range(1, deg + 1) for m in range(l + 1)])
    if base == "om":
        return np.array([m for l in range(1, deg + 1) for m in range(l + 1)])
    if base == "v":
        return g.normal(size=(len(build(spec, "dl")), 3)) + 1j * g.normal(size=(len(build(spec, "dl")), 3))
    if base == "ph":
        return np.linspace(0, 5, 4) + idx
    if base == "vel":
        return np.linspace(0.2, 3.0, 5) + idx * 1e-3
    raise KeyError(name)


# ------------------------------------------------------------------ calls

def _m():
    from starwinds_magnetogram import (associated_legendre as al, coefficients as shc, converter as cv, coordinate_transforms as ct,
                                       fibonacci_sphere as fs, geometry as ge, image_converter as ic, longitudinal_field as lf,
                                       parker_solution as pk, pfss_magnetogram as pf, zdi_magnetogram as zd)
    return dict(locals())


def S(s):
    return {"s": s}


def grid(r):
    k = r.choice((0, 0, 0, 1, 2, 3, 4, 5, 6, 10))
    return [f"pl{k}", f"az{k}"]


def near(r):
    """Two coordinate arrays of one shape that need not belong together."""
    x = r.random()
    if x < 0.25:
        # Other forms of input: flat, broadcast against each other, on the poles, numbers, lists, whole numbers, many points, none.
        return r.choice((["pl9", "az9"], ["pl9", "az9"], ["pl11", "az11"], ["pl11", "az11"], ["pl12", "az12"], ["pl12", "az12"], [0.7, 1.9], [0.7, 2.0],
                         ["li0", "li1"], ["li0", "li2"], ["pl13", "az13"], ["pl14", "az14"], ["pl15", "az15"], ["pl9", 0.5]))
    return [r.choice(("pl0", "pl0", "pl1", "pl2", "pl4", "pl5", "pl6", "pl10")), r.choice(("az0", "az0", "az1", "az2", "az4", "az6", "az10"))]


ZD = lambda r: r.choice(("zdi0", "zdi0", "zdi1", "zdi2", "zdi3"))
P1 = lambda r: r.choice(("p0", "p0", "p1", "p2", "p3"))
C3 = lambda r: r.choice(("c0", "c0", "c1", "c2", "c3"))
XYZ = lambda r: [x + (r.choice("01") if r.random() < 0.85 else "2") for x in "xyz"] if r.random() < 0.85 else ["x2", "y2", "z2"]
CX = lambda r: r.choice(("p0", "p1", "p2", "n0", "c0", "c1", "c2"))
GE = lambda r: r.choice(("g0", "g0", "g1", "g2", "g3"))
PK = lambda r: r.choice(("pk0", "pk0", "pk1", "pk2"))

FIELDS = ("get_radial_poloidal_field", "get_radial_toroidal_field", "get_radial_field", "get_azimuthal_poloidal_field",
          "get_azimuthal_toroidal_field_new", "get_azimuthal_field", "get_polar_poloidal_field", "get_polar_poloidal_field_new",
          "get_polar_toroidal_field", "get_polar_field", "get_field_strength", "get_cartesian_field", "get_cartesian_poloidal_field",
          "get_cartesian_toroidal_field", "get_azimuthal_toroidal_field")


def _pair(r):
    a = CX(r)
    return [a, r.choice([x for x in ("p0", "p1", "p2", "n0", "n1", "c0", "c1", "c2") if (x[0] == "c") == (a[0] == "c")])]


def short(a):
    """Arguments left at None are left out of the call."""
    a = list(a)
    while a and a[-1] is None:
        a.pop()
    return a


CAT = {}


def call(name, gen, weight=1.0, slow=False):
    def deco(f):
        CAT[name] = (gen, f, weight, slow)
        return f
    return deco


for _n in FIELDS:
    call(f"zdi.{_n}", lambda r: [ZD(r)] + near(r), 0.15 if _n in ("get_cartesian_toroidal_field", "get_azimuthal_toroidal_field") else 1.0)(lambda M, z, p, a, _n=_n: getattr(z, _n)(p, a))

call("zdi.energy", lambda r: [ZD(r), r.random() < 0.3], 1.5)(lambda M, z, show: _energy(z, show))
call("zdi.energy_matrix", lambda r: [ZD(r)])(lambda M, z: z.energy_matrix())
call("zdi.degree", lambda r: [ZD(r)], 0.3)(lambda M, z: z.degree())
call("zdi.str", lambda r: [ZD(r)], 0.3)(lambda M, z: str(z))
call("zdi.get_all", lambda r: [ZD(r)] + near(r), 0.7)(lambda M, z, p, a: {k: {q: f(p, a) for q, f in d.items()} for k, d in z.get_all().items()})
call("zdi.as_restricted", lambda r: [ZD(r), r.choice(([1, 2], [2], [0, 9])), r.choice(([0, 1], [0, 1000], [1]))])(
    lambda M, z, d, o: z.as_restricted(d if len(d) > 1 else d[0], o if len(o) > 1 else o[0]))
call("zdi.as_dipole", lambda r: [ZD(r)])(lambda M, z: z.as_dipole())
call("zdi.as_poloidal", lambda r: [ZD(r)])(lambda M, z: z.as_poloidal())
call("zdi.as_toroidal", lambda r: [ZD(r)])(lambda M, z: z.as_toroidal())
call("zdi.copy", lambda r: [ZD(r)])(lambda M, z: z.copy())
call("zdi.from_coefficients", lambda r: [r.choice((C3(r), P1(r))), S(r.choice(("gradient", "roll")))])(
    lambda M, c, d: M["zd"].from_coefficients(c, dplm_method=d))
call("zdi.get_c_lm", lambda r: ["dl", "om", S(r.choice(("low_order", "other")))])(lambda M, l, m, k: M["zd"].get_c_lm(l, m, k))

call("pfss.theta_lm", lambda r: [r.randint(1, 4), 0, near(r)[0]])(lambda M, l, m, p: M["pf"].theta_lm(l, min(m, l), p))
call("pfss.calculate_all_theta", lambda r: ["dl", "om", near(r)[0], r.random() < 0.8], 0.7)(lambda M, l, m, p, s: M["pf"].calculate_all_theta(l, m, p, s))
call("pfss.r_l", lambda r: [r.randint(0, 4), r.choice(("r1", "r0", 1.5)), 1, r.choice((2.5, 3, 2.50001))])(lambda M, l, x, a, b: M["pf"].r_l(l, x, a, b))
call("pfss.phi_lm", lambda r: [r.randint(0, 3), 0.5, -1.25, near(r)[1]])(lambda M, m, g, h, a: M["pf"].phi_lm(m, g, h, a))
call("pfss.evaluate_spherical", lambda r: [P1(r), r.choice(("r1", "r1", "r0", 1.2))] + near(r) + [r.choice((None, 1, 1.05)), r.choice((None, 2.5, 3))], 2.0)(
    lambda M, *a: M["pf"].evaluate_spherical(*short(a)))
call("pfss.evaluate_cartesian", lambda r: [P1(r), *XYZ(r), r.choice((None, 1)), r.choice((None, 3))], 2.0)(
    lambda M, *a: M["pf"].evaluate_cartesian(*short(a)))
call("pfss.normal_plane", lambda r: XYZ(r)[:2] + [S(r.choice("xyz"))])(lambda M, a, b, n: M["pf"].normal_plane(a, b, n))

call("conv.convert_zdi_to_pfss", lambda r: [P1(r)], 1.5)(lambda M, c: M["cv"].convert_zdi_to_pfss(c))
call("conv.convert_pfss_to_zdi", lambda r: [P1(r)], 1.5)(lambda M, c: M["cv"].convert_pfss_to_zdi(c))
call("conv.map_to_positive_orders", lambda r: [r.choice(("n0", "n1", "n2", "p0"))], 1.5)(lambda M, c: M["cv"].map_to_positive_orders(c))
call("conv.forward_conversion_factor", lambda r: [r.randint(0, 5), r.randint(0, 4)], 0.5)(lambda M, l, m: M["cv"].forward_conversion_factor(l, m))
call("conv.collect_cosines", lambda r: [0.5, XYZ(r)[0], 1.5, XYZ(r)[1]], 0.4)(lambda M, *a: M["cv"].collect_cosines(*a))
call("conv.collect_sines", lambda r: [XYZ(r)[0], 0.1, "y0", "z0"], 0.4)(lambda M, *a: M["cv"].collect_sines(*a))
call("conv.convert_latlon_to_zdi", lambda r: grid(r)[:2] + ["f0", "f1", "f2", r.choice((None, 0.05)), r.choice((2, 3, 2, 3, 0))], 1.0)(
    lambda M, *a: M["cv"].convert_latlon_to_zdi(*a) if a[-1] else M["cv"].convert_latlon_to_zdi(*a[:-2]))
call("conv.convert_latlon_to_zdi_coeffs", lambda r: ["pl0", "az0", "f0", "f1", r.choice(("f2", "f3")), None, r.choice((2, 3))], 1.0)(
    lambda M, *a: M["cv"].convert_latlon_to_zdi_coeffs(*a))

call("rot.rotate_magnetogram_euler_zyz_deg", lambda r: [r.choice(("p0", "n0", "c0", "p2")), r.choice(([10, 20, 30], [0, 0, 0], [90, 0, 45], [10, 20, 31]))], 1.5, True)(
    lambda M, c, e: _rotate().rotate_magnetogram_euler_zyz_deg(c, e))

call("geo.centers", lambda r: [GE(r)])(lambda M, g: g.centers())
call("geo.corners", lambda r: [GE(r)])(lambda M, g: g.corners())
call("geo.areas", lambda r: [GE(r)])(lambda M, g: g.areas())
call("geo.unit_normals", lambda r: [GE(r)])(lambda M, g: g.unit_normals())
call("geo.shape", lambda r: [GE(r)], 0.3)(lambda M, g: g.shape)
call("geo.centers_cartesian", lambda r: [GE(r)])(lambda M, g: g.centers_cartesian())
call("geo.corners_cartesian", lambda r: [GE(r)])(lambda M, g: g.corners_cartesian())
call("geo.projected_visible_area_fraction", lambda r: [GE(r), r.choice(("vec0", "vec1"))])(lambda M, g, v: g.projected_visible_area_fraction(v))
call("geo.ZdiGeometry", lambda r: r.choice(([4, 7], [5, None], [4, 8], [5, 7])))(lambda M, *a: M["ge"].ZdiGeometry(*a))
call("geo.numerical_description", lambda r: [r.choice(("g0", "g0", "g2", "g1")), ZD(r), r.random() < 0.5], 1.0)(
    lambda M, g, z, d: M["ge"].numerical_description(g, z, {"kept": 1}) if d else M["ge"].numerical_description(g, z))
call("lf.get_longitudinal_field_curve", lambda r: [GE(r), ZD(r), r.choice((0.3, 1.2)), r.choice((None, "ph0", "ph1"))], 1.5)(
    lambda M, *a: M["lf"].get_longitudinal_field_curve(*short(a)))

call("parker.speed", lambda r: [PK(r), r.choice(("rad0", "rad0", "rad1", "rad2", "rad3", 8e8))], 1.5)(lambda M, p, x: p.speed(x))
call("parker.density", lambda r: [PK(r), r.choice(("rad0", "rad0", "rad1", "rad2", "rad3", 8e8))], 1.5)(lambda M, p, x: p.density(x))
call("parker.str", lambda r: [PK(r)], 0.3)(lambda M, p: str(p))
call("parker.total_mass_flux", lambda r: [PK(r)], 0.4)(lambda M, p: p.total_mass_flux)
call("parker.ParkerSolution", lambda r: [r.choice((1e6, 2e6)), r.choice((1e-12, 3e-12))])(lambda M, t, d: M["pk"].ParkerSolution(t, d))
call("parker.parker_lhs", lambda r: ["vel0"], 0.4)(lambda M, v: M["pk"].AnalyticBase.parker_lhs(v))
call("parker.parker_rhs", lambda r: [r.choice(("vel0", "vel1"))], 0.4)(lambda M, v: M["pk"].AnalyticBase.parker_rhs(v))
call("parker.find_parker_analytic", lambda r: [r.choice(("vel0", "vel1")), r.random() < 0.3], 0.7)(
    lambda M, v, a: M["pk"].ParkerSolution.find_parker_analytic(v, a))

call("img.spherical_harmonic", lambda r: [r.randint(-2, 2), r.randint(2, 4)] + (lambda g: [g[1], g[0]])(
    r.choice((grid(r), grid(r), ["pl7", "az7"], ["pl8", "az8"], near(r)))) + [r.random() < 0.9], 4.0)(
    lambda M, m, l, a, p, c: M["ic"].spherical_harmonic(m, l, a, p, c))
call("img.from_image", lambda r: [r.choice(("img0", "img1")), r.choice(("g0", "g0", "g1")), r.choice((2, 3))], 1.5)(
    lambda M, i, g, l: M["ic"].from_image(i, g, l)[0])
call("img.from_image_default", lambda r: [r.choice(("img0", "img1", "img2")), r.choice((2, 3))], 0.5)(lambda M, i, l: M["ic"].from_image(i, lmax=l))
call("img.to_image", lambda r: [r.choice(("n0", "n1", "p0", "n2")), r.choice(("g0", "g0", "g1", "g2"))], 2.0)(lambda M, c, g: M["ic"].to_image(c, g))

call("leg.calculate_lpmn", lambda r: ["dl", "om", r.choice((near(r)[0], "pl9", "pl7", "pl8"))], 1.2)(lambda M, l, m, p: M["al"].calculate_lpmn(l, m, p))
call("ct.spherical_coordinates_from_rectangular", XYZ)(lambda M, *a: M["ct"].spherical_coordinates_from_rectangular(*a))
call("ct.rectangular_coordinates_from_spherical", lambda r: ["r1"] + ["pl0", "az0"])(lambda M, *a: M["ct"].rectangular_coordinates_from_spherical(*a))
call("ct.spherical_to_rectangular_transformation_matrix", lambda r: ["pl9", "az9"])(lambda M, *a: M["ct"].spherical_to_rectangular_transformation_matrix(*a))
call("ct.rectangular_to_spherical_transformation_matrix", lambda r: ["pl9", r.choice(("az9", 0.25))])(
    lambda M, *a: M["ct"].rectangular_to_spherical_transformation_matrix(*a))
call("fib.fibonacci_sphere", lambda r: [r.choice((1, 2, 7, 12))])(lambda M, n: M["fs"].fibonacci_sphere(n))

call("coef.get", lambda r: [CX(r), r.randint(0, 4), r.randint(-1, 2)], 0.7)(lambda M, c, l, m: c.get(l, m))
call("coef.has", lambda r: [CX(r), r.randint(0, 4), r.randint(-1, 2)], 0.3)(lambda M, c, l, m: c.has(l, m))
call("coef.as_arrays", lambda r: [CX(r), r.random() < 0.5, r.choice((None, 1)), r.choice((None, 2, 5)), r.choice((None, 0, -1)), r.choice((None, 1))])(
    lambda M, c, *a: c.as_arrays(*a) if any(x is not None for x in a[1:]) or not a[0] else c.as_arrays())
call("coef.contents", lambda r: [CX(r)], 0.5)(lambda M, c: list(c.contents()))
call("coef.default_coefficients", lambda r: [CX(r)], 0.4)(lambda M, c: c.default_coefficients)
call("coef.add", _pair)(lambda M, a, b: M["shc"].add(a, b))
call("coef.sub", _pair)(lambda M, a, b: a - b)
call("coef.multiply", _pair)(lambda M, a, b: M["shc"].multiply(a, b))
call("coef.multiply_scalar", lambda r: [CX(r), r.choice((2, -1.5))])(lambda M, a, b: b * a)
call("coef.pow", lambda r: [CX(r), r.choice((2, 3))])(lambda M, a, k: a ** k)
call("coef.truediv", lambda r: [CX(r), r.choice((2.0, -0.5))])(lambda M, a, k: a / k)
call("coef.scale", lambda r: [CX(r), r.choice((1, -1))])(lambda M, a, k: a.scale(M["cv"].forward_conversion_factor, k))
call("coef.truncated", lambda r: [CX(r), r.choice((0, 1, 2))])(lambda M, a, k: a.truncated(k))
call("coef.hsplit", lambda r: [CX(r)])(lambda M, a: M["shc"].hsplit(a))
call("coef.hstack", lambda r: [CX(r), CX(r)])(lambda M, a, b: M["shc"].hstack((a, b)))
call("coef.copy", lambda r: [CX(r)])(lambda M, a: a.copy())
call("coef.empty_like", lambda r: [CX(r)], 0.5)(lambda M, a: M["shc"].empty_like(a))
call("coef.zeros_like", lambda r: [CX(r)], 0.7)(lambda M, a: M["shc"].zeros_like(a))
call("coef.isclose", _pair)(lambda M, a, b: M["shc"].isclose(a, b))
call("coef.allclose", lambda r: r.choice((_pair(r), ["p0", "p0"])))(lambda M, a, b: M["shc"].allclose(a, b))
call("coef.from_arrays", lambda r: ["dl", "om", "v0"])(lambda M, l, m, v: M["shc"].from_arrays(l, m, v))
call("coef.str", lambda r: [CX(r)], 0.3)(lambda M, a: str(a))


call("coef.add_op", _pair, 0.5)(lambda M, a, b: a + b)
call("coef.mul_op", lambda r: r.choice((_pair(r), [CX(r), 1.5])), 0.5)(lambda M, a, b: a * b)
call("coef.repr", lambda r: [CX(r)], 0.2)(lambda M, a: repr(a))
call("coef.extent", lambda r: [CX(r)], 0.4)(lambda M, a: (a.degree_max, a.order_min, a.size))
call("coef.hsplit_at", lambda r: [C3(r), r.choice((1, 2, 3))], 0.6)(lambda M, a, k: a.hsplit(3 if k == 3 else [k]))
call("coef.hstack3", lambda r: [CX(r), C3(r), P1(r)], 0.4)(lambda M, *a: M["shc"].hstack(a))
call("coef.isclose_tol", lambda r: _pair(r) + [r.choice((0.0, 1e-3, 10.0))], 0.4)(lambda M, a, b, e: M["shc"].isclose(a, b, atol=e, rtol=0))
call("coef.from_arrays_1d", lambda r: ["dl", "om", "x2"], 0.4)(lambda M, l, m, x: M["shc"].from_arrays(l[:2], m[:2], x.ravel()[:2]))
call("coef.from_arrays_one", lambda r: [r.choice((1, 2)), r.choice((0, 1, 3)), "vec0"], 0.4)(lambda M, l, m, x: M["shc"].from_arrays(l, m, x[:1]))
call("coef.from_arrays_bad", lambda r: ["dl", "om", "x2"], 0.3)(lambda M, l, m, x: M["shc"].from_arrays(l, m, x))
call("coef.noise_fn", lambda r: [r.choice((0, 1, 2)), r.choice((1, 3)), r.choice((0, 1.5))], 0.7)(lambda M, a, b, e: M["shc"].noise(a, b, Draws(), e))
call("coef.Coefficients", lambda r: ["vec0"], 0.4)(lambda M, v: M["shc"].Coefficients(v.copy()))
call("coef.build", lambda r: ["dl", "om", "v0", r.randint(0, 4)], 1.0)(lambda M, l, m, v, k: _build(M, l, m, v, k))
call("geo.ZdiGeometry_default", lambda r: [r.choice((0, 1))], 0.2)(lambda M, k: M["ge"].ZdiGeometry() if not k else M["ge"].ZdiGeometry().areas())
call("geo.ZdiGeometry_corners", lambda r: [r.choice(("li0", "vec0"))], 0.3)(lambda M, v: M["ge"].ZdiGeometry(v, [0, 1.0, 2.0]))
call("zdi.from_negative_orders", lambda r: [r.choice(("n0", "n1", "n2"))], 0.4)(lambda M, c: M["zd"].from_coefficients(c))
call("zdi.ZdiMagnetogram", lambda r: ["dl", "om", "v0", r.choice((2.0, 3.0))], 0.6)(
    lambda M, l, m, v, k: M["zd"].ZdiMagnetogram(l.copy(), m.copy(), v[:, 0] * k, v[:, 1].copy(), v[:, 2].copy()))
call("conv.convert_zdi_to_pfss_3", lambda r: [C3(r)], 0.3)(lambda M, c: M["cv"].convert_zdi_to_pfss(c))
call("conv.positive_lm", lambda r: [r.choice((1, 2, 4))], 0.4)(lambda M, n: M["cv"].positive_lm(n))
call("rot.rotate_magnetogram", lambda r: [r.choice(("p0", "n0", "p2")), r.choice(([0.1, 0.2, 0.3], [0, 0, 0], [1.5, 0, 0.7]))], 0.7, True)(
    lambda M, c, e: _rotate().rotate_magnetogram(c, _quat(e)))
call("plots.latex_float", lambda r: [r.choice((1.5, -2e-7, 3e12, 0.0))], 0.2)(lambda M, v: _mod("plots").latex_float(v))
call("ticks.generate", lambda r: [r.choice((-2, 0)), r.choice((2, 3)), 1], 0.2)(
    lambda M, a, b, c: (_mod("colorbar_manual_tickmarks").generate_major(a, b, c), _mod("colorbar_manual_tickmarks").generate_minor(a, b, c)))
call("lsd.wl_intervals", lambda r: [r.choice(("vel0", "rad0"))], 0.3)(lambda M, v: _mod("plot_lsd").wl_intervals(v))
call("lf.whole_angles", lambda r: [GE(r), ZD(r), 0.5, "li1"], 0.3)(lambda M, *a: M["lf"].get_longitudinal_field_curve(*a))
call("ct.spherical_of_grid", lambda r: near(r), 0.6)(lambda M, p, a: M["ct"].rectangular_coordinates_from_spherical(1.0, p, a))


class Draws:
    """A source of numbers that belongs to one call."""
    def __init__(self):
        self.k = 0

    def __call__(self, size):
        self.k += size
        return np.arange(self.k, self.k - size, -1) * 0.37


def _build(M, l, m, v, k):
    """A set filled by hand, some entries twice or replaced."""
    c = M["shc"].Coefficients(np.zeros(3, dtype=complex))
    for a, b, x in zip(l, m, v):
        c.append(int(a), int(b), x)
    c.set(int(l[0]), int(m[0]), v[-1])
    if k == 1:
        c.append(int(l[0]), int(m[0]), v[0])
    if k == 2:
        c.append(1, 2, v[0])
    if k == 3:
        c.append(4, -1, v[0][:2])
    return c, c.get(int(l[0]), 0), [q for q, _ in c.contents()]


def _quat(e):
    import quaternion
    return quaternion.from_euler_angles(e)


def _mod(n):
    import importlib
    return importlib.import_module("starwinds_magnetogram." + n)


class Out:
    """Standard output of this process: every thread collects what it prints itself."""
    tl = threading.local()

    def write(self, s):
        b = getattr(self.tl, "b", None)
        if b is not None:
            b.append(s)
        return len(s)

    def flush(self):
        pass


def _energy(z, show):
    if not show:
        d = {"kept": 1}
        return z.energy(dest=d), d
    Out.tl.b = []
    try:
        e = z.energy(show_fractions=True)
        return e, "".join(Out.tl.b)
    finally:
        Out.tl.b = None


def _rotate():
    from starwinds_magnetogram import rotate
    return rotate


MODULES = None


def perform(env, c, fresh=False):
    """Make one call; returns the raw result (or raises)."""
    global MODULES
    MODULES = MODULES or _m()
    args = []
    memo = {}
    for a in c["a"]:
        if isinstance(a, str):
            if fresh or c.get("fresh"):
                memo.setdefault(a, env.fresh(a))
                args.append(memo[a])
            else:
                args.append(env.get(a))
        elif isinstance(a, dict):
            args.append(a["s"])
        else:
            args.append(a)
    f = CAT[c["fn"]][1]
    return f(MODULES, *args)


def prepare(env, c):
    for a in c["a"]:
        if isinstance(a, str):
            env.get(a)


NAMES = None


def rand_call(r, family=None, exclude=()):
    global NAMES
    if NAMES is None:
        NAMES = (list(CAT), [CAT[n][2] for n in CAT])
    while True:
        n = family or r.choices(NAMES[0], NAMES[1])[0]
        if n not in exclude:
            return dict(fn=n, a=CAT[n][0](r))


def vary(r, c):
    """The same function, nearly the same arguments."""
    return dict(c, a=[x if r.random() < 0.6 else y for x, y in zip(c["a"], rand_call(r, c["fn"])["a"])])


def rand_env(r):
    big = r.random() < 0.12
    return dict(seed=r.getrandbits(40), deg=r.choice((1, 2, 2, 3)) + 3 * big + 4 * (r.random() < 0.03), np=r.choice((3, 4, 5)) * (1 + 2 * (r.random() < 0.1)),
                na=r.choice((5, 6, 8)) * (1 + 2 * (r.random() < 0.1)), mods={})


# ------------------------------------------------------------------ canonical form

def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("t", [canon(v) for v in x.ravel()])
        return ("a", x.dtype.str, x.shape, np.array(x, order="C"))
    if isinstance(x, cls("coefficients", "Coefficients")):
        return ("C", canon(x.default_coefficients), [((int(l), int(m)), canon(v)) for (l, m), v in x.contents()], int(x.degree_max), int(x.order_min),
                int(x.size))
    if isinstance(x, cls("zdi_magnetogram", "ZdiMagnetogram")):
        return ("Z", [canon(getattr(x, n)) for n in ("degrees_l", "orders_m", "alpha", "beta", "gamma", "c_lm")])
    if isinstance(x, cls("geometry", "ZdiGeometry")):
        return ("G", canon(x.polar_corners), canon(x.azimuthal_corners))
    if isinstance(x, cls("parker_solution", "ParkerSolution")):
        return ("P", [canon(np.asarray(getattr(x, n), dtype=float)) for n in
                      ("temperature", "base_density", "stellar_radius", "stellar_mass", "radius_sonic", "speed_sonic", "speed_surface", "density_sonic")])
    if isinstance(x, (bool, np.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, float, complex, np.number)):
        return ("n", complex(x))
    if isinstance(x, (tuple, list)):
        return ("t", [canon(v) for v in x])
    if isinstance(x, dict):
        return ("d", [(str(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))])
    if isinstance(x, str):
        return ("s", x)
    if x is None:
        return ("0",)
    if callable(x):
        return ("f", getattr(x, "__name__", "?"))
    return ("?", repr(type(x)))


def same(a, b, path="result"):
    """None, or where two canonical forms differ."""
    if a[0] != b[0]:
        return f"{path}: {kind(a)} instead of {kind(b)}"
    k = a[0]
    if k == "a":
        if a[2] != b[2]:
            return f"{path}: shape {a[2]} instead of {b[2]}"
        if a[1] != b[1]:
            return f"{path}: type {a[1]} instead of {b[1]}"
        return near_arrays(a[3], b[3], path)
    if k == "n":
        return near_arrays(np.array([a[1]]), np.array([b[1]]), path)
    if k in ("t", "Z", "P"):
        if len(a[1]) != len(b[1]):
            return f"{path}: {len(a[1])} parts instead of {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if k == "d":
        if [x for x, _ in a[1]] != [x for x, _ in b[1]]:
            return f"{path}: keys differ"
        for (n, x), (_, y) in zip(a[1], b[1]):
            d = same(x, y, f"{path}[{n}]")
            if d:
                return d
        return None
    if k == "C":
        if [x for x, _ in a[2]] != [x for x, _ in b[2]]:
            return f"{path}: entries differ"
        if a[3:] != b[3:]:
            return f"{path}: extent {a[3:]} instead of {b[3:]}"
        d = same(a[1], b[1], path + ".default")
        for (n, x), (_, y) in zip(a[2], b[2]):
            d = d or same(x, y, f"{path}{n}")
        return d
    if k == "G":
        return same(a[1], b[1], path) or same(a[2], b[2], path)
    return None if a == b else f"{path}: {str(a)[:80]} instead of {str(b)[:80]}"


def kind(a):
    return {"a": "an array", "n": "a number", "t": "a sequence", "C": "coefficients", "e": "error " + str(a[1:2]), "0": "nothing"}.get(a[0], a[0])


def near_arrays(x, y, path):
    if x.dtype.kind in "bOSU":
        return None if np.array_equal(x, y) else f"{path}: {bad(x, y, x != y)}"
    if x.size == 0:
        return None
    x, y = x.astype(complex) if x.dtype.kind != "c" else x, y.astype(complex) if y.dtype.kind != "c" else y
    single = x.dtype.itemsize == 8
    ok = (x == y) | (np.isnan(x) & np.isnan(y))
    if ok.all():
        return None
    fin = np.isfinite(y)
    scale = np.abs(y[fin]).max() if fin.any() else 0.0
    with np.errstate(all="ignore"):
        ok |= fin & (np.abs(x - y) <= (1e-5 if single else 1e-9) * scale)
        # Infinite parts: the same parts must be infinite in the same direction.
        ok |= ~fin & (x.real == y.real) & (x.imag == y.imag)
    if ok.all():
        return None
    return f"{path}: {bad(x, y, ~ok)}"


def bad(x, y, w):
    i = tuple(int(v) for v in np.argwhere(w)[0])
    return f"{int(w.sum())} of {w.size} values differ, first at {list(i)}: {x[i]} instead of {y[i]}"


def exact(a, b):
    """Bitwise equality of two canonical forms (for things that must not have been touched)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def scribble(x, depth=0):
    """The caller does what it likes with a result that belongs to it. Returns the number of places written."""
    from starwinds_magnetogram import coefficients as shc, geometry, zdi_magnetogram
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            try:
                x[...] = 77 if x.dtype.kind != "b" else ~x
                n += 1
            except (ValueError, TypeError):
                pass
        elif x.dtype == object:
            n += sum(scribble(v, depth + 1) for v in x.ravel())
    elif isinstance(x, cls("coefficients", "Coefficients")):
        d = x.default_coefficients
        n += scribble(d)
        for (l, m), v in list(x.contents()):
            n += scribble(v)
            x.set(l, m, np.full_like(d, True if d.dtype.kind == "b" else 55))
            n += 1
        for v in list(getattr(x, "coefficients", {}).values()):
            n += scribble(v)
        x.set(17, 3, np.full_like(d, 1))
    elif isinstance(x, cls("zdi_magnetogram", "ZdiMagnetogram")):
        n += sum(scribble(getattr(x, a)) for a in ("degrees_l", "orders_m", "alpha", "beta", "gamma", "c_lm"))
    elif isinstance(x, cls("geometry", "ZdiGeometry")):
        n += scribble(x.polar_corners) + scribble(x.azimuthal_corners)
    elif isinstance(x, (tuple, list)):
        n += sum(scribble(v, depth + 1) for v in x)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, dict):
        n += sum(scribble(v, depth + 1) for v in x.values())
        x.clear()
    return n
