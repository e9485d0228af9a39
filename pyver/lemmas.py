"""Lemmas over the specifications: the parts of a property that follow from the contracts alone."""
from fractions import Fraction
from . import terms as tm
from . import models as md
from . import smt
from . import ival
from . import contract as ct
from .contract import SYM, pure
from .prove import Prover, Verdict
from .terms import T

M = SYM
S = ct.BYNAME
LEMMAS, OF = {}, {}


def lem(pid):
    def deco(f):
        LEMMAS[f.__name__] = f
        OF.setdefault(pid, []).append(f.__name__)
        return f
    return deco


class Ctx:
    def __init__(self, name, scale):
        from .verify import Sink
        self.sink = Sink("lemma " + name, {"lemma": name})
        self.name, self.scale = name, scale
        self.P = Prover(6 * scale, 90 * scale)

    def keys(self, hyps):
        N = smt.enc().normer
        return [N.bkey(tm.lift(h)) for h in hyps]

    def prove(self, what, hyps, goal):
        g = tm.lift(goal)
        gs = list(g.args) if g.op == "and" else [g]
        for i, x in enumerate(gs):
            v = None
            if x.op == "eq":
                v = self.P.eq(self.keys(hyps), *x.args)
            if v is None or not v.ok:
                v = self.P.prove(self.keys(hyps), x)
            self.sink.add("lemma %s: %s%s" % (self.name, what, " (%d)" % (i + 1) if len(gs) > 1 else ""), v)

    def box(self, what, hyps, *goals):
        """bounded inequality by interval branch and bound"""
        ok, n = ival.bnb([tm.lift(g) for g in goals], [tm.lift(h) for h in hyps], 400000)
        self.sink.add("lemma %s: %s" % (self.name, what), Verdict(ok, "interval branch and bound", None, "%d boxes" % n))


def run(name, scale=1.0):
    c = Ctx(name, scale)
    with pure():
        LEMMAS[name](c)
    return c.sink


def V(*names, sort="R"):
    return [tm.var(n, sort) for n in names]


def spec(name, *args):
    return S[name].spec(M, *args)


# ---------------------------------------------------------------- P03
@lem("P03")
def leap_seconds_never_decrease(c):
    a, h1 = md.DT.fresh("first")
    b, h2 = md.DT.fresh("second")
    (y1, m1, d1), (y2, m2, d2) = M.utc(a)[:3], M.utc(b)[:3]
    order = M.or_(y1 < y2, M.and_(M.eq(y1, y2), M.or_(m1 < m2, M.and_(M.eq(m1, m2), d1 <= d2))))
    la, lb = spec("get_leap_seconds", a), spec("get_leap_seconds", b)
    c.prove("later dates have no fewer leap seconds", h1 + h2 + [order], tm.lift(la) <= lb)
    c.prove("10 before July 1972", h1 + [M.or_(y1 < 1972, M.and_(M.eq(y1, 1972), m1 < 7))], M.eq(la, 10))
    c.prove("37 from 2017 on", h1 + [y1 >= 2017], M.eq(la, 37))


# ---------------------------------------------------------------- directions
def direction(c, what, hyps, Xp, Yp, Z, scale, comps):
    """(Xp, Yp) is scale > 0 times shorter than the horizontal part of the unit vector with height Z: then the angle
    atan2(Yp, Xp) and asin(Z) are its longitude and latitude.  comps: the claimed components (x, y)"""
    c.prove("%s: unit vector" % what, hyps, M.eq((scale * Xp) ** 2 + (scale * Yp) ** 2 + Z * Z, 1))
    c.prove("%s: first component" % what, hyps, M.eq(scale * Xp, comps[0]))
    c.prove("%s: second component" % what, hyps, M.eq(scale * Yp, comps[1]))
    c.prove("%s: height" % what, hyps + [Z <= 1, Z >= -1], M.eq(M.sin(M.asin(Z)), Z))


@lem("P09")
def spherical_direction(c):
    """for every unit vector (k x, k y, z), k > 0: cos(asin z) cos(atan2(y, x)) = k x, cos(asin z) sin(atan2(y, x)) = k y"""
    x, y, z, k, q, s = V("x", "y", "z", "k", "q", "s")
    H = [q >= 0, M.eq(q * q, x * x + y * y), s >= 0, M.eq(s * s, 1 - z * z), k > 0,
         M.eq((k * x) ** 2 + (k * y) ** 2 + z * z, 1)]
    c.prove("the horizontal length", H, M.eq(s, k * q))
    c.prove("away from the axis, cosine", H + [q > 0, M.eq(s, k * q)], M.eq(s * (x / q), k * x))
    c.prove("away from the axis, sine", H + [q > 0, M.eq(s, k * q)], M.eq(s * (y / q), k * y))
    c.prove("on the axis", H + [M.eq(q, 0)], M.and_(M.eq(s, 0), M.eq(x, 0), M.eq(y, 0)))
    c.prove("cosine of the arc sine", [z <= 1, z >= -1], M.eq(M.cos(M.asin(z)), M.sqrt(1 - z * z)))
    c.prove("cosine of the angle", [x * x + y * y > 0], M.eq(M.cos(M.atan2(y, x)), x / M.sqrt(x * x + y * y)))
    c.prove("sine of the angle", [x * x + y * y > 0], M.eq(M.sin(M.atan2(y, x)), y / M.sqrt(x * x + y * y)))


@lem("P09")
def apparent_place_is_the_rotated_direction(c):
    lam, eps, beta = V("lam", "eps", "beta")
    from contracts import specs
    x, y, z = specs._ecl(M, lam, eps, beta)
    tan = lambda t: specs.sind(M, t) / specs.cosd(M, t)
    cb = specs.cosd(M, beta)
    H = [beta > -90, beta < 90]
    Xp, Yp = specs.cosd(M, lam), specs.sind(M, lam) * specs.cosd(M, eps) - tan(beta) * specs.sind(M, eps)
    c.prove("the cosine of the latitude is positive", H, cb > 0)
    direction(c, "ecliptic to equator", H + [cb > 0], Xp, Yp, z, cb, (x, y))
    ra = spec("get_geocentric_sun_right_ascension", lam, eps, beta)
    c.prove("right ascension is that angle", H, M.and_(
        M.eq(M.cos(M.radians(ra)), M.cos(M.atan2(Yp, Xp))), M.eq(M.sin(M.radians(ra)), M.sin(M.atan2(Yp, Xp))), ra >= 0, ra < 360))
    c.prove("declination is that height", H, M.eq(M.radians(spec("get_geocentric_sun_declination", lam, eps, beta)), M.asin(z)))


@lem("P10")
def observer_is_on_the_ellipsoid(c):
    u, lat = V("u", "lat")
    from contracts import specs
    x, y = specs.cosd(M, u), M.q("0.99664719") * specs.sind(M, u)
    c.prove("axis ratio 0.99664719", [], M.eq(x * x + (y / M.q("0.99664719")) ** 2, 1))
    # the normal of the ellipsoid there has the geographic latitude: (dF/dx, dF/dy) ~ (x, y / b^2) is along (cos lat, sin lat)
    uu = S["get_flattened_latitude"].spec(M, lat)
    x, y = specs.cosd(M, uu), M.q("0.99664719") * specs.sind(M, uu)
    c.prove("the vertical there has the geographic latitude", [lat > -90, lat < 90],
            M.eq(x * specs.sind(M, lat), y / M.q("0.99664719") ** 2 * specs.cosd(M, lat)))
    e = tm.var("elevation")
    c.prove("elevation is along the vertical", [], M.and_(
        M.eq(S["get_projected_radial_distance"].spec(M, e, lat) - S["get_projected_radial_distance"].spec(M, 0, lat),
             e / 6378140 * specs.cosd(M, lat)),
        M.eq(S["get_projected_axial_distance"].spec(M, e, lat) - S["get_projected_axial_distance"].spec(M, 0, lat),
             e / 6378140 * specs.sind(M, lat))))


@lem("P11")
def azimuth_and_elevation_are_one_direction(c):
    lat, dec, H = V("lat", "dec", "H")
    from contracts import specs
    s, k = (lambda t: specs.sind(M, t)), (lambda t: specs.cosd(M, t))
    hy = [dec > -90, dec < 90]
    north = k(lat) * s(dec) - s(lat) * k(dec) * k(H)
    east = -k(dec) * s(H)
    Z = specs.sin_alt(M, lat, dec, H)
    Xp, Yp = k(H) * s(lat) - s(dec) / k(dec) * k(lat), s(H)
    c.prove("the cosine of the declination is positive", hy, k(dec) > 0)
    direction(c, "equator to horizon", hy + [k(dec) > 0], Xp, Yp, Z, k(dec), (-north, -east))
    az = spec("get_topocentric_azimuth_angle", H, lat, dec)
    c.prove("the azimuth is that angle plus 180 degrees", hy, M.and_(
        M.eq(M.cos(M.radians(az)), -M.cos(M.atan2(Yp, Xp))), M.eq(M.sin(M.radians(az)), -M.sin(M.atan2(Yp, Xp))), az >= 0, az < 360))
    c.prove("the sine of the elevation is a sine", [M.eq(north ** 2 + east ** 2 + Z ** 2, 1)], M.and_(Z <= 1, Z >= -1))


# ---------------------------------------------------------------- P14
@lem("P14")
def incidence_is_the_angle_of_two_vectors(c):
    Z, b, g, A = V("Z", "slope", "orientation", "azimuth")
    from contracts import specs
    s, k = (lambda t: specs.sind(M, t)), (lambda t: specs.cosd(M, t))
    sun = (-s(Z) * k(A), -s(Z) * s(A), k(Z))                  # south, west, up
    nor = (s(b) * k(g), s(b) * s(g), k(b))
    dot = sum((p * q for p, q in zip(sun[1:], nor[1:])), sun[0] * nor[0])
    r = k(Z) * k(b) + s(Z) * s(b) * M.cos(M.radians(A) - M.pi - M.radians(g))
    c.prove("the cosine is the scalar product", [], M.eq(dot, r))
    c.prove("the direction of the sun is a unit vector", [], M.eq(sun[0] ** 2 + sun[1] ** 2 + sun[2] ** 2, 1))
    c.prove("the normal is a unit vector", [], M.eq(nor[0] ** 2 + nor[1] ** 2 + nor[2] ** 2, 1))
    x = V("x1", "x2", "x3")
    n = V("n1", "n2", "n3")
    d = x[0] * n[0] + x[1] * n[1] + x[2] * n[2]
    ux, un = [M.eq(sum((t * t for t in v[1:]), v[0] * v[0]), 1) for v in (x, n)]
    c.prove("Lagrange", [], M.eq(
        (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) * (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) - d * d,
        (x[0] * n[1] - x[1] * n[0]) ** 2 + (x[0] * n[2] - x[2] * n[0]) ** 2 + (x[1] * n[2] - x[2] * n[1]) ** 2))
    t, p, q, w = V("d", "a", "b", "w")
    c.prove("a scalar product of unit vectors is a cosine", [M.eq(p, 1), M.eq(q, 1), M.eq(p * q - t * t, w), w >= 0],
            M.and_(t <= 1, t >= -1))
    c.prove("horizontal surface", [], M.eq(k(Z) * k(tm.const(0)) + s(Z) * s(tm.const(0)) * M.cos(M.radians(A) - M.pi - M.radians(g)), k(Z)))
    c.prove("surface facing the sun", [], M.eq(
        k(Z) * k(Z) + s(Z) * s(Z) * M.cos(M.radians(A) - M.pi - M.radians(A - 180)), 1))
    c.prove("incidence of the surface facing the sun", [], M.eq(M.degrees(M.acos(tm.const(1))), 0))


# ---------------------------------------------------------------- P16
@lem("P16")
def fast_azimuth_is_the_azimuth_of_the_direction(c):
    """cos a sin A = east and cos a cos A = north, for the arc sine formula with its quadrant test"""
    from contracts import specs
    lat, dec, h = V("lat", "dec", "h")
    s, k = (lambda t: specs.sind(M, t)), (lambda t: specs.cosd(M, t))
    hy = [lat > -90, lat < 90, dec > -90, dec < 90]
    north, east, Z = k(lat) * s(dec) - s(lat) * k(dec) * k(h), -k(dec) * s(h), specs.sin_alt(M, lat, dec, h)
    c.prove("unit vector", [], M.eq(north ** 2 + east ** 2 + Z ** 2, 1))
    c.prove("cosines are positive", hy, M.and_(k(lat) > 0, k(dec) > 0))
    c.prove("east is at most the horizontal length", [M.eq(north ** 2 + east ** 2 + Z ** 2, 1)], east * east <= 1 - Z * Z)
    # quadrant test: cos h tan lat >= tan dec exactly when north <= 0
    sl, cl, sd, cd, ch = V("sl", "cl", "sd", "cd", "ch")
    t1, t2 = ch * sl / cl, sd / cd
    n = cl * sd - sl * cd * ch
    c.prove("quadrant test", [cl > 0, cd > 0, t1 >= t2], n <= 0)
    c.prove("quadrant test, converse", [cl > 0, cd > 0, t1 < t2], n > 0)
    # the two branches
    N, E, q, x, cx = V("N", "E", "q", "x", "cx")
    H = [q > 0, M.eq(q * q, N * N + E * E), M.eq(x, E / q), cx >= 0, M.eq(cx * cx, 1 - x * x)]
    c.prove("northern half", H + [N >= 0], M.and_(M.eq(q * x, E), M.eq(q * cx, N)))
    c.prove("southern half", H + [N <= 0], M.and_(M.eq(q * x, E), M.eq(-q * cx, N)))
    u = tm.var("u")
    hs = [u >= -1, u <= 1]
    a = M.degrees(M.asin(u))
    c.prove("southern angle", hs, M.and_(M.eq(M.sin(M.radians(180 - a)), u), M.eq(M.cos(M.radians(180 - a)), -M.sqrt(1 - u * u)),
                                         180 - a <= 360, 180 - a >= 0))
    c.prove("north-eastern angle", hs, M.and_(M.eq(M.sin(M.radians(a)), u), M.eq(M.cos(M.radians(a)), M.sqrt(1 - u * u))))
    c.prove("north-western angle", hs, M.and_(M.eq(M.sin(M.radians(a + 360)), u), M.eq(M.cos(M.radians(a + 360)), M.sqrt(1 - u * u))))


# ---------------------------------------------------------------- P17
@lem("P17")
def direct_radiation_grows_with_altitude(c):
    a, b, A, k = V("a", "b", "A", "k")
    s = lambda t: M.sin(M.radians(t))
    hy = [a > 0, a <= b, b <= 90]
    half, mid = (b - a) / 2, (a + b) / 2
    c.prove("difference of sines", [], M.eq(s(b) - s(a), 2 * M.cos(M.radians(mid)) * M.sin(M.radians(half))))
    c.prove("cosine of the middle", hy, M.cos(M.radians(mid)) >= 0)
    c.prove("sine of the half difference", hy, M.sin(M.radians(half)) >= 0)
    p, q, x, y = V("p", "q", "x", "y")
    c.prove("sine grows", [M.eq(y - x, 2 * p * q), p >= 0, q >= 0], y >= x)
    c.prove("sine is positive", hy, s(a) > 0)
    c.prove("exponent grows", [x > 0, y >= x, k >= 0], -k / y >= -k / x)
    c.prove("exponential grows", [p <= q], M.exp(p) <= M.exp(q))
    c.prove("product grows", [A >= 0, p <= q], A * p <= A * q)
    day = tm.var("day")
    c.prove("flux is positive", [], spec("get_apparent_extraterrestrial_flux", day) >= 0)
    c.prove("optical depth is positive", [], spec("get_optical_depth", day) > 0)
    c.prove("never more than the flux", [A >= 0, k >= 0, x > 0], A * M.exp(-k / x) <= A)
    c.prove("never negative", [A >= 0], A * M.exp(p) >= 0)


# ---------------------------------------------------------------- P20
@lem("P20")
def sunrise_transit_sunset_in_order(c):
    n, x, t = V("noon", "c", "t")
    ha = M.acos(x) * 12 / M.pi
    hy = [x >= -1, x <= 1]
    c.prove("half day between 0 and 12 hours", hy, M.and_(ha >= 0, ha <= 12))
    c.prove("sunrise before transit before sunset", hy + [ha >= 0], M.and_(n - ha <= n, n <= n + ha))
    c.prove("within a day", hy + [ha <= 12], n + ha <= n - ha + 24)
    from contracts import specs
    dt, h = md.DT.fresh("when")
    lat, lon = V("lat", "lon")
    r, s, m = spec("get_sunrise_sunset_transit", lat, lon, dt)
    c.prove("symmetric about the transit", h, M.eq(m.wall - r.wall, s.wall - m.wall))


# ---------------------------------------------------------------- P23
@lem("P23")
def pressure_falls_with_height(c):
    Ps, Ts, Tl, Hb, h1, h2, R, g, m = V("Ps", "Ts", "Tl", "Hb", "h1", "h2", "R", "g", "M")
    P = lambda h: spec("get_pressure_with_elevation", h, Ps, Ts, Tl, Hb, R, g, m)
    pos = [Ts > 0, Ps > 0, R > 0, g > 0, m > 0]
    c.prove("Ps at the base", pos + [M.not_(M.eq(Tl, 0))], M.eq(P(Hb), Ps))
    t = lambda h: Ts + Tl * (h - Hb)
    hy = pos + [h1 < h2, t(h1) > 0, t(h2) > 0]
    c.prove("falling temperature: the ratio grows", hy + [Tl < 0], Ts / t(h1) < Ts / t(h2))
    c.prove("rising temperature: the ratio falls", hy + [Tl > 0], Ts / t(h1) > Ts / t(h2))
    c.prove("falling temperature: negative exponent", pos + [Tl < 0], (g * m) / (R * Tl) < 0)
    c.prove("rising temperature: positive exponent", pos + [Tl > 0], (g * m) / (R * Tl) > 0)
    # x^e = exp(e log x)
    x, y, e, u, v = V("x", "y", "e", "u", "v")
    c.prove("logarithm grows", [x > 0, x < y], M.log(x) < M.log(y))
    c.prove("exponent times logarithm, negative", [u < v, e < 0], e * v < e * u)
    c.prove("exponent times logarithm, positive", [u < v, e > 0], e * u < e * v)
    c.prove("exponential grows", [u < v], M.exp(u) < M.exp(v))
    c.prove("product grows", [Ps > 0, u < v], Ps * u < Ps * v)


# ---------------------------------------------------------------- P24
@lem("P24")
def times_stay_inside_the_span(c):
    """span in microseconds, step a whole number of microseconds"""
    span, step, k, secs, n = V("span", "step", "k", "secs", "n", sort="I")
    st = tm.toreal(step) / 10**6
    H = [step > 0, k >= 0, M.eq(secs, tm.floor(tm.toreal(span) / 10**6)), M.eq(n, tm.floor(tm.toreal(secs) / st)), k < n]
    c.prove("count", [step > 0, M.eq(n, tm.floor(tm.toreal(secs) / st))], tm.toreal(n) * st <= tm.toreal(secs))
    c.prove("whole seconds", [M.eq(secs, tm.floor(tm.toreal(span) / 10**6))], tm.toreal(secs) * 10**6 <= tm.toreal(span))
    x, y, t = V("x", "y", "t")
    c.prove("inside", [t > 0, k >= 0, k < n, tm.toreal(n) * t <= x, x <= y], M.and_(tm.toreal(k) * t < y, tm.toreal(k) * t >= 0))
    c.prove("distinct and in order", [t > 0], tm.toreal(k) * t < tm.toreal(k + 1) * t)


# ---------------------------------------------------------------- P29
@lem("P29")
def wavelengths_are_positive_for_default_turbidity(c):
    """the documented defaults meet the precondition of the irradiances at every altitude"""
    from contracts import specs
    alt = tm.var("altitude_deg")
    a, b = M.q("1.3"), M.q("0.6")
    for band in ("high-frequency", "low-frequency"):
        for i, g in enumerate(specs._wlpos(M, band, alt, None, None, None, None, a, b)):
            c.box("%s: precondition %d" % (band, i + 1), [alt >= 0, alt <= 90], ival.expand(tm.lift(g)))
