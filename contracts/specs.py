"""Contracts of the functions of pysolar (what each one computes, for every argument).

Each specification function is written from the published formulas (NREL SPA, Masters, Gueymard, the
documentation of the library), not from the code; M is the mathematics it is read in."""
from fractions import Fraction
from pyver.contract import contract, R, When, Local, Nut, Choice, Table, Contract
from . import tables as tb

LAT = lambda: R(-90, 90, special=(0, 45, 90, -90, 23.45, -23.45))
LATQ = lambda: R(-90, 90, req=True, special=(0, 45, 90, -90))
LON = lambda: R(-360, 360, special=(0, 180, -180, 90, -90))
ANG = lambda: R(-400, 400, special=(0, 90, 180, 270, 360, -90))
DEC = lambda: R(-30, 30, special=(0, 23.45, -23.45))
ELEV = lambda: R(-500, 9000, special=(0, 1000))
PRES = lambda: R(30000, 110000, special=(101325, 0))
TEMP = lambda: R(200, 330, special=(288.15,))
JD = lambda: R(1721426, 5373484, special=(2451545,))
JCE = lambda: R(-21, 81, special=(0, 1, -1))
JME = lambda: R(-2.1, 8.1, special=(0,))
DAY = lambda: R(1, 366, special=(1, 81, 94, 100, 275, 365, 366))
ALT = lambda: R(-90, 90, req=True, special=(0, 90, -90, -0.83337))


def sind(M, x): return M.sin(M.radians(x))
def cosd(M, x): return M.cos(M.radians(x))
def tand(M, x): return M.tan(M.radians(x))


# documented values of omitted arguments
EL0, T0, P0 = "0", "288.15", "101325"
ELD = {"elevation": EL0}
ATM = {"elevation": EL0, "temperature": T0, "pressure": P0}
SKY = dict(ATM, TL="1", AM="2", TY="365")

# ================================================================ numeric.py
@contract("pysolar.numeric.tm_yday", "P15 P18", {"d": When()}, result="I", transparent=True,
          facts=lambda M, r, d: [r >= 1, r <= 366])
def tm_yday(M, d):
    return M.utc_yday(d)


@contract("pysolar.numeric.tm_hour", "P15 P18", {"d": When()}, result="I", transparent=True,
          facts=lambda M, r, d: [r >= 0, r <= 23])
def tm_hour(M, d):
    return M.utc(d)[3]


@contract("pysolar.numeric.tm_min", "P15 P18", {"d": When()}, result="I", transparent=True,
          facts=lambda M, r, d: [r >= 0, r <= 59])
def tm_min(M, d):
    return M.utc(d)[4]


# ================================================================ solartime.py
def _from(M, w, y, m, d):
    """UTC instant at or after y-m-d 00:00"""
    Y, Mo, D = M.utc(w)[:3]
    return M.or_(Y > y, M.and_(M.eq(Y, y), M.or_(Mo > m, M.and_(M.eq(Mo, m), D >= d))))


def leap_warn(M, when):
    return _from(M, when, 2026, 7, 1)


@contract("pysolar.solartime.get_leap_seconds", "P03", {"when": When()}, result="I", warns=leap_warn,
          facts=lambda M, r, w: [r >= 10, r <= 37])
def get_leap_seconds(M, when):
    r = M.num(10)
    for y, m, d in tb.LEAP:
        r = r + M.ite(_from(M, when, y, m, d), 1, 0)
    return r


@contract("pysolar.solartime.get_delta_t", "P04", {"when": When()},
          facts=lambda M, r, w: [r >= 43, r <= 68])
def get_delta_t(M, when):
    Y, Mo = M.utc(when)[:2]
    i = (Y - tb.DELTA_T_FIRST[0]) * 12 + Mo - tb.DELTA_T_FIRST[1]
    n = len(tb.DELTA_T)
    return M.ite(i < 0, lambda: M.q(str(tb.DELTA_T[0])),
                 lambda: M.ite(i >= n, lambda: M.q(str(tb.DELTA_T[-1])), lambda: M.lookup(tb.DELTA_T, i)))


def _jd(M, seconds):
    return M.q("2440587.5") + seconds / 86400


@contract("pysolar.solartime.get_julian_ephemeris_day", "P05", {"when": When()}, tol=2e-15,
          facts=lambda M, r, w: [r >= 1721425, r <= 5373486])
def get_julian_ephemeris_day(M, when):
    return _jd(M, M.timestamp(when) + M.S.get_leap_seconds(when) + M.q("32.184"))


@contract("pysolar.solartime.get_julian_solar_day", "P05", {"when": When()}, tol=2e-15,
          facts=lambda M, r, w: [r >= 1721424, r <= 5373486])
def get_julian_solar_day(M, when):
    return _jd(M, M.timestamp(when) + M.S.get_leap_seconds(when) + M.q("32.184") - M.S.get_delta_t(when))


@contract("pysolar.solartime.get_julian_century", "P05", {"julian_day": JD()})
def get_julian_century(M, julian_day):
    return (julian_day - 2451545) / 36525


@contract("pysolar.solartime.get_julian_ephemeris_century", "P05", {"julian_ephemeris_day": JD()},
          facts=lambda M, r, d: [M.eq(r, (d - 2451545) / 36525)] if M.sym else [])
def get_julian_ephemeris_century(M, julian_ephemeris_day):
    return (julian_ephemeris_day - 2451545) / 36525


@contract("pysolar.solartime.get_julian_ephemeris_millennium", "P05", {"julian_ephemeris_century": JCE()},
          facts=lambda M, r, c: [M.eq(r, c / 10)] if M.sym else [])
def get_julian_ephemeris_millennium(M, julian_ephemeris_century):
    return julian_ephemeris_century / 10


# ================================================================ solar.py: the fast model (Masters)
@contract("pysolar.solar.equation_of_time", "P15", {"day": DAY()},
          facts=lambda M, r, day: [M.implies(M.and_(day >= 0, day <= 367), M.and_(r <= 17, r >= -17))])
def equation_of_time(M, day):
    b = 2 * M.pi * (day - 81) / 364
    return M.q("9.87") * M.sin(2 * b) - M.q("7.53") * M.cos(b) - M.q("1.5") * M.sin(b)


@contract("pysolar.solar.get_declination", "P15", {"day": DAY()},
          facts=lambda M, r, day: [r <= M.q("23.45"), r >= -M.q("23.45")])
def get_declination(M, day):
    return M.q("23.45") * M.sin(2 * M.pi * (day - 81) / 365)


@contract("pysolar.solar.get_solar_time", "P15", {"longitude_deg": LON(), "when": When()})
def get_solar_time(M, longitude_deg, when):
    h, m = M.S.tm_hour(when), M.S.tm_min(when)
    return (60 * h + m + 4 * longitude_deg + M.S.equation_of_time(M.S.tm_yday(when))) / 60


@contract("pysolar.solar.get_hour_angle", "P15", {"when": When(), "longitude_deg": LON()})
def get_hour_angle(M, when, longitude_deg):
    return 15 * (M.S.get_solar_time(longitude_deg, when) - 12)


def sin_alt(M, lat, dec, ha):
    return sind(M, lat) * sind(M, dec) + cosd(M, lat) * cosd(M, dec) * cosd(M, ha)


@contract("pysolar.solar.get_altitude_fast", "P16", {"latitude_deg": LAT(), "longitude_deg": LON(), "when": When()},
          facts=lambda M, r, lat, lon, w: [r <= 90, r >= -90] + ([
              M.eq(sind(M, r), sin_alt(M, lat, M.S.get_declination(M.S.tm_yday(w)), M.S.get_hour_angle(w, lon))),
              cosd(M, r) >= 0] if M.sym else []), tol=1e-6)
def get_altitude_fast(M, latitude_deg, longitude_deg, when):
    d = M.S.get_declination(M.S.tm_yday(when))
    h = M.S.get_hour_angle(when, longitude_deg)
    return M.degrees(M.asin(M.clip(sin_alt(M, latitude_deg, d, h))))


def _azf_parts(M, lat, lon, when):
    d = M.S.get_declination(M.S.tm_yday(when))
    h = M.S.get_hour_angle(when, lon)
    a = M.S.get_altitude_fast(lat, lon, when)
    return d, h, a


@contract("pysolar.solar.get_azimuth_fast", "P16", {"latitude_deg": LAT(), "longitude_deg": LON(), "when": When()},
          facts=lambda M, r, lat, lon, w: [r <= 360, r >= 0], expand=False, angle=360, tol=2e-5)
def get_azimuth_fast(M, latitude_deg, longitude_deg, when):
    """Masters: arcsin of the east component over cos(altitude), in the quadrant decided by
    cos(h) against tan(d)/tan(latitude); that this is the azimuth of the direction is lemma P16.*"""
    d, h, a = _azf_parts(M, latitude_deg, longitude_deg, when)
    x = M.asin(M.clip(-cosd(M, d) * sind(M, h) / cosd(M, a)))
    return M.ite(cosd(M, h) * tand(M, latitude_deg) >= tand(M, d), lambda: 180 - M.degrees(x),
                 lambda: M.ite(x < 0, lambda: M.degrees(x) + 360, lambda: M.degrees(x)))


# ================================================================ solar.py: heliocentric and geocentric place
@contract("pysolar.solar.get_coeff", "P06", {"jme": JME(), "coeffs": Table()}, expand=False)
def get_coeff(M, jme, coeffs):
    r = M.num(0)
    x = M.num(1)
    for row in coeffs:
        for e in row:
            r = r + x * (M.num(e[0]) * M.cos(M.num(e[1]) + jme * e[2]))
        x = x * jme
    return r


TEN = lambda jme: [jme >= -10, jme <= 10]


@contract("pysolar.solar.get_heliocentric_longitude", "P06", {"jme": JME()}, angle=360,
          facts=lambda M, r, jme: [r >= 0, r < 360])
def get_heliocentric_longitude(M, jme):
    return M.mod(M.degrees(M.S.get_coeff(jme, tb.L) / 10**8), 360)


def _in(M, jme, n, *f):
    return [M.implies(M.and_(jme >= -n, jme <= n), x) for x in f]


@contract("pysolar.solar.get_heliocentric_latitude", "P06", {"jme": JME()},
          facts=lambda M, r, jme: _in(M, jme, 10, r <= M.q("0.01"), r >= -M.q("0.01")))
def get_heliocentric_latitude(M, jme):
    return M.degrees(M.S.get_coeff(jme, tb.B) / 10**8)


@contract("pysolar.solar.get_sun_earth_distance", "P06", {"jme": JME()},
          facts=lambda M, r, jme: _in(M, jme, M.q("2.5"), r <= M.q("1.03"), r >= M.q("0.97")) + _in(
              M, jme, 10, r <= M.q("1.05"), r >= M.q("0.95")))
def get_sun_earth_distance(M, jme):
    return M.S.get_coeff(jme, tb.RR) / 10**8


@contract("pysolar.solar.get_geocentric_latitude", "P06", {"jme": JME()},
          facts=lambda M, r, jme: _in(M, jme, 10, r <= M.q("0.01"), r >= -M.q("0.01")))
def get_geocentric_latitude(M, jme):
    return -M.S.get_heliocentric_latitude(jme)


@contract("pysolar.solar.get_geocentric_longitude", "P06", {"jme": JME()}, angle=360, strict=True,
          facts=lambda M, r, jme: [r >= 0, r < 360])
def get_geocentric_longitude(M, jme):
    return M.mod(M.S.get_heliocentric_longitude(jme) + 180, 360)


# ================================================================ nutation and obliquity
@contract("pysolar.solar.get_nutation", "P07", {"jce": JCE()}, result={"longitude": "R", "obliquity": "R"}, tol=1e-10, expand=False,
          facts=lambda M, r, jce: _in(M, jce, 100, r["longitude"] <= M.q("0.02"), r["longitude"] >= -M.q("0.02"),
                                      r["obliquity"] <= M.q("0.02"), r["obliquity"] >= -M.q("0.02")))
def get_nutation(M, jce):
    T = M.num(jce)
    x = [M.q(str(a)) + M.q(str(b)) * T + M.q(str(c)) * T**2 + T**3 / d for a, b, c, d in tb.FUND]
    lon = obl = M.num(0)
    for y, (a, b, c, d) in zip(tb.NUT_ARGS, tb.NUT_COEFFS):
        w = M.num(0)
        for xj, yj in zip(x, y):
            w = w + xj * yj
        w = M.radians(w)
        lon = lon + (M.num(a) + M.num(T * b)) * M.sin(w)
        obl = obl + (M.num(c) + M.num(T * d)) * M.cos(w)
    return {"longitude": lon / 36000000, "obliquity": obl / 36000000}


@contract("pysolar.solar.get_true_ecliptic_obliquity", "P07", {"jme": JME(), "nutation": Nut()},
          facts=lambda M, r, jme, n: [M.implies(M.and_(jme >= -10, jme <= 10, n["obliquity"] <= M.q("0.02"),
                                                       n["obliquity"] >= -M.q("0.02")),
                                                M.and_(r >= 22, r <= 25))])
def get_true_ecliptic_obliquity(M, jme, nutation):
    U = M.num(jme) / 10
    co = ("84381.448", "-4680.93", "-1.55", "1999.25", "-51.38", "-249.67", "-39.05", "7.12", "27.87", "5.79", "2.45")
    e = M.num(0)
    for c in reversed(co):
        e = e * U + M.q(c)
    return e / 3600 + nutation["obliquity"]


# ================================================================ sidereal time
@contract("pysolar.solar.get_mean_sidereal_time", "P08", {"jd": JD()}, angle=360, tol=1e-5,
          facts=lambda M, r, jd: [r >= 0, r < 360])
def get_mean_sidereal_time(M, jd):
    jd = M.num(jd)
    T = (jd - 2451545) / 36525
    return M.mod(M.q("280.46061837") + M.q("360.98564736629") * (jd - 2451545) + M.q("0.000387933") * T**2
                 - T**3 / 38710000, 360)


def _apparent_sidereal_actual(M, jd, jme, nutation):
    # finding K1: the obliquity, in degrees, is passed to cos() as if it were radians
    return M.S.get_mean_sidereal_time(jd) + nutation["longitude"] * M.cos(M.S.get_true_ecliptic_obliquity(jme, nutation))


@contract("pysolar.solar.get_apparent_sidereal_time", "P08", {"jd": JD(), "jme": JME(), "nutation": Nut()},
          deviation=_apparent_sidereal_actual, finding="K1", strict=True, tol=1e-8)
def get_apparent_sidereal_time(M, jd, jme, nutation):
    return M.S.get_mean_sidereal_time(jd) + nutation["longitude"] * cosd(M, M.S.get_true_ecliptic_obliquity(jme, nutation))


# ================================================================ apparent place
DIST = lambda: R(0.95, 1.05, special=(1,))
nonzero = lambda M, d: [M.not_(M.eq(d, 0))]


@contract("pysolar.solar.get_aberration_correction", "P09", {"sun_earth_distance": DIST()}, requires=nonzero,
          facts=lambda M, r, d: [M.implies(d >= M.q("0.9"), M.and_(r <= 0, r >= -M.q("0.01")))])
def get_aberration_correction(M, sun_earth_distance):
    return -M.q("20.4898") / (3600 * sun_earth_distance)


@contract("pysolar.solar.get_apparent_sun_longitude", "P09",
          {"geocentric_longitude": ANG(), "nutation": Nut(), "ab_correction": R(-0.01, 0)})
def get_apparent_sun_longitude(M, geocentric_longitude, nutation, ab_correction):
    return geocentric_longitude + nutation["longitude"] + ab_correction


def _ecl(M, lam, eps, beta):
    """unit vector in equatorial coordinates"""
    x = cosd(M, beta) * cosd(M, lam)
    y = cosd(M, beta) * sind(M, lam) * cosd(M, eps) - sind(M, beta) * sind(M, eps)
    z = cosd(M, beta) * sind(M, lam) * sind(M, eps) + sind(M, beta) * cosd(M, eps)
    return x, y, z


GEO = lambda: {"apparent_sun_longitude": ANG(), "true_ecliptic_obliquity": R(0, 90, special=(0, 23.44)),
               "geocentric_latitude": R(-89, 89, special=(0,))}


@contract("pysolar.solar.get_geocentric_sun_right_ascension", "P09", GEO(), angle=360, tol=1e-9,
          facts=lambda M, r, *a: [r >= 0, r < 360])
def get_geocentric_sun_right_ascension(M, lam, eps, beta):
    return M.mod(M.degrees(M.atan2(sind(M, lam) * cosd(M, eps) - tand(M, beta) * sind(M, eps), cosd(M, lam))), 360)


@contract("pysolar.solar.get_geocentric_sun_declination", "P09", GEO(), tol=1e-5,
          facts=lambda M, r, lam, eps, beta: [r >= -90, r <= 90] + ([M.implies(
              M.and_(eps >= 20, eps <= 27, beta <= M.q("0.02"), beta >= -M.q("0.02")), M.and_(r <= 60, r >= -60))]
              if M.sym else []))
def get_geocentric_sun_declination(M, lam, eps, beta):
    return M.degrees(M.asin(_ecl(M, lam, eps, beta)[2]))


# ================================================================ observer, parallax
@contract("pysolar.solar.get_flattened_latitude", "P10", {"latitude": LAT()}, tol=1e-8,
          facts=lambda M, r, lat: [r <= 90, r >= -90])
def get_flattened_latitude(M, latitude):
    return M.degrees(M.atan(M.q("0.99664719") * tand(M, latitude)))


@contract("pysolar.solar.get_projected_radial_distance", "P10", {"elevation": ELEV(), "latitude": LAT()})
def get_projected_radial_distance(M, elevation, latitude):
    u = M.S.get_flattened_latitude(latitude)
    return cosd(M, u) + elevation * cosd(M, latitude) / 6378140


@contract("pysolar.solar.get_projected_axial_distance", "P10", {"elevation": ELEV(), "latitude": LAT()})
def get_projected_axial_distance(M, elevation, latitude):
    u = M.S.get_flattened_latitude(latitude)
    return M.q("0.99664719") * sind(M, u) + elevation * sind(M, latitude) / 6378140


def _parallax_actual(M, d):
    # finding K2: 8.794/(3600/R) instead of 8.794/(3600 R)
    return M.q("8.794") * d / 3600


@contract("pysolar.solar.get_equatorial_horizontal_parallax", "P10", {"sun_earth_distance": DIST()}, requires=nonzero,
          deviation=_parallax_actual, finding="K2", tol=1e-9)
def get_equatorial_horizontal_parallax(M, sun_earth_distance):
    return M.q("8.794") / (3600 * sun_earth_distance)


EHP = lambda: R(0, 0.003, special=(0,))


@contract("pysolar.solar.get_parallax_sun_right_ascension", "P10",
          {"projected_radial_distance": R(0, 1.01), "equatorial_horizontal_parallax": EHP(), "local_hour_angle": ANG(),
           "geocentric_sun_declination": DEC()}, angle=-360, tol=1e-8)
def get_parallax_sun_right_ascension(M, x, xi, H, delta):
    return M.degrees(M.atan2(-x * sind(M, xi) * sind(M, H), cosd(M, delta) - x * sind(M, xi) * cosd(M, H)))


@contract("pysolar.solar.get_topocentric_local_hour_angle", "P10", {"local_hour_angle": ANG(), "parallax_sun_right_ascension": R(-0.01, 0.01)})
def get_topocentric_local_hour_angle(M, H, da):
    return H - da


@contract("pysolar.solar.get_local_hour_angle", "P10", {"apparent_sidereal_time": ANG(), "longitude": LON(), "geocentric_sun_right_ascension": ANG()},
          angle=360, facts=lambda M, r, *a: [r >= 0, r < 360])
def get_local_hour_angle(M, v, lon, ra):
    return M.mod(v + lon - ra, 360)


def _topo_decl_actual(M, delta, y, xi, da, H):
    # finding K3: the denominator should use the radial distance x, which is not even passed
    return M.degrees(M.atan2((sind(M, delta) - y * sind(M, xi)) * cosd(M, da), cosd(M, delta) - y * sind(M, xi) * cosd(M, H)))


def _topo_decl_published(M, delta, y, xi, da, H):
    # x from y: both lie on the ellipsoid at sea level, y^2/0.99664719^2 + x^2 = 1
    x = M.sqrt(1 - (y / M.q("0.99664719")) ** 2)
    return M.degrees(M.atan2((sind(M, delta) - y * sind(M, xi)) * cosd(M, da), cosd(M, delta) - x * sind(M, xi) * cosd(M, H)))


@contract("pysolar.solar.get_topocentric_sun_declination", "P10",
          {"geocentric_sun_declination": DEC(), "projected_axial_distance": R(-0.99, 0.99), "equatorial_horizontal_parallax": EHP(),
           "parallax_sun_right_ascension": R(-0.01, 0.01), "local_hour_angle": ANG()},
          deviation=_topo_decl_actual, finding="K3", tol=1e-8)
def get_topocentric_sun_declination(M, delta, y, xi, da, H):
    return _topo_decl_published(M, delta, y, xi, da, H)


@contract("pysolar.solar.get_topocentric_sun_right_ascension", "P10",
          {"projected_radial_distance": R(0, 1.01), "equatorial_horizontal_parallax": EHP(), "local_hour_angle": ANG(),
           "apparent_sun_longitude": ANG(), "true_ecliptic_obliquity": R(22, 25), "geocentric_latitude": R(-0.01, 0.01)},
          tol=1e-8)
def get_topocentric_sun_right_ascension(M, x, xi, H, lam, eps, beta):
    dec = M.S.get_geocentric_sun_declination(lam, eps, beta)
    return M.S.get_geocentric_sun_right_ascension(lam, eps, beta) + M.S.get_parallax_sun_right_ascension(x, xi, H, dec)


# ================================================================ horizontal coordinates, refraction
@contract("pysolar.solar.get_topocentric_elevation_angle", "P11",
          {"latitude": LAT(), "topocentric_sun_declination": DEC(), "topocentric_local_hour_angle": ANG()}, tol=1e-6,
          facts=lambda M, r, lat, dec, H: [r <= 90, r >= -90])
def get_topocentric_elevation_angle(M, lat, dec, H):
    return M.degrees(M.asin(M.clip(sin_alt(M, lat, dec, H))))


@contract("pysolar.solar.get_topocentric_azimuth_angle", "P11",
          {"topocentric_local_hour_angle": ANG(), "latitude": LAT(), "topocentric_sun_declination": DEC()},
          angle=360, strict=True, tol=1e-7,
          facts=lambda M, r, *a: [r >= 0, r < 360])
def get_topocentric_azimuth_angle(M, H, lat, dec):
    return M.mod(180 + M.degrees(M.atan2(sind(M, H), cosd(M, H) * sind(M, lat) - tand(M, dec) * cosd(M, lat))), 360)


@contract("pysolar.solar.get_refraction_correction", "P12",
          {"pressure": PRES(), "temperature": TEMP(),
           "topocentric_elevation_angle": R(-90, 90, req=True, special=(-0.83337, -0.83338, 0, 90, -5.11, -90))},
          requires=lambda M, P, T, e: [T > 0])
def get_refraction_correction(M, P, T, e):
    return M.ite(e >= M.q("-0.83337"),
                 lambda: (P / M.num(101000)) * (283 / M.num(T)) * (M.q("1.02") / 60) / tand(M, e + M.q("10.3") / (e + M.q("5.11"))),
                 lambda: M.num(0))


# ================================================================ position
SITE = lambda: {"latitude_deg": LAT(), "longitude_deg": LON(), "when": When(), "elevation": ELEV()}
FULL = lambda: dict(SITE(), temperature=TEMP(), pressure=PRES())
coldT = lambda i: (lambda M, *a: [a[i] > 0])


@contract("pysolar.solar.get_topocentric_position", "P13", SITE(), result=("R", "R"), tol=1e-6, defaults=ELD)
def get_topocentric_position(M, latitude_deg, longitude_deg, when, elevation):
    S = M.S
    x = S.get_projected_radial_distance(elevation, latitude_deg)
    y = S.get_projected_axial_distance(elevation, latitude_deg)
    jd = S.get_julian_solar_day(when)
    jce = S.get_julian_ephemeris_century(S.get_julian_ephemeris_day(when))
    jme = S.get_julian_ephemeris_millennium(jce)
    r = S.get_sun_earth_distance(jme)
    nut = S.get_nutation(jce)
    eps = S.get_true_ecliptic_obliquity(jme, nut)
    beta = S.get_geocentric_latitude(jme)
    lam = S.get_apparent_sun_longitude(S.get_geocentric_longitude(jme), nut, S.get_aberration_correction(r))
    ra = S.get_geocentric_sun_right_ascension(lam, eps, beta)
    dec = S.get_geocentric_sun_declination(lam, eps, beta)
    H = S.get_local_hour_angle(S.get_apparent_sidereal_time(jd, jme, nut), longitude_deg, ra)
    xi = S.get_equatorial_horizontal_parallax(r)
    da = S.get_parallax_sun_right_ascension(x, xi, H, dec)
    return (S.get_topocentric_sun_declination(dec, y, xi, da, H), S.get_topocentric_local_hour_angle(H, da))


# the topocentric declination is less than 90 degrees away from the equator (fact of the place of the sun)
@contract("pysolar.solar.get_position", "P13", FULL(), result=("R", "R"), angle=(360, None), strict=True, tol=1e-6, defaults=ATM,
          requires=coldT(4), facts=lambda M, r, *a: [r[0] >= 0, r[0] < 360])
def get_position(M, latitude_deg, longitude_deg, when, elevation, temperature, pressure):
    S = M.S
    dec, H = S.get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    e = S.get_topocentric_elevation_angle(latitude_deg, dec, H)
    return (S.get_topocentric_azimuth_angle(H, latitude_deg, dec),
            e + S.get_refraction_correction(pressure, temperature, e))


@contract("pysolar.solar.get_altitude", "P12 P13", FULL(), requires=coldT(4), tol=1e-6, defaults=ATM)
def get_altitude(M, latitude_deg, longitude_deg, when, elevation, temperature, pressure):
    S = M.S
    dec, H = S.get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    e = S.get_topocentric_elevation_angle(latitude_deg, dec, H)
    return e + S.get_refraction_correction(pressure, temperature, e)


@contract("pysolar.solar.get_azimuth", "P13", SITE(), angle=360, strict=True, tol=1e-6, defaults=ELD,
          facts=lambda M, r, *a: [r >= 0, r < 360])
def get_azimuth(M, latitude_deg, longitude_deg, when, elevation):
    S = M.S
    dec, H = S.get_topocentric_position(latitude_deg, longitude_deg, when, elevation)
    return S.get_topocentric_azimuth_angle(H, latitude_deg, dec)


@contract("pysolar.solar.get_topocentric_zenith_angle", "P14",
          {"latitude": LAT(), "topocentric_sun_declination": DEC(), "topocentric_local_hour_angle": ANG(),
           "pressure": PRES(), "temperature": TEMP()}, requires=lambda M, lat, dec, H, P, T: [T > 0], tol=1e-6)
def get_topocentric_zenith_angle(M, lat, dec, H, P, T):
    e = M.S.get_topocentric_elevation_angle(lat, dec, H)
    return 90 - e - M.S.get_refraction_correction(P, T, e)


@contract("pysolar.solar.get_incidence_angle", "P14",
          {"topocentric_zenith_angle": R(0, 180, special=(0, 90, 45, 30)), "slope": R(-180, 180, special=(0, 90, 30, 45)),
           "slope_orientation": R(-180, 180, special=(0, 90, -90)), "topocentric_azimuth_angle": R(0, 360, special=(0, 90, 180, 270))},
          tol=1e-5, facts=lambda M, r, *a: [r >= 0, r <= 180])
def get_incidence_angle(M, Z, slope, gamma, az):
    """angle between the direction of the sun and the normal of the surface; lemma P14.vectors shows that
    the cosine below is the scalar product of the two unit vectors (south, west, up)"""
    return M.degrees(M.acos(M.clip(cosd(M, Z) * cosd(M, slope) + sind(M, Z) * sind(M, slope) *
                                   M.cos(M.radians(az) - M.pi - M.radians(gamma)))))


# ================================================================ radiation.py
@contract("pysolar.radiation.get_apparent_extraterrestrial_flux", "P17", {"day": DAY()},
          facts=lambda M, r, day: [r <= 1235, r >= 1085])
def get_apparent_extraterrestrial_flux(M, day):
    return 1160 + 75 * M.sin(2 * M.pi * (day - 275) / 365)


@contract("pysolar.radiation.get_optical_depth", "P17", {"day": DAY()},
          facts=lambda M, r, day: [r <= M.q("0.209"), r >= M.q("0.139")])
def get_optical_depth(M, day):
    return M.q("0.174") + M.q("0.035") * M.sin(2 * M.pi * (day - 100) / 365)


@contract("pysolar.radiation.get_air_mass_ratio", "P17", {"altitude_deg": ALT()}, tol=1e-9,
          inf=lambda M, a: M.eq(sind(M, a), 0),
          facts=lambda M, r, a: [M.implies(a > 0, r >= 1)])
def get_air_mass_ratio(M, altitude_deg):
    return 1 / sind(M, altitude_deg)


BYALT = None


@contract("pysolar.radiation.get_radiation_direct", "P17", {"when": When(), "altitude_deg": ALT()}, tol=1e-9,
          facts=lambda M, r, when, a: [r >= 0, r <= 1235])
def get_radiation_direct(M, when, altitude_deg):
    d = M.S.tm_yday(when)
    return M.ite(altitude_deg > 0,
                 lambda: M.S.get_apparent_extraterrestrial_flux(d) * M.exp(-M.S.get_optical_depth(d) / sind(M, altitude_deg)),
                 lambda: M.num(0))


# ================================================================ util.py
def _sunrise_parts(M, latitude_deg, longitude_deg, when):
    day = M.local_yday(when)
    TT = 2 * M.pi * day / 366
    decl = (M.q("0.322003") - M.q("22.971") * M.cos(TT) - M.q("0.357898") * M.cos(2 * TT) - M.q("0.14398") * M.cos(3 * TT)
            + M.q("3.94638") * M.sin(TT) + M.q("0.019334") * M.sin(2 * TT) + M.q("0.05928") * M.sin(3 * TT))
    u = M.radians(M.q("279.134") + M.q("0.985647") * day)
    adj = (M.q("5.0323") - M.q("100.976") * M.sin(u) + M.q("595.275") * M.sin(2 * u) + M.q("3.6858") * M.sin(3 * u)
           - M.q("12.47") * M.sin(4 * u) - M.q("430.847") * M.cos(u) + M.q("12.5024") * M.cos(2 * u)
           + M.q("18.25") * M.cos(3 * u)) / 3600
    noon = 12 + M.offset_seconds(when) / 3600 - longitude_deg / 15 - adj
    c = cosd(M, M.q("90.833")) / (cosd(M, latitude_deg) * cosd(M, decl)) - tand(M, latitude_deg) * tand(M, decl)
    return noon, c


def _norise(M, lat, lon, when):
    c = _sunrise_parts(M, lat, lon, when)[1]
    return M.or_(c > 1, c < -1)


SUN = lambda: {"latitude_deg": R(-89.9, 89.9, special=(0, 66.5, 70, -70)), "longitude_deg": R(-180, 180), "when": Local()}
poles = lambda M, lat, lon, when: [lat > -90, lat < 90]


def _sun(M, lat, lon, when):
    noon, c = _sunrise_parts(M, lat, lon, when)
    ha = M.acos(c) * 12 / M.pi
    return (M.local_midnight_plus(when, noon - ha), M.local_midnight_plus(when, noon + ha), M.local_midnight_plus(when, noon))


@contract("pysolar.util.get_sunrise_sunset_transit", "P20", SUN(), result=("DT", "DT", "DT"), requires=poles,
          raises=[(ValueError, _norise)], tol=2e-6, expand=False)
def get_sunrise_sunset_transit(M, lat, lon, when):
    return _sun(M, lat, lon, when)


@contract("pysolar.util.get_sunrise_sunset", "P20", SUN(), result=("DT", "DT"), requires=poles,
          raises=[(ValueError, _norise)], tol=2e-6, expand=False)
def get_sunrise_sunset(M, lat, lon, when):
    return M.S.get_sunrise_sunset_transit(lat, lon, when)[:2]


def _nth(n, i):
    @contract("pysolar.util." + n, "P20", SUN(), result="DT", requires=poles, raises=[(ValueError, _norise)], tol=2e-6, expand=False)
    def f(M, lat, lon, when):
        return M.S.get_sunrise_sunset_transit(lat, lon, when)[i]


_nth("get_sunrise_time", 0)
_nth("get_sunset_time", 1)
_nth("get_transit_time", 2)


@contract("pysolar.util.mean_earth_sun_distance", "P22", {"when": When()},
          facts=lambda M, r, w: [r >= M.q("0.9665"), r <= M.q("1.0335")])
def mean_earth_sun_distance(M, when):
    return 1 - M.q("0.0335") * M.sin(2 * M.pi * (M.S.tm_yday(when) - 94) / 365)


def _etr(M, lat, lon, when):
    day = M.S.tm_yday(when)
    B = 2 * M.pi * (day - 1) / 365
    cz = sin_alt(M, lat, M.S.get_declination(day), M.S.get_hour_angle(when, lon))
    e = (M.q("1.0001") + M.q("0.034221") * M.cos(B) + M.q("0.00128") * M.sin(B) + M.q("0.000719") * M.cos(2 * B)
         + M.q("0.000077") * M.sin(2 * B))
    return cz, e


def _etr_proof(M, lat, lon, when, sc):
    cz, e = _etr(M, lat, lon, when)
    return [cz <= 1, e >= 0, e <= M.q("1.0398")], [cz, e]


@contract("pysolar.util.extraterrestrial_irrad", "P21",
          {"latitude_deg": LAT(), "longitude_deg": LON(), "when": When(), "SC": R(0, 2000, special=(1367, 0))}, tol=1e-9, defaults={"SC": "1367"}, proof=_etr_proof,
          facts=lambda M, r, lat, lon, w, sc: [M.implies(sc >= 0, M.and_(r >= 0, r <= M.q("1.04") * sc))])
def extraterrestrial_irrad(M, lat, lon, when, SC):
    cz, e = _etr(M, lat, lon, when)
    return M.ite(cz > 0, lambda: SC * cz * e, lambda: M.num(0))


@contract("pysolar.util.clear_index", "P21", {"ghi_data": R(0, 1400), "latitude_deg": LAT(), "longitude_deg": LON(), "when": When()},
          raises=[(ZeroDivisionError, lambda M, g, lat, lon, w: M.eq(M.S.extraterrestrial_irrad(lat, lon, w, 1367), 0))], tol=1e-9)
def clear_index(M, ghi_data, lat, lon, when):
    return ghi_data / M.S.extraterrestrial_irrad(lat, lon, when, 1367)


@contract("pysolar.util.diffuse_ratio", "P21", {"DIFF_data": R(0, 1400), "ghi_data": R(1, 1400)},
          requires=lambda M, d, g: [M.not_(M.eq(g, 0))])
def diffuse_ratio(M, DIFF_data, ghi_data):
    return DIFF_data / ghi_data


@contract("pysolar.util.declination_degree", "P22", {"when": When(), "TY": R(300, 400, special=(365, 366))}, defaults={"TY": "365"},
          requires=lambda M, w, ty: [M.not_(M.eq(ty, 0))],
          facts=lambda M, r, w, ty: [r <= M.q("23.45"), r >= -M.q("23.45")])
def declination_degree(M, when, TY):
    return M.q("23.45") * M.sin(2 * M.pi * (M.S.tm_yday(when) - 81) / TY)


def _sky(name, params, order, pids="P22", **kw):
    base = {"latitude_deg": LAT(), "longitude_deg": LON(), "when": When(), "elevation": ELEV(), "temperature": TEMP(),
            "pressure": PRES(), "TL": R(0.5, 7, special=(1, 2)), "AM": R(0.5, 10, special=(2,)), "TY": R(300, 400, special=(365,))}
    ps = {p: base[p] for p in order}
    iT = list(order).index("temperature") if "temperature" in order else None

    def req(M, *a):
        r = []
        if iT is not None:
            r.append(a[iT] > 0)
        if "TY" in order:
            r.append(M.not_(M.eq(a[list(order).index("TY")], 0)))
        return r

    def deco(f):
        def g(M, *a):
            return f(M, dict(zip(order, a)))
        return Contract("pysolar.util." + name, pids.split(), list(ps.items()), g, requires=req, tol=1e-6, defaults={k: SKY[k] for k in order if k in SKY}, **kw)
    return deco


def _alt(M, p):
    return M.S.get_altitude(p["latitude_deg"], p["longitude_deg"], p["when"], p["elevation"], p["temperature"], p["pressure"])


W = ("latitude_deg", "longitude_deg", "when")


@_sky("solarelevation_function_clear", None, W + ("temperature", "pressure", "elevation"))
def _(M, p):
    h = _alt(M, p)
    return M.q("0.038175") + M.q("1.5458") * sind(M, h) - M.q("0.5998") * sind(M, h) ** 2


@_sky("solarelevation_function_overcast", None, W + ("elevation", "temperature", "pressure"))
def _(M, p):
    h = _alt(M, p)
    return -M.q("0.0067133") + M.q("0.786") * sind(M, h) + M.q("0.22401") * sind(M, h) ** 2


@contract("pysolar.util.diffuse_transmittance", "P22", {"TL": R(0.5, 7, special=(1,))}, defaults={"TL": "1"})
def diffuse_transmittance(M, TL):
    TL = M.num(TL)
    return M.q("-21.657") + M.q("41.752") * TL + M.q("0.51905") * TL ** 2


def _diffuse(M, p):
    return M.S.mean_earth_sun_distance(p["when"]) * M.S.diffuse_transmittance(p["TL"]) * _alt(M, p)


@_sky("diffuse_underclear", None, W + ("elevation", "temperature", "pressure", "TL"))
def _(M, p):
    return _diffuse(M, p)


@_sky("diffuse_underovercast", None, W + ("elevation", "temperature", "pressure", "TL"))
def _(M, p):
    return _diffuse(M, p)


# exp(-0.8662 AM TL dec) stays representable
def _noover(M, p):
    return [p["AM"] >= 0, p["TL"] >= 0, p["AM"] * p["TL"] <= 34]


def _direct(M, p):
    dec = M.S.declination_degree(p["when"], p["TY"])
    return 1367 * M.S.mean_earth_sun_distance(p["when"]) * M.exp(-M.q("0.8662") * p["AM"] * p["TL"] * dec) * sind(M, _alt(M, p))


DO = W + ("TY", "AM", "TL", "elevation", "temperature", "pressure")


@_sky("direct_underclear", None, DO)
def _(M, p):
    return _direct(M, p)


@_sky("global_irradiance_clear", None, DO)
def _(M, p):
    return (M.S.direct_underclear(*[p[k] for k in DO]) +
            M.S.diffuse_underclear(*[p[k] for k in W + ("elevation", "temperature", "pressure", "TL")]))


from pyver.contract import REG as _REG
for _n in ("direct_underclear", "global_irradiance_clear"):
    def _mk(c):
        old, names = c.requires, [n for n, _ in c.params]
        c.requires = lambda M, *a: old(M, *a) + _noover(M, dict(zip(names, a)))
    _mk(_REG["pysolar.util." + _n])


@_sky("global_irradiance_overcast", None, W + ("elevation", "temperature", "pressure"))
def _(M, p):
    return 572 * _alt(M, p)


# ================================================================ elevation.py
PAR = lambda: {"h": R(-500, 11500, special=(0, 11000, 11000.001, 10999, 12000)), "Ps": R(50000, 110000, special=(101325,)), "Ts": R(200, 330, special=(288.15,)),
               "Tl": R(-0.01, 0.01, special=(-0.0065,)), "Hb": R(-100, 100, special=(0,)), "R": R(8, 9, special=(8.31432,)),
               "g": R(9, 10, special=(9.80665,)), "M": R(0.02, 0.04, special=(0.0289644,))}


STD = {"Ps": P0, "Ts": T0, "Tl": "-0.0065", "Hb": "0", "R": "8.31432", "g": "9.80665", "M": "0.0289644"}


@contract("pysolar.elevation.get_pressure_with_elevation", "P23", PAR(), tol=1e-9, defaults=STD,
          requires=lambda M, h, Ps, Ts, Tl, Hb, Rg, g, Mm: [Ts > 0, Ts + Tl * (h - Hb) > 0, M.not_(M.eq(Tl, 0)), M.not_(M.eq(Rg, 0))],
          warns=lambda M, h, *a: h > 11000)
def get_pressure_with_elevation(M, h, Ps, Ts, Tl, Hb, Rg, g, Mm):
    return Ps * M.power(Ts / (Ts + Tl * (h - Hb)), (g * Mm) / (Rg * Tl))


@contract("pysolar.elevation.get_temperature_with_elevation", "P23",
          {"h": R(-500, 12000, special=(0, 11000)), "Ts": R(200, 330), "Tl": R(-0.01, 0.01)}, defaults={k: STD[k] for k in ("Ts", "Tl")})
def get_temperature_with_elevation(M, h, Ts, Tl):
    return Ts + Tl * h


# ================================================================ rest.py
BAND = lambda: Choice("high-frequency", "low-frequency")
HI = "high-frequency"
RALT = lambda: R(0, 90, req=True, special=(0, 90, 45))
MASS = lambda hi=None: R(0, 75, req=True, special=(0, 1), dom=(0, hi))


def _mass(name, a, b, c, d, pressure=False):
    def mass(M, alt):
        Z = M.num(90 - alt)
        return 1 / (cosd(M, Z) + M.q(a) * M.power(Z, M.q(b)) / M.power(M.q(c) - Z, M.q(d)))

    def spec(M, alt, *p):
        m = mass(M, alt)
        return (p[0] / M.q("1013.25")) * m if pressure else m

    def proof(M, alt, *p):
        m = mass(M, alt)
        return [m >= M.q("0.99"), m <= 40], [m]
    ps = {"altitude_deg": RALT()}
    if pressure:
        ps["pressure_millibars"] = R(0, 1100, special=(1013.25,))
    def facts(M, r, alt, *p):
        if pressure:
            return [M.implies(p[0] >= 0, M.and_(r >= 0, r <= p[0] * M.q("0.04")))]
        return [r >= M.q("0.99"), r <= 75]
    Contract("pysolar.rest." + name, ["P28"], list(ps.items()), spec, tol=1e-9, facts=facts, proof=proof if pressure else None)


MASSES = {"get_optical_mass_rayleigh": ("0.48353", "0.095846", "96.741", "1.754", True),
          "get_optical_mass_ozone": ("1.0651", "0.6379", "101.8", "2.2694"),
          "get_optical_mass_water": ("0.10648", "0.11423", "93.781", "1.9203"),
          "get_optical_mass_aerosol": ("0.16851", "0.18198", "95.318", "1.9542")}
for _k, _v in MASSES.items():
    _mass(_k, *_v)


def _rat(M, x, num, den):
    """ratio of polynomials given by coefficient strings, constant first"""
    def p(co):
        r = M.num(0)
        for c in reversed(co):
            r = r * x + M.q(c)
        return r
    return p(num) / p(den)


@contract("pysolar.rest.get_gas_transmittance", "P28", {"band": BAND(), "mRprime": MASS()},
          facts=lambda M, r, band, m: [r >= 0, r <= 1, M.implies(M.eq(m, 0), M.eq(r, 1))])
def get_gas_transmittance(M, band, m):
    if band == HI:
        return _rat(M, M.num(m), ("1", "0.95885", "0.012871"), ("1", "0.96321", "0.015455"))
    return _rat(M, M.num(m), ("1", "0.27284", "-0.00063699"), ("1", "0.30306"))


@contract("pysolar.rest.get_rayleigh_transmittance", "P28", {"band": BAND(), "mRprime": MASS(95)},
          facts=lambda M, r, band, m: [r >= 0, r <= 1, M.implies(M.eq(m, 0), M.eq(r, 1))])
def get_rayleigh_transmittance(M, band, m):
    if band == HI:
        return _rat(M, M.num(m), ("1", "1.8169", "0.033454"), ("1", "2.063", "0.31978"))
    return _rat(M, M.num(m), ("1", "-0.010394"), ("1", "0", "-0.00011042"))


@contract("pysolar.rest.get_ozone_transmittance", "P28", {"band": BAND(), "mo": MASS(), "uo": R(0, 1, req=True, special=(0, 0.35), dom=(0, 1.9))}, tol=1e-9)
def get_ozone_transmittance(M, band, m, uo):
    if band != HI:
        return M.num(1)
    m, uo = M.num(m), M.num(uo)
    f1 = uo * _rat(M, uo, ("10.979", "-8.5421"), ("1", "2.0115", "40.189"))
    f2 = uo * _rat(M, uo, ("-0.027589", "-0.005138"), ("1", "-2.4857", "13.942"))
    f3 = uo * _rat(M, uo, ("10.995", "-5.5001"), ("1", "1.6784", "42.406"))
    return (1 + f1 * m + f2 * m ** 2) / (1 + f3 * m)


@contract("pysolar.rest.get_nitrogen_transmittance", "P28 P29", {"band": BAND(), "mw": MASS(), "nitrogen_atm_cm": R(0, 0.03, req=True, special=(0, 0.0002), dom=(0, None))}, tol=1e-9)
def get_nitrogen_transmittance(M, band, m, un):
    if band != HI:
        return M.num(1)
    m, un = M.num(m), M.num(un)
    g1 = _rat(M, un, ("0.17499", "41.654", "-2146.4"), ("1", "0", "22295"))
    g2 = un * _rat(M, un, ("-1.2134", "59.324"), ("1", "0", "8847.8"))
    g3 = _rat(M, un, ("0.17499", "61.658", "9196.4"), ("1", "0", "74109"))
    return M.min(M.num(1), (1 + g1 * m + g2 * m ** 2) / (1 + g3 * m))


def _water_low(M, w):
    return (w * _rat(M, w, ("19.566", "-1.6506", "1.0672"), ("1", "5.4248", "1.6005")),
            w * _rat(M, w, ("0.50158", "-0.14732", "0.047584"), ("1", "1.1811", "1.0699")),
            w * _rat(M, w, ("21.286", "-0.39232", "1.2692"), ("1", "4.8318", "1.412")),
            w * _rat(M, w, ("0.70992", "-0.23155", "0.096514"), ("1", "0.44907", "0.75425")))


def _water_proof(M, band, m, w):
    if band == HI:
        return None
    c1, c2, c3, c4 = _water_low(M, M.num(w))
    return [c1 >= 0, c2 >= 0, c1 <= c3, c2 <= c4], [c1, c2, c3, c4]


@contract("pysolar.rest.get_water_vapor_transmittance", "P28", {"band": BAND(), "mw": MASS(), "w": R(0, 10, req=True, special=(0, 5), dom=(0, None))}, tol=1e-9, proof=_water_proof,
          facts=lambda M, r, band, m, w: [r >= 0, r <= 1, M.implies(M.eq(m, 0), M.eq(r, 1))])
def get_water_vapor_transmittance(M, band, m, w):
    m, w = M.num(m), M.num(w)
    if band == HI:
        h1 = w * _rat(M, w, ("0.065445", "0.00029901"), ("1", "1.2728"))
        h2 = w * _rat(M, w, ("0.065687", "0.0013218"), ("1", "1.2008"))
        return (1 + h1 * m) / (1 + h2 * m)
    c1, c2, c3, c4 = _water_low(M, w)
    return (1 + c1 * m + c2 * m ** 2) / (1 + c3 * m + c4 * m ** 2)


@contract("pysolar.rest.get_aerosol_transmittance", "P28", {"band": BAND(), "ma": MASS(), "tau_a": R(0, 5, special=(0,))}, requires=lambda M, band, m, t: [t >= 0],
          facts=lambda M, r, band, m, t: [r >= 0, r <= 1, M.implies(M.eq(m, 0), M.eq(r, 1))])
def get_aerosol_transmittance(M, band, m, tau):
    return M.exp(-m * tau)


@contract("pysolar.rest.get_aerosol_scattering_transmittance", "P28", {"band": BAND(), "ma": MASS(), "tau_a": R(0, 5, special=(0,))}, requires=lambda M, band, m, t: [t >= 0],
          facts=lambda M, r, band, m, t: [r >= 0, r <= 1, M.implies(M.eq(m, 0), M.eq(r, 1))])
def get_aerosol_scattering_transmittance(M, band, m, tau):
    return M.exp(-m * (M.q("0.92") if band == HI else M.q("0.84")) * tau)


@contract("pysolar.rest.get_aerosol_optical_depth", "P28",
          {"turbidity_beta": R(0, 2, special=(0.6, 0)), "effective_wavelength": R(0.2, 3), "turbidity_alpha": R(0, 2.5, special=(1.3,))},
          requires=lambda M, b, l, a: [l > 0], facts=lambda M, r, b, l, a: [M.implies(b >= 0, r >= 0)])
def get_aerosol_optical_depth(M, beta, lam, alpha):
    return beta * M.power(M.num(lam), -M.num(alpha))


def _e3(M, a):
    return _rat(M, M.num(a), ("-0.70003", "-0.73587", "0.51509"), ("1", "4.7665"))


@contract("pysolar.rest.get_effective_aerosol_wavelength", "P28",
          {"band": BAND(), "ma": MASS(), "turbidity_alpha": R(0, 2.5, req=True, special=(1.3, 0), dom=(0, 5)), "turbidity_beta": R(0, 1.1, req=True, special=(0.6, 0), dom=(0, None))}, tol=1e-9,
          requires=lambda M, band, m, a, b: [] if band == HI else [1 + _e3(M, a) * M.log(1 + m * b) > 0])
def get_effective_aerosol_wavelength(M, band, m, a, b):
    a, u = M.num(a), M.log(1 + m * b)
    if band == HI:
        d0 = _rat(M, a, ("0.57664", "-0.024743"), ("1",))
        d1 = _rat(M, a, ("0.093942", "-0.2269", "0.12848"), ("1", "0.6418"))
        d2 = _rat(M, a, ("-0.093819", "0.36668", "-0.12775"), ("1", "-0.11651"))
        d3 = a * _rat(M, a, ("0.15232", "-0.087214", "0.012664"), ("1", "-0.90454", "0.26167"))
        return (d0 + d1 * u + d2 * u ** 2) / (1 + d3 * u ** 2)
    e0 = _rat(M, a, ("1.183", "-0.022989", "0.020829"), ("1", "0.11133"))
    e1 = _rat(M, a, ("-0.50003", "-0.18329", "0.23835"), ("1", "1.6756"))
    e2 = _rat(M, a, ("-0.50001", "1.1414", "0.0083589"), ("1", "11.168"))
    e3 = _e3(M, a)
    return (e0 + e1 * u + e2 * u ** 2) / (1 + e3 * u)


@contract("pysolar.rest.get_sky_albedo", "P28", {"band": BAND(), "turbidity_alpha": R(0, 2.5, req=True, special=(1.3,), dom=(0, 5)), "turbidity_beta": R(0, 1.1, req=True, special=(0.6,), dom=(0, None))},
          facts=lambda M, r, band, a, b: [r >= 0, r <= 3])
def get_sky_albedo(M, band, a, b):
    a, b = M.num(a), M.num(b)
    if band == HI:
        c = ("0.13363", "0.00077358", "0.37567", "0.22946", "0.10832", "0.84057", "0.68683", "0.08158")
    else:
        c = ("0.010191", "0.00085547", "0.14618", "0.062758", "0.19402", "0.58101", "0.17426", "0.17586")
    c = [M.q(x) for x in c]
    return (c[0] + c[1] * a + b * (c[2] + c[3] * a) / (1 - c[4] * a)) / (1 + b * (c[5] + c[6] * a) / (1 - c[7] * a))


@contract("pysolar.rest.get_ground_albedo", "P28", {"band": BAND()}, facts=lambda M, r, b: [M.eq(r, M.q("0.15"))])
def get_ground_albedo(M, band):
    return M.q("0.15")


@contract("pysolar.rest.get_aerosol_forward_scatterance_factor", "P28", {"altitude_deg": RALT()})
def get_aerosol_forward_scatterance_factor(M, alt):
    return 1 - M.exp(-M.q("0.6931") - M.q("1.8326") * cosd(M, 90 - alt))


@contract("pysolar.rest.get_aerosol_scattering_correction_factor", "P28",
          {"band": BAND(), "ma": R(0, 40, req=True, special=(0, 1), dom=(0, None)), "tau_a": R(0, 5, req=True, special=(0,), dom=(0, 15))}, tol=1e-9)
def get_aerosol_scattering_correction_factor(M, band, m, tau):
    m = M.num(m)
    if band == HI:
        g0 = _rat(M, m, ("3.715", "0.368", "0.036294"), ("1", "0", "0.0009391"))
        g1 = _rat(M, m, ("-0.164", "-0.72567", "0.20701"), ("1", "0", "0.001901"))
        g2 = _rat(M, m, ("-0.052288", "0.31902", "0.17871"), ("1", "0", "0.0069592"))
        return (g0 + g1 * tau) / (1 + g2 * tau)
    q = M.power(m, M.q("1.5"))
    h0 = (M.q("3.4352") + M.q("0.65267") * m + M.q("0.00034328") * m ** 2) / (1 + M.q("0.034388") * q)
    h1 = (M.q("1.231") - M.q("1.63853") * m + M.q("0.20667") * m ** 2) / (1 + M.q("0.1451") * q)
    h2 = (M.q("0.8889") - M.q("0.55063") * m + M.q("0.50152") * m ** 2) / (1 + M.q("0.14865") * q)
    return (h0 + h1 * tau) / (1 + h2 * tau)


@contract("pysolar.rest.get_rayleigh_extinction_forward_scattering_fraction", "P28", {"band": BAND(), "mR": MASS()})
def get_rayleigh_extinction_forward_scattering_fraction(M, band, m):
    m = M.num(m)
    return M.num(M.q("0.5") * (M.q("0.89013") - M.q("0.049558") * m + M.q("0.000045721") * m ** 2)) if band == HI else M.q("0.5")


DN = {"altitude_deg": RALT(), "pressure_millibars": R(0, 1100, req=True, special=(1013.25,), dom=(0, 2300)), "ozone_atm_cm": R(0, 1, req=True, special=(0.35,), dom=(0, 1.9)),
      "nitrogen_atm_cm": R(0, 0.03, req=True, special=(0.0002,), dom=(0, None)), "precipitable_water_cm": R(0, 10, req=True, special=(5.0,), dom=(0, None)),
      "turbidity_alpha": R(0, 2.5, req=True, special=(1.3,), dom=(0, 5)), "turbidity_beta": R(0, 1.1, req=True, special=(0.6,), dom=(0, None))}


RDEF = {"pressure_millibars": "1013.25", "ozone_atm_cm": "0.35", "nitrogen_atm_cm": "0.0002", "precipitable_water_cm": "5",
        "turbidity_alpha": "1.3", "turbidity_beta": "0.6"}


def _wlpos(M, band, alt, P, o3, no2, w, al, be):
    """the effective wavelength, and hence the optical depth, must be positive"""
    m = M.S.get_optical_mass_aerosol(alt)
    pre = [] if band == HI else [1 + _e3(M, al) * M.log(1 + m * be) > 0]
    return pre + [M.S.get_effective_aerosol_wavelength(band, m, al, be) > 0]


@contract("pysolar.rest.get_direct_normal_irradiance_by_band", "P29", dict({"band": BAND()}, **DN), tol=1e-9, requires=_wlpos, defaults=RDEF)
def get_direct_normal_irradiance_by_band(M, band, alt, P, o3, no2, w, al, be):
    S = M.S
    mR, mo, mw, ma = (S.get_optical_mass_rayleigh(alt, P), S.get_optical_mass_ozone(alt), S.get_optical_mass_water(alt),
                      S.get_optical_mass_aerosol(alt))
    tau = S.get_aerosol_optical_depth(be, S.get_effective_aerosol_wavelength(band, ma, al, be), al)
    return (M.q("635.4" if band == HI else "709.7") * S.get_rayleigh_transmittance(band, mR) * S.get_gas_transmittance(band, mR)
            * S.get_ozone_transmittance(band, mo, o3) * S.get_nitrogen_transmittance(band, mw, no2)
            * S.get_water_vapor_transmittance(band, mw, w) * S.get_aerosol_transmittance(band, ma, tau))


def _both(M, *a):
    return _wlpos(M, HI, *a) + _wlpos(M, "low-frequency", *a)


@contract("pysolar.rest.get_broadband_direct_normal_irradiance", "P29", dict(DN), tol=1e-9, requires=_both, defaults=RDEF)
def get_broadband_direct_normal_irradiance(M, *a):
    f = M.S.get_direct_normal_irradiance_by_band
    return f(HI, *a) + f("low-frequency", *a)


@contract("pysolar.rest.get_beam_broadband_irradiance", "P29", dict(DN), tol=1e-9, requires=_both, defaults=RDEF)
def get_beam_broadband_irradiance(M, alt, *a):
    return M.S.get_broadband_direct_normal_irradiance(alt, *a) * sind(M, alt)


@contract("pysolar.rest.get_beam_irradiance_by_band", "P29", dict({"band": BAND()}, **DN), tol=1e-9, requires=_wlpos, defaults=RDEF)
def get_beam_irradiance_by_band(M, band, alt, *a):
    return M.S.get_direct_normal_irradiance_by_band(band, alt, *a) * sind(M, alt)


@contract("pysolar.rest.get_backscattered_diffuse_irradiance_by_band", "P29",
          {"band": BAND(), "Ebi": R(0, 800), "Edpi": R(0, 800), "turbidity_alpha": R(0, 2.5, req=True, special=(1.3,), dom=(0, 5)), "turbidity_beta": R(0, 1.1, req=True, special=(0.6,), dom=(0, None))},
          defaults={k: RDEF[k] for k in ("turbidity_alpha", "turbidity_beta")})
def get_backscattered_diffuse_irradiance_by_band(M, band, Eb, Ed, al, be):
    rg, rs = M.S.get_ground_albedo(band), M.S.get_sky_albedo(band, al, be)
    return rg * rs * (Eb + Ed) / (1 - rg * rs)
