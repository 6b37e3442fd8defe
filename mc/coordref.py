"""Reference conversions between Cartesian, spherical and Boyer-Lindquist coordinates, positions and velocities, 40 digits."""
import mpmath as mp
mp.mp.dps = 40


def sph_of(x, y, z):
    x, y, z = map(mp.mpf, (x, y, z))
    r = mp.sqrt(x * x + y * y + z * z)
    return r, mp.atan2(mp.sqrt(x * x + y * y), z), mp.atan2(y, x)


def bl_of(x, y, z, al):
    x, y, z, al = map(mp.mpf, (x, y, z, al))
    w = x * x + y * y + z * z - al * al
    sg = mp.sqrt(w * w + 4 * al * al * z * z)
    r2 = (w + sg) / 2 if w >= 0 else 2 * al * al * z * z / (sg - w)
    r = mp.sqrt(r2)
    cos = z / r if r else mp.sqrt((sg - w) / 2) / al if al else mp.mpf(0)
    return r, mp.atan2(mp.sqrt(x * x + y * y) / mp.sqrt(r2 + al * al), cos), mp.atan2(y, x)


def cart_of(r, th, ph, al=0):
    r, th, ph, al = map(mp.mpf, (r, th, ph, al))
    R = mp.sqrt(r * r + al * al) if al else r
    return R * mp.sin(th) * mp.cos(ph), R * mp.sin(th) * mp.sin(ph), r * mp.cos(th)


def jac(r, th, ph, al=0):
    """d(x,y,z)/d(r,th,ph)"""
    r, th, ph, al = map(mp.mpf, (r, th, ph, al))
    R = mp.sqrt(r * r + al * al)
    dR = r / R
    s, c, sp, cp = mp.sin(th), mp.cos(th), mp.sin(ph), mp.cos(ph)
    return mp.matrix([[dR * s * cp, R * c * cp, -R * s * sp], [dR * s * sp, R * c * sp, R * s * cp], [c, -r * s, 0]])


def vel_to_cart(q, v, al=0):
    J = jac(*q, al)
    return [mp.fsum(J[i, j] * mp.mpf(v[j]) for j in range(3)) for i in range(3)]


def vel_from_cart(q, v, al=0):
    J = jac(*q, al)
    s = mp.lu_solve(J, mp.matrix([mp.mpf(k) for k in v]))
    return [s[i] for i in range(3)]
