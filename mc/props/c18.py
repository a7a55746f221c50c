"""C18: random placement never overlaps particles and stays in the region."""
import itertools
import math

import numpy as np

from mc import repo

ID = "C18"
BOUNDS = {
    "quick": "every sequence of the first 3-5 random draws over a grid (9 points of a plane, "
             "8 of a box, 4 values of an angle), continued by a fixed sequence, for 1-4 "
             "spheres or 1-3 dumbbells, planar and solid boxes, 0-2 particles already there, "
             "fixed and free angles, free and periodic; 25 first positions of the first of "
             "2-3 spheres in boxes barely large enough; all points of a lattice against 6 "
             "polygons",
    "thorough": "one more free draw",
}
ASSUME = ["random numbers are drawn through numpy.random",
          "only requests that can be met: beads of one dumbbell do not overlap each other, "
          "a dumbbell is no longer than half the periodic box, "
          "and dumbbells always find room whatever the places of the earlier ones"]
CHUNK = 4
PLANE = [(x, 0.5, z) for x in (0.02, 0.4, 0.97) for z in (0.0, 0.55, 0.9)]
SOLID = [(x, y, z) for x in (0.05, 0.9) for y in (0.03, 0.6) for z in (0.0, 0.7)]
ANGLE = [0.0, 0.13, 0.5, 0.8]
HELD = [((), ()), ((1.0,), ((0.5, 0.0, 0.4),)), ((0.5, 1.0), ((0.0, 0.0, 0.0), (2.5, 0.0, 1.5)))]
POLY = [[(0, 0), (4, 0), (4, 3), (0, 3)], [(0, 0), (5, 1), (4, 4), (1, 3)],
        [(-2, -1), (3, -1), (2, 2), (-1, 2)], [(0, 0), (4, 4), (8, 0), (4, -4)],
        [(0, 3), (4, 3), (4, 0), (0, 0)], [(1, 0), (6, 0), (5, 4), (0, 4)]]


# requests with room for all only if the first are well placed
JAM = [([1.0, 1.0], 1.8), ([1.0, 1.0, 1.0], 2.6), ([0.5, 1.5], 1.9)]
FINE = [(x, 0.5, z) for x in (0.0, 0.3, 0.5, 0.6, 1.0) for z in (0.0, 0.45, 0.5, 0.7, 0.99)]


class Prune(BaseException):
    pass


class Draws:
    """Scripted random numbers: the first `depth` calls choose from the grid by
    the given digits, later ones follow a fixed sequence."""

    def __init__(self, digits, depth, points, limit=4000):
        self.digits, self.depth, self.points, self.limit = digits, depth, points, limit
        self.made, self.bases, self.n = [], [], 0

    def call(self, k):
        i = self.n
        self.n += 1
        if self.n > self.limit:
            raise Prune()
        if i < self.depth:
            grid = self.points if k == 3 else [(a,) for a in ANGLE]
            d = self.digits[i] if i < len(self.digits) else 0
            self.made.append(d)
            self.bases.append(len(grid))
            return np.array(grid[d][:k] if k in (1, 3) else [0.5] * k)
        v = [((i + 1) * a) % 1.0 for a in (0.7548776662, 0.5698402910, 0.6180339887)]
        return np.array((v * (k // 3 + 1))[:k])

    def shaped(self, *shape):
        if not shape:
            return float(self.call(1)[0])
        n = int(np.prod(shape))
        return self.call(n).reshape(shape)

    def size(self, size=None):
        return self.shaped() if size is None else self.shaped(*np.atleast_1d(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        if size is None and (low.ndim or high.ndim):
            size = np.broadcast(low, high).shape
        return low + (high - low) * self.size(size)

    rand = shaped
    random = random_sample = ranf = sample = size


def drawn(fn, depth, points, limit=4000):
    """Run fn under every sequence of draws; yields (draws, result)."""
    digits = []
    while True:
        d = Draws(digits, depth, points, limit)
        names = ("rand", "random", "random_sample", "ranf", "sample", "uniform")
        old = {n: getattr(np.random, n) for n in names}
        rng = np.random.default_rng
        try:
            for n in names:
                setattr(np.random, n, getattr(d, n))
            np.random.default_rng = lambda *a: d
            try:
                with repo.quiet():
                    r = fn()
            except Prune:
                r = None
        finally:
            for n in names:
                setattr(np.random, n, old[n])
            np.random.default_rng = rng
        yield d, r
        made, bases = d.made, d.bases
        k = len(made) - 1
        while k >= 0 and made[k] + 1 == bases[k]:
            k -= 1
        if k < 0:
            return
        digits = made[:k] + [made[k] + 1]


def setup():
    repo.load([1, 1, 0.1, 1])


def cases(tier):
    x = 0 if tier == "quick" else 1
    out = []
    for k, flat, h in itertools.product((1, 2, 3, 4), (True, False), range(3)):
        for sizes in ([1.0] * k, [0.5 + 0.4 * i for i in range(k)]):
            if k == 1 and sizes[0] != 1.0:
                continue
            out += [["spheres", sizes, flat, h, 3 + x, f] for f in range(9 if flat else 8)]
    for k, flat, h, th, ph, per in itertools.product(
            (1, 2, 3), (True, False), range(3), ("r", 0.7), ("r", 0.0), (False, True)):
        if flat and ph == "r":
            continue      # only angle 0 keeps the beads in the plane
        if tier == "quick" and (h == 1) != (k == 1 and th == "r"):
            continue
        sizes = [0.1] * k if k < 3 else [0.1, 0.3, 0.2]
        for dx in (1.0, 2.0) if x or k < 3 else (1.0,):
            out += [["dumbbells", sizes, dx, th, ph, flat, h, per, 4 + x, f]
                    for f in range(9 if flat else 8)]
    for a, dx in ((0.05, 1.0), (0.6, 2.0), (0.45, 1.5), (0.45, 2.0)):
        for th, flat in itertools.product(("r", 1.2), (True, False)):
            out += [["dumbbells", [a] * 2, dx, th, 0.0, flat, 0, True, 4 + x, f]
                    for f in range(9 if flat else 8)]
    for p, k, h in itertools.product(range(len(POLY)), (1, 2), range(3)):
        for sizes in ([0.1] * k, [0.6, 0.1][:k]):
            out += [["quad", p, sizes, h, 3 + x, f] for f in range(9)]
    out += [["jam", sizes, side, f] for sizes, side in JAM for f in range(len(FINE))]
    out += [["polygon", p] for p in range(len(POLY))]
    out += [["cubic", s] for s in (8, 4.0, 10, 0.5)]
    return out


def held(h):
    a, x = HELD[h]
    return np.array(a, float), np.array(x, float).reshape(-1, 3)


def apart(x, a, y, b, out, key, images=((0, 0, 0),), own=False):
    """No two beads overlap; own: x and y are the same list."""
    if len(x) == 0 or len(y) == 0:
        return
    r = x[:, None, None, :] - y[None, :, None, :] - np.asarray(images, float)[None, None]
    d = np.sqrt((r * r).sum(3)).min(2)
    g = d - np.add.outer(np.asarray(a, float), np.asarray(b, float)) * (1 - 1e-9)
    if own:
        g[np.tril_indices(len(x))] = 1
    if g.min() < 0:
        i, j = np.unravel_index(np.argmin(g), g.shape)
        out.fail(key, "%s and %s are %.6g apart, radii %g and %g" % (x[i], y[j], d[i, j], a[i], b[j]))


def inside(x, lo, hi, out, key):
    out.ok(bool(np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9)), key,
           "%s not in %s..%s" % (x.tolist(), lo, hi))


def check(case, out):
    if case[0] == "spheres":
        spheres(case, out)
    elif case[0] == "jam":
        jam(case, out)
    elif case[0] == "dumbbells":
        dumbbells(case, out)
    elif case[0] == "quad":
        quad(case, out)
    elif case[0] == "polygon":
        polygon(case, out)
    else:
        from setups.functions_positions import simple_cubic_8
        s = case[1]
        x, lo, hi = simple_cubic_8(s)
        out.state(case)
        out.edge()
        want = sorted(itertools.product((-s / 4, s / 4), repeat=3))
        out.close("cubic", np.array(sorted(map(tuple, x))), np.array(want), 1e-12, scale=s)
        out.close("cubic|box", np.array([lo, hi]), np.array([[-s / 2] * 3, [s / 2] * 3]), 1e-12, scale=s)
        out.trace()


def jam(case, out):
    """However the first spheres fall, all are placed in the end."""
    from setups.functions_positions import randomise_spheres
    _, sizes, side, first = case
    lo, hi = np.zeros(3), np.array([side, 0, side])
    pts = [FINE[first]]
    for d, r in drawn(lambda: randomise_spheres(list(lo), list(hi), np.array(sizes),
                                                np.array([]), np.empty([0, 3])),
                      1, pts, 400000):
        out.state(case)
        out.edge(d.n)
        if not out.ok(r is not None, "spheres|never placed",
                      "first at %s, %d draws made" % (pts[0], d.n)):
            continue
        out.trace()
        r = np.asarray(r, float)
        if out.ok(r.shape == (len(sizes), 3), "spheres|number", str(r.shape)):
            inside(r, lo, hi, out, "spheres|region")
            apart(r, sizes, r, sizes, out, "spheres|overlap", own=True)
        out.outcome(np.round(r, 6))


def explore(case, fn, depth, first, points, out):
    pts = [points[first]] + [p for i, p in enumerate(points) if i != first]
    n = 0
    for d, r in drawn(fn, depth, pts):
        if d.made and d.made[0] != 0:
            break          # another case explores that first draw
        n += 1
        out.state(case, tuple(d.made))
        out.edge(d.n)
        if r is None:
            out.count("not placed within 4000 draws")
            continue
        out.trace()
        yield d, r
    out.count("sequences of draws", n)


def spheres(case, out):
    from setups.functions_positions import randomise_spheres
    _, sizes, flat, h, depth, first = case
    ca, cx = held(h)
    lo = np.array([-3.0, 0.0 if flat else -2.5, -3.0])
    hi = np.array([4.0, 0.0 if flat else 2.5, 3.5])
    keep = cx.copy()
    k = len(sizes)
    for d, r in explore(case, lambda: randomise_spheres(list(lo), list(hi), np.array(sizes), ca, cx),
                        depth, first, PLANE if flat else SOLID, out):
        r = np.asarray(r, float)
        if not out.ok(r.shape == (k, 3), "spheres|number", "%s for %d requested" % (r.shape, k)):
            continue
        inside(r, lo, hi, out, "spheres|region")
        apart(r, sizes, r, sizes, out, "spheres|overlap", own=True)
        apart(r, sizes, keep, ca, out, "spheres|overlap with existing")
        out.ok(np.array_equal(cx, keep), "spheres|existing moved")
        out.outcome(np.round(r, 6))


def dumbbells(case, out):
    import setups.functions_positions as fp
    _, sizes, dx, th, ph, flat, h, per, depth, first = case
    ca, cx = held(h)
    lo = np.array([-2.0, 0.0 if flat else -2.0, -2.0])
    hi = np.array([2.0, 0.0 if flat else 2.0, 2.0])
    f = fp.randomise_dumbbells_periodic if per else fp.randomise_dumbbells
    keep = cx.copy()
    m = len(sizes)
    key = "periodic dumbbells" if per else "dumbbells"
    img = [(0, 0, 0)]
    if per:
        L = hi - lo
        ry = (0,) if flat else (-2, -1, 0, 1, 2)
        img = [(i * L[0], j * L[1], k * L[2]) for i, j, k in
               itertools.product(range(-2, 3), ry, range(-2, 3))]
    for d, r in explore(case, lambda: f(lo, hi, np.array(sizes), dx=dx, theta=th, phi=ph,
                                        current_sphere_sizes=ca, current_sphere_positions=cx),
                        depth, first, PLANE if flat else SOLID, out):
        x, e = (np.asarray(v, float) for v in r)
        if not out.ok(x.shape == (m, 3) and e.shape == (m, 3), key + "|number",
                      "%s, %s for %d requested" % (x.shape, e.shape, m)):
            continue
        out.close(key + "|length", np.linalg.norm(e, axis=1), np.full(m, dx), 1e-9, scale=dx)
        u = e / dx
        if th != "r":
            out.close(key + "|angle", u[:, 2], np.full(m, math.cos(th)), 1e-9, scale=1)
        if ph != "r":
            # phi: direction within the x-y plane
            out.close(key + "|angle", u[:, 0] * math.sin(ph) - u[:, 1] * math.cos(ph), np.zeros(m),
                      1e-9, scale=1)
        b = [np.concatenate([x - e / 2, x + e / 2])]
        a = list(sizes) + list(sizes)
        if per:
            inside(x, lo, hi, out, key + "|region")
        else:
            inside(b[0], lo, hi, out, key + "|region")
        for i in range(m):
            for j in range(i):
                q, p = b[0][[i, i + m]], b[0][[j, j + m]]
                apart(q, [sizes[i]] * 2, p, [sizes[j]] * 2, out, key + "|overlap", img)
        apart(b[0], a, keep, ca, out, key + "|overlap with existing", img)
        out.ok(np.array_equal(cx, keep), key + "|existing moved")
        out.outcome(np.round(x, 6), np.round(e, 6))


def area2(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def within(x, z, poly):
    """Signed distance-like: positive inside the convex polygon."""
    s = [area2(poly[i], poly[(i + 1) % len(poly)], (x, z)) for i in range(len(poly))]
    return max(min(s), min(-v for v in s))


def quad(case, out):
    from setups.functions_positions import randomise_beads_inside_quadrilateral as f
    _, p, sizes, h, depth, first = case
    ca, cx = held(h)
    rad = 0.4
    poly = POLY[p]
    m = len(sizes)
    for d, r in explore(case, lambda: f(np.array(poly, float), np.array(sizes), cx, rad), depth,
                        first, PLANE, out):
        x, e = (np.asarray(v, float) for v in r)
        if not out.ok(x.shape == (m, 3) and e.shape == (m, 3), "quadrilateral|number",
                      "%s, %s for %d requested" % (x.shape, e.shape, m)):
            continue
        b = np.concatenate([x - e / 2, x + e / 2])
        a = list(sizes) * 2
        for v in b:
            out.ok(within(v[0], v[2], poly) >= -1e-9 and v[1] == 0, "quadrilateral|region",
                   "%s not in %s" % (v, poly))
        apart(b, a, b, a, out, "quadrilateral|overlap", own=True)
        apart(b, a, cx, [rad] * len(cx), out, "quadrilateral|overlap with existing")
        out.outcome(np.round(x, 6), np.round(e, 6))


def polygon(case, out):
    from setups.functions_positions import point_inside_polygon
    poly = POLY[case[1]]
    for i, j in itertools.product(range(-60, 200), range(-110, 110)):
        x, z = i / 20 + 0.013, j / 25 + 0.0171
        w = within(x, z, poly)
        if abs(w) < 1e-6:
            continue
        out.state(case, i, j)
        out.edge()
        out.ok(bool(point_inside_polygon(x, z, np.array(poly, float))) == (w > 0), "polygon",
               "(%g, %g) in %s" % (x, z, poly))
    out.trace()
