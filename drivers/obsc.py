"""Asks real obscurations which points they contain, in every way there is."""
from vlib.tree import *
scen, log, argv = args()
LEAF = {'x': '0', 'y': '0', 'th': '0', 'c': '1', 's': '0'}


def star(rng, n, sc):
    th = np.sort(rng.uniform(0, 2 * np.pi, n) * .2 + np.arange(n) * 2 * np.pi / n * .8 + rng.uniform(0, 6))
    r = rng.uniform(.3, 1.6, n) * sc
    return r * np.cos(th), r * np.sin(th)


def polygon(q, rng, sc, exact):
    """Simple polygons: the vertices, in order, and whether all edges are parallel to the axes."""
    sh, n = q['shape'], q['nv']
    if sh == 'long':
        n = 1040
        th = np.arange(n) * 2 * np.pi / n
        r = np.full(n, 1.0)
        a, b = int(rng.integers(10, 200)), n - int(rng.integers(10, 200))
        r[a:b] = rng.uniform(.5, 2)
        return r * np.cos(th) * sc, r * np.sin(th) * sc
    if sh == 'stairs':
        k = max(n // 2, 2)
        h = np.cumsum(rng.integers(1, 3, k)) / 4
        w = np.cumsum(rng.integers(1, 3, k))[::-1] / 4
        xs, ys, y = [0.0], [0.0], 0.0
        for a, b in zip(w, h):
            xs += [a, a]; ys += [y, b]; y = b
        xs.append(0.0); ys.append(y)
        x, y = np.array(xs) - .5, np.array(ys) - .5
    elif sh == 'comb':
        k = n
        xs, ys = [0.0], [0.0]
        for j in range(k):
            xs += [j, j + .5]; ys += [1.0 + .25 * float(rng.integers(0, 3)), .25]
        xs.append(xs[-1]); ys.append(0.0)
        x, y = (np.array(xs) - k / 2) / 2, np.array(ys) - .5
    elif sh == 'convex':
        th = np.sort(rng.uniform(0, 2 * np.pi, n)) if n > 4 else np.arange(n) * 2 * np.pi / n + rng.uniform(0, 6)
        x, y = np.cos(th) * rng.uniform(.5, 1.5), np.sin(th) * rng.uniform(.5, 1.5)
    else: x, y = star(rng, n, 1.0)
    if exact: x, y = np.round(x * 8) / 4, np.round(y * 8) / 4
    else: x, y = x * sc, y * sc
    if sh not in ('stairs', 'comb') and exact:       # rounding must not fold it: keep distinct vertices, else a triangle
        from itertools import combinations
        def cr(a, b, c): return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])
        P = list(zip(x, y))
        def meet(a, b, c, d): return np.sign(cr(a, b, c)) * np.sign(cr(a, b, d)) <= 0 and np.sign(cr(c, d, a)) * np.sign(cr(c, d, b)) <= 0
        m = len(P)
        bad = len(set(P)) < m or any(meet(P[i], P[(i+1) % m], P[j], P[(j+1) % m]) for i, j in combinations(range(m), 2)
                                     if j != i + 1 and (j + 1) % m != i) or any(cr(P[i], P[(i+1) % m], P[(i+2) % m]) == 0 for i in range(m))
        if bad: x, y = np.array([-1., 2., .25]), np.array([-.75, 0., 1.5])
    if rng.integers(2): x, y = x[::-1], y[::-1]
    k = int(rng.integers(len(x)))
    x, y = np.roll(x, k), np.roll(y, k)
    if sh == 'closed': x, y = np.append(x, x[0]), np.append(y, y[0])
    return x, y


def figure(q, rng, e, marks):
    """Returns (obscuration, record); marks collects points worth asking about."""
    sc, exact = e['sc'], e['exact']
    k = q['k']
    if k in ('not', 'or', 'and'):
        sub = [figure(i, rng, e, marks) for i in q['items']]
        if e['share'] and len(sub) > 1 and q['items'][0]['shape'] != 'long': sub[1] = sub[0]
        if k == 'not': return batoid.ObscNegation(sub[0][0]), {'k': 'not', 'items': [sub[0][1]]}
        cls = batoid.ObscUnion if k == 'or' else batoid.ObscIntersection
        a = [s[0] for s in sub]
        o = cls(*a) if e['how'] == 'args' else cls(a) if e['how'] == 'list' else cls(tuple(a))
        return o, {'k': k, 'items': [s[1] for s in sub]}
    L = lambda lo, hi: float(rng.integers(int(lo * 4), int(hi * 4) + 1)) / 4 if exact else float(rng.uniform(lo, hi)) * sc
    x, y = {'origin': (0.0, 0.0), 'x': (L(-1, 1), 0.0), 'any': (L(-1, 1), L(-1, 1))}[q['at']]
    th = {'none': 0.0, 'quarter': float(rng.choice([1, 2, -1, 3]) * np.pi / 2), 'any': float(rng.uniform(-7, 7))}[q['turn']]
    at = (x, y) if (x or y or rng.integers(2)) else ()
    rec = dict(LEAF, k=k, x=num(x), y=num(y), items=[])
    if k == 'circ':
        r = L(.25, 2)
        marks += [(x + r, y), (x, y - r), (x - .6 * r, y + .8 * r), (x + r * (1 - 1e-9), y), (x, y + r * (1 + 1e-9))]
        if exact: marks += [(x + .75, y - 1.0), (x - 1.25, y), (x + 1.5, y + 2.0)]
        return batoid.ObscCircle(r, *at), dict(rec, r=num(r))
    if k == 'ann':
        ri = L(.25, 1); ro = ri + L(.25, 1)
        marks += [(x + ri, y), (x, y - ro), (x - ri * (1 - 1e-9), y), (x + (ri + ro) / 2, y), (x + .6 * ri, y - .8 * ri), (x, y + ri), (x - ro, y)]
        return batoid.ObscAnnulus(ri, ro, *at), dict(rec, ri=num(ri), ro=num(ro))
    if k == 'rect':
        w, h = L(.25, 3), L(.25, 3)
        c, s = np.cos(th), np.sin(th)
        for a, b in [(.5, 0), (-.5, .2), (0, .5), (.3, -.5), (.5, .5), (.49, .49), (-.51, 0), (.49, -.49), (-.49, .49), (.2, .51)]:
            marks.append((x + a * w * c - b * h * s, y + a * w * s + b * h * c))
        o = batoid.ObscRectangle(w, h, x, y, th) if rng.integers(2) else batoid.ObscRectangle(w, h, x=x, y=y, theta=th)
        return o, dict(rec, w=num(w), h=num(h), th=num(th))
    if k == 'ray':
        w = L(.25, 1.5)
        c, s = np.cos(th), np.sin(th)
        for a, b in [(0, 0), (.01, .49), (-.01, .1), (9, .49), (9, -.51), (50, .3), (3, .5), (0, .3), (-9, 0), (2, -.49)]:
            marks.append((x + a * w * c - b * w * s, y + a * w * s + b * w * c))
        return batoid.ObscRay(w, th, *at), dict(rec, w=num(w), th=num(th))
    px, py = polygon(q, rng, sc, exact)
    m = len(px)
    for i in range(m) if m < 100 else rng.integers(0, m, 5):
        j = (i + 1) % m
        mx, my = (px[i] + px[j]) / 2, (py[i] + py[j]) / 2
        marks += [(px[i], py[i]), (mx, my), (mx * 1.01 + .001 * sc, my * 1.01), (mx * .98, my * .98),
                  (px[i] * .5, py[i]), (px[i] * 1.5 + .1 * sc, py[i]), (px[i] - 3 * sc, py[i])]          # level with a vertex
    o = batoid.ObscPolygon(list(px), list(py)) if rng.integers(2) else batoid.ObscPolygon(px, py)
    return o, dict(rec, xs=nums(px), ys=nums(py))


def ask(f, rng, P):
    """The same points asked for in many layouts."""
    x, y = P[:, 0].copy(), P[:, 1].copy()
    n = len(P)
    out = {'scalar': [bool(f(float(a), float(b))) for a, b in P], 'array': [bool(v) for v in f(x, y)]}
    X, Y = np.asfortranarray(np.resize(x, (2, n // 2))), np.resize(y, (2, n // 2))
    r = f(X, Y)
    out['two'] = [bool(v) for v in np.asarray(r).ravel()] if r.shape == X.shape else []
    out['rev'] = [bool(v) for v in f(x[::-1], y[::-1])][::-1]
    ws = np.empty((n, 3)); ws[:, 1] = x
    out['strided'] = [bool(v) for v in f(ws[:, 1], np.stack([y, y])[1])]
    out['bulk'] = [bool(v) for v in bulk(f, rng, out['array'], x, y)]
    return out


for q in scenarios(scen):
    rng = np.random.default_rng([SEED, q['id'], 13])
    log.current(q)
    exact = q['exact'] and not any(i['shape'] == 'long' for i in q['o']['items'])
    sc = 1.0 if exact else float(q['scale'])
    marks = []
    o, rec = figure(q['o'], rng, {'sc': sc, 'exact': exact, 'how': q['how'], 'share': q['share']}, marks)
    pts = rng.uniform(-2.2, 2.2, (10, 2)) * sc
    if exact: pts = np.round(pts * 4) / 4
    m = np.array(marks)
    if exact: m = np.concatenate([m[np.all(m * 64 == np.round(m * 64), axis=1)], np.round(m * 4) / 4])
    if len(m) > 30: m = m[rng.permutation(len(m))[:30]]
    P = np.concatenate([pts, m])
    if len(P) % 2: P = P[:-1]
    e = {'id': q['id'], 'tag': '', 'o': rec, 'exact': exact, 'pts': [nums(p) for p in P], 'exc': '', 'grid': [], 'turned': []}
    try:
        e['got'] = ask(o.contains, rng, P)
        if rec['k'] == 'poly':
            gx, gy = np.unique(P[:12, 0]), P[:8, 1].copy()
            if rng.integers(2): gx = np.linspace(gx[0], gx[-1], 9)
            form = lambda v: (v, list(v), tuple(v), np.repeat(v, 2)[::2], np.stack([v, v]).T[:, 0],
                              v.astype(int) if np.all(v == np.round(v)) else v, v.astype(object))[int(rng.integers(7))]
            if rng.integers(4) == 0: gx, gy = np.unique(np.round(gx)), np.round(gy)
            g = o.containsGrid(form(gx), form(gy))
            if exact:                              # a grid of thousands of points, of which these are a few
                fx = np.unique(np.concatenate([gx, np.linspace(gx[0], gx[-1], 700)]))
                fy = np.concatenate([gy, rng.uniform(gy.min(), gy.max(), 40)])
                big = o.containsGrid(fx, fy)[:len(gy), np.searchsorted(fx, gx)]
            else: big = g
            e['grid'] = [{'xs': nums(gx), 'ys': nums(gy), 'in': [[bool(v) for v in r] for r in big]}, {'xs': nums(gx), 'ys': nums(gy), 'in': [[bool(v) for v in r] for r in g]}]
            k = int(rng.integers(len(rec['xs'])))
            for z in (np.roll(np.arange(len(o.xs)), k), np.arange(len(o.xs))[::-1]):
                t = batoid.ObscPolygon(o.xs[z], o.ys[z]) if q['o']['shape'] != 'closed' else o
                e['turned'].append([bool(v) for v in t.contains(P[:, 0], P[:, 1])])
        # rays
        n = len(P)
        vig, fail = rng.integers(0, 4, n) == 0, np.zeros(n, bool)
        fail[0] = vig[0] = True
        cs = G if q['rays'] == 'own' or (q['via'] == 'optic' and (exact or sc > 1)) else batoid.CoordSys(rng.normal(size=3), rot_random(rng))
        rv = batoid.RayVector(P[:, 0], P[:, 1], rng.normal(size=n), *rng.normal(size=(3, n)), t=rng.normal(size=n), wavelength=rng.uniform(4e-7, 9e-7, n),
                              flux=rng.uniform(0, 2, n), vignetted=vig, failed=fail, coordSys=cs)
        e['a'] = rays(rv)
        if q['via'] == 'fn': out = batoid.obscure(o, rv)
        elif q['via'] == 'meth':
            out = o.obscure(rv)
        else:                                       # the rays lie on the plane, so only the obscuration acts
            rv = batoid.RayVector(rv.x, rv.y, np.zeros(n), rv.vx, rv.vy, np.where(rv.vz < 0, -1.0, 1.0), rv.t, rv.wavelength, rv.flux, vig, fail, cs)
            e['a'] = rays(rv)
            out = batoid.Detector(batoid.Plane(), name='D', coordSys=cs, obscuration=o).trace(rv)
        e['b'] = rays(out)
    except Exception as ex: e['exc'] = exc_text(ex)
    log.put(e)
log.close()
