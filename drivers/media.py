"""Evaluates real media at wavelengths given in every form."""
import copy, os, pickle, tempfile
from vlib.drv import *
scen, log, argv = args()


def scalar(x, how):
    if how in ('int', 'npint') and x == int(x): return int(x) if how == 'int' else np.int64(x)
    if how == 'np64': return np.float64(x)
    if how == 'np32' and float(np.float32(x)) == x: return np.float32(x)
    return x


def seq(xs, how):
    if how == 'tuple': return tuple(xs)
    if how == 'array': return np.array(xs)
    if how == 'strided': return np.repeat(np.array(xs), 3)[::3]
    if how == 'f32' and all(float(np.float32(x)) == x for x in xs): return np.array(xs, dtype=np.float32)
    if how == 'intarray' and all(x == int(x) for x in xs): return np.array(xs, dtype=int)
    return list(xs)


def build(s, rng):
    """(medium, record, interesting wavelengths, handed-over arrays)"""
    k = s['k']
    if k == 'const':
        n = float(rng.choice([1.0, 2.0, 1.5, round(float(rng.uniform(1, 3)), 4)]))
        return batoid.ConstMedium(scalar(n, s['num'])), {'k': k, 'p': [num(n)]}, [], []
    if k == 'table':
        ints = s['num'] in ('int', 'npint') or s['seq'] in ('intarray', 'f32')
        if ints:
            w = [float(x) for x in np.cumsum(rng.integers(1, 4, s['size']))]
            n = [float(x) for x in rng.integers(1, 5, s['size'])]
        else:
            w = [float(x) for x in np.sort(rng.uniform(3e-7, 1.2e-6, s['size']))]
            n = [float(x) for x in rng.uniform(1, 2, s['size'])]
        if s['how'] == 'file':
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'glass.txt')
                open(f, 'w').write('# a comment\n' + ''.join('%r %r\n' % (a * 1e6, b) for a, b in zip(w, n)))
                m = batoid.TableMedium.fromTxt(f)
            w = [a * 1e6 * 1e-6 for a in w]
            return m, {'k': k, 'w': nums(w), 'n': nums(n)}, w, []
        a, b = seq(w, s['seq']), seq(n, s['seq'])
        m = batoid.TableMedium(wavelengths=a, ns=b) if s['how'] == 'kw' else batoid.TableMedium(a, b)
        return m, {'k': k, 'w': nums(w), 'n': nums(n)}, w, [a, b]
    if k in ('sellmeier', 'sumita'):
        if k == 'sellmeier': p = [float(rng.uniform(.3, 1.2)), float(rng.uniform(0, .6)), float(rng.uniform(0, 1)), float(rng.uniform(0, .02)), float(rng.uniform(0, .03)), float(rng.uniform(80, 120))]
        else: p = [float(rng.uniform(1.5, 3)), float(rng.normal() * .01), float(rng.normal() * .02), float(rng.normal() * 1e-3), float(rng.normal() * 1e-4), float(rng.normal() * 1e-5)]
        if rng.integers(3) == 0: p = [1.0, 1.0, 0.0, 0.0, 0.0, 100.0] if k == 'sellmeier' else [2.0, 0.0, 0.0, 0.0, 0.0, 0.0]
        names = ['B1', 'B2', 'B3', 'C1', 'C2', 'C3'] if k == 'sellmeier' else ['A0', 'A1', 'A2', 'A3', 'A4', 'A5']
        cls = batoid.SellmeierMedium if k == 'sellmeier' else batoid.SumitaMedium
        v = [scalar(x, s['num']) for x in p]
        a = seq(p, s['seq'])
        if s['how'] in ('args', 'file'): m, h = cls(*v), []
        elif s['how'] == 'seq': m, h = cls(a), [a]
        else:
            o = list(zip(names, v)); rng.shuffle(o)
            m, h = cls(**{str(x): y for x, y in zip([q[0] for q in o], [dict(zip(names, v))[q[0]] for q in o])}), []
        return m, {'k': k, 'p': nums(p)}, [], h
    full = [float(rng.choice([69.328, 101.325, 80.0, 50.0])), float(rng.choice([293.15, 273.15, 280.0, 260.0, 300.0])), float(rng.choice([1.067, 0.0, 1.0, 2.5]))]
    if s['num'] in ('int', 'npint', 'np32'): full = [float(round(x)) for x in full]
    v = [scalar(x, s['num']) for x in full]
    dflt = [69.328, 293.15, 1.067]
    if s['how'] == 'args':
        j = int(rng.integers(0, 4))
        return batoid.Air(*v[:j]), {'k': 'air', 'p': nums(full[:j] + dflt[j:])}, [], []
    if s['how'] == 'kw':
        use = [bool(x) for x in rng.integers(0, 2, 3)]
        return batoid.Air(**{n: x for n, x, u in zip(['pressure', 'temperature', 'h2o_pressure'], v, use) if u}), {'k': 'air', 'p': nums([x if u else d for x, d, u in zip(full, dflt, use)])}, [], []
    return batoid.Air(*v), {'k': 'air', 'p': nums(full)}, [], []


def waves(n, where, w, rng):
    """n wavelengths in metres."""
    if not w: return [float(x) for x in rng.uniform(3e-7, 1.2e-6, n)]
    a, b = w[0], w[-1]
    if where == 'nodes': return [float(rng.choice(w)) for _ in range(n)]
    if where == 'ends': return [float(rng.choice([a, b, np.nextafter(a, 0), np.nextafter(b, 9e9), np.nextafter(a, 9e9), np.nextafter(b, 0)])) for _ in range(n)]
    if where == 'outside': return [float(rng.choice([a * .9, b * 1.1, a * .5, b * 3])) for _ in range(n)]
    return [float(rng.uniform(a, b)) for _ in range(n)]


def ask(m, q, w, rng):
    sh = q['shape']
    if sh in ('scalar', 'npscalar', 'pyint', 'zero-d'):
        x = waves(1, q['where'], w, rng)[0]
        if sh == 'pyint' and w and w[0] >= 1: x = float(round(x))
        arg = {'scalar': lambda: x, 'npscalar': lambda: np.float64(x), 'pyint': lambda: int(x) if x == int(x) else x, 'zero-d': lambda: np.array(x)}[sh]()
        out = m.getN(arg)
        return {'lam': [num(x)], 'out': nums(out), 'shapein': [], 'shapeout': list(np.shape(out)), 'kept': True}
    if sh == 'bulk':
        x = np.array(waves(5, q['where'], w, rng))
        out = bulk(m.getN, rng, [m.getN(float(a)) for a in x], x)
        return {'lam': nums(x), 'out': nums(out), 'shapein': [5], 'shapeout': list(np.shape(out)), 'kept': True}
    n = {'empty': 0, 'matrix': 6, 'fortran': 6, 'broadcast': 4}.get(sh, 5)
    x = np.array(waves(n, q['where'], w, rng), dtype=float)
    if sh in ('matrix', 'fortran'): x = x.reshape(2, 3)
    if sh == 'fortran': x = np.asfortranarray(x)
    if sh == 'strided': x = np.repeat(x, 2)[::-2]
    if sh == 'f32': x = x.astype(np.float32)
    if sh == 'int' and w and w[0] >= 1: x = np.round(x).astype(int)
    if sh == 'broadcast': x = np.broadcast_to(x[0], (2, 2))
    before = np.array(x, dtype=float)
    out = m.getN(x)
    return {'lam': nums(before), 'out': nums(out), 'shapein': list(before.shape), 'shapeout': list(np.shape(out)), 'kept': bool(np.array_equal(before, np.array(x, dtype=float)))}


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, 1700, s['id']])
    rec = {'id': s['id'], 'exc': '', 'tag': '', 'ask': [], 'm': {}}
    log.current(s)
    try:
        if s['k'] == 'shipped':
            m = batoid.TableMedium.fromTxt(s['name'])
            rows = [l.split() for l in open(os.path.join('/repo/batoid/data/media', s['name'])) if l.strip() and not l.startswith('#')]
            w, n = [float(r[0]) * 1e-6 for r in rows], [float(r[1]) for r in rows]
            for lo in range(0, len(w), 40):
                j = slice(lo, lo + 41)
                if len(w[j]) < 2: continue
                x = np.array([(a + b) / 2 for a, b in zip(w[j], w[j][1:])][::5] + w[j][::7])
                log.put({'id': s['id'], 'exc': '', 'tag': '', 'm': {'k': 'table', 'w': nums(w[j]), 'n': nums(n[j])},
                         'ask': [{'lam': nums(x), 'out': nums(m.getN(x)), 'shapein': [len(x)], 'shapeout': [len(x)], 'kept': True}]})
            continue
        m, rec['m'], w, handed = build(s, rng)
        a = s['after']
        if a == 'pickle': m = pickle.loads(pickle.dumps(m))
        elif a == 'copy': m = copy.copy(m)
        elif a == 'deepcopy': m = copy.deepcopy(m)
        elif a == 'mutate':
            for h in handed:
                if isinstance(h, np.ndarray): h[...] = 7
                elif isinstance(h, list): h[:] = [7.0] * len(h)
        elif a == 'repeat': [m.getN(5e-7) for _ in range(3)]
        rec['ask'] = [ask(m, q, w, rng) for q in s['ask']]
    except Exception as e:
        rec['exc'] = exc_text(e)
        rec['trace'] = traceback.format_exc()[-600:]
    log.put(rec)
log.close()
