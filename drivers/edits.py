"""Replays the operations of EditGen on real systems and logs every system as a value."""
from vlib.tree import *
scen, log, argv = args()
what = argv[0]
KIND = {'CompoundOptic': 'C', 'Lens': 'L', 'Mirror': 'M', 'RefractiveInterface': 'R', 'Baffle': 'B', 'Detector': 'D',
        'OPDScreen': 'S', 'Interface': 'I'}
DERIVED = {'items', 'coordSys', 'stopSurface', 'surface', 'itemDict', '_names', 'R_inner', 'R_outer', 'path', 'name', 'skip'}


def fp(v):
    if isinstance(v, np.ndarray): return 'array%s%s' % (v.shape, v.tolist())
    return repr(v)


def snap(o):
    """The value of an optic, as a node of module OpticEdit."""
    attrs = [[k, fp(v)] for k, v in sorted(o.__dict__.items()) if not (k in DERIVED or k.startswith('_') or hasattr(type(o), k))]
    st = getattr(o, 'stopSurface', None)
    if st is not None:
        attrs.append(['stop', '%s %r %r' % (type(st).__name__, st.surface, st.name)])
    inner = isinstance(o, batoid.CompoundOptic)
    if not inner:
        attrs += [['R_outer', fp(o.R_outer)], ['R_inner', fp(o.R_inner)]]
    return {'n': o.name, 'k': KIND[type(o).__name__], 'skip': bool(o.skip), 'items': [snap(c) for c in o.items] if inner else [],
            'f': frame(o.coordSys), 'stop': [] if st is None else [frame(st.coordSys)],
            's': '' if inner else repr(o.surface), 'a': attrs, 'path': list(o.path)}




uid = [0]
def extra(rng):
    def f(t):
        uid[0] += 1
        e = {'uid': uid[0]}
        k = int(rng.integers(0, 4))
        if k == 0: e['stopSurface'] = batoid.Interface(batoid.Plane(), name='stop', coordSys=batoid.CoordSys(rng.normal(size=3), rot_random(rng)))
        if k == 1: e['note'] = 'n%d' % uid[0]; e['arr'] = rng.normal(size=2)
        if k == 2: e['pupilSize'] = 8.4; e['backDist'] = 13.0
        if k == 3 and t['k'] == 'C' and f.B.leaf:      # the stop is one of the system's own interfaces
            own = list(f.B.leaf.values())
            e['stopSurface'] = own[int(rng.integers(len(own)))]
        if t['k'] in 'RBD' and rng.integers(0, 3) == 0:
            e['forwardCoating'] = batoid.SimpleCoating(.1, .9); e['reverseCoating'] = batoid.SimpleCoating(.2, .8)
        if t['k'] == 'M' and rng.integers(0, 3) == 0:
            e['forwardCoating'] = batoid.SimpleCoating(.95, 0.0)
        return e
    return f




def zern(rng):
    ro = float(rng.uniform(1.5, 3))
    return batoid.Zernike(rng.normal(size=int(rng.integers(2, 9))) * 1e-3, R_outer=ro, R_inner=float(rng.choice([0, .3])) * ro,
                          **(dict(x_origin=float(rng.normal() * .2), y_origin=float(rng.normal() * .2)) if rng.integers(2) else {}))


def perturbation(rng, old):
    """A surface to add: of the kind of the old one as often as not, a small one usually."""
    k = int(rng.integers(0, 4))
    R = float(rng.choice([-1, 1]) * rng.uniform(20, 60))
    if k == 0: return surface(rng)
    if k == 1: return zern(rng)
    if k == 2: return old
    if isinstance(old, batoid.Plane): return batoid.Plane()
    if isinstance(old, batoid.Sphere): return batoid.Sphere(R)
    if isinstance(old, batoid.Paraboloid): return batoid.Paraboloid(R)
    if isinstance(old, batoid.Asphere): return batoid.Asphere(R, float(rng.uniform(-2, .5)), list(rng.normal(size=3) * [1e-4, 1e-5, 1e-6]))
    if isinstance(old, batoid.Quadric): return batoid.Quadric(R, float(rng.uniform(-2, .5)))
    if isinstance(old, batoid.Sum): return batoid.Sum([zern(rng), zern(rng)])
    return zern(rng)


def perturb_args(rng, op):
    a = {'R': np.eye(3), 'd': np.zeros(3), 'c': np.zeros(3), 'cf': None, 'cgiven': False}
    if op in ('sg', 'sl'):
        a['d'] = rng.normal(size=3)
    else:
        a['R'] = rot_random(rng)
        if rng.integers(0, 3):
            a['c'], a['cgiven'] = rng.normal(size=3), True
        if rng.integers(0, 2):
            a['cf'] = batoid.CoordSys(rng.normal(size=3), rot_random(rng))
    return a


def form(rng, v):
    """The same numbers as a list, tuple or array."""
    v = np.asarray(v)
    return [v, v.tolist(), tuple(v.tolist())][int(rng.integers(0, 3))]


def apply(rng, opt, o, B):
    """Returns the new optic and what the record says about the operation."""
    op, key = o['op'], '.'.join(o['key'])
    rec = {'op': op, 'key': o['key'], 'R': [], 'd': [], 'c': [], 'cf': [], 'item': 0, 'surface': '', 'more': True, 'back': True, 'direct': True}
    if op in ('sg', 'sl', 'rg', 'rl'):
        a = perturb_args(rng, op)
        rec.update(R=mat(a['R']), d=nums(a['d']), c=nums(a['c']), cf=[frame(a['cf'])] if a['cf'] is not None else [])
        kw = {}
        if a['cgiven']: kw['rotCenter'] = form(rng, a['c'])
        if a['cf'] is not None: kw['coordSys'] = a['cf']
        root = opt[key] is opt
        if root and rng.integers(0, 2):
            new = {'sg': lambda: opt.withGlobalShift(form(rng, a['d'])), 'sl': lambda: opt.withLocalShift(a['d']),
                   'rg': lambda: opt.withGlobalRotation(a['R'], **kw), 'rl': lambda: opt.withLocalRotation(a['R'], **kw)}[op]()
        elif op == 'rg':
            new = opt.withGlobalRotation(a['R'], **kw)
        else:
            new = {'sg': lambda: opt.withGloballyShiftedOptic(key, form(rng, a['d'])), 'sl': lambda: opt.withLocallyShiftedOptic(key, a['d']),
                   'rl': lambda: opt.withLocallyRotatedOptic(key, a['R'], **kw)}[op]()
    elif op == 'ins':
        it = B.build(o['item'])
        rec['item'] = snap(it)
        new = opt.withInsertedOptic(before=key, item=it)
        full = [k for k, v in new.itemDict.items() if v is it]
        b = new.withRemovedOptic(full[0]) if full else None
        rec['back'] = b is not None and b == opt and snap(b) == snap(opt)
    elif op == 'rem':
        it = opt[key]
        new = opt.withRemovedOptic(key)
        sib = sibling(opt, it)
        if sib is not None:
            full = [k for k, v in new.itemDict.items() if v is sib]
            b = new.withInsertedOptic(full[0], it) if full else None
            rec['back'] = b is not None and b == opt and snap(b) == snap(opt)
    elif op == 'surf':
        s = surface(rng)
        rec['surface'] = repr(s)
        new = opt.withSurface(key, s)
        rec['direct'] = snap(opt[key].withSurface(s)) == snap(new[key])
    elif op == 'pert':
        old = opt[key].surface
        s = perturbation(rng, old)
        new = opt.withPerturbedSurface(key, s)
        sn = new[key].surface
        rec['direct'] = snap(opt[key].withPerturbedSurface(s)) == snap(new[key])
        rec['surface'] = repr(sn)
        x, y = rng.uniform(-1, 1, 6), rng.uniform(-1, 1, 6)
        rec['sag'] = [nums(old.sag(x, y)), nums(s.sag(x, y)), nums(sn.sag(x, y))]
    return new, rec


def sibling(opt, it):
    """The part following it in its parent."""
    for v in opt.itemDict.values():
        if isinstance(v, batoid.CompoundOptic):
            for j, c in enumerate(v.items[:-1]):
                if c is it: return v.items[j + 1]
    return None


def bad(opt, key, rng):
    """A name that fits nothing must be refused by everything."""
    calls = [lambda: opt.withGloballyShiftedOptic(key, [0, 0, 1]), lambda: opt.withLocallyShiftedOptic(key, [0, 0, 1]),
             lambda: opt.withLocallyRotatedOptic(key, np.eye(3)), lambda: opt.withSurface(key, batoid.Plane()),
             lambda: opt.withPerturbedSurface(key, batoid.Plane()), lambda: opt.withRemovedOptic(key),
             lambda: opt.withInsertedOptic(before=key, item=batoid.Baffle(batoid.Plane(), name='bb')), lambda: opt[key]]
    n = 0
    for c in calls:
        try: c()
        except Exception: n += 1
    return n == len(calls)


def warm(opt, rng):
    """Read-only use that must not show in later results."""
    k = int(rng.integers(0, 4))
    if k == 0: opt._names; opt.itemDict
    if k == 1: [getattr(v, 'R_outer', None) for v in opt.itemDict.values()]
    if k == 2: hash(opt); repr(opt)


def start(s, rng):
    x = extra(rng)
    x.B = B = Builder(rng, extra=x)
    if s['yaml']:
        return batoid.Optic.fromYaml(os.path.join(batoid.datadir, s['yaml'])), B
    return B.build(s['tree']), B


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, s['id'], 10])
    log.current(s)
    opt, B = start(s, rng)
    history = [(opt, snap(opt))]
    warm(opt, rng)
    recs = []
    for o in s['ops']:
        if o['op'] == 'bad':
            rec = {'op': 'bad', 'key': o['key'], 'exc': '', 'refused': bad(opt, '.'.join(o['key']), rng)}
            recs.append(rec)
            continue
        try:
            new, rec = apply(rng, opt, o, B)
        except Exception as ex:
            recs.append({'op': o['op'], 'key': o['key'], 'exc': exc_text(ex)})
            break
        rec['exc'] = ''
        warm(new, rng)
        rec['before'], rec['after'] = history[-1][1], snap(new)
        rec['own'] = new is not opt
        recs.append(rec)
        opt = new
        history.append((opt, rec['after']))
    if what != 'names':
        log.put({'k': 'ops', 'id': s['id'], 'ev': recs, 'frozen': all(snap(a) == b for a, b in history)})
        if what == 'edit' and not any(r['exc'] for r in recs):
            # tracing the edited system is tracing its interfaces
            t = snap(opt)
            addr = {}
            def walk(o, a):
                if isinstance(o, batoid.CompoundOptic):
                    for j, c in enumerate(o.items): walk(c, a + [j + 1])
                else: addr[json.dumps(a)] = o
            walk(opt, [])
            vis = []
            def visits(o):
                if isinstance(o, batoid.CompoundOptic):
                    for c in o.items:
                        if not c.skip: visits(c)
                else: vis.append(o)
            visits(opt)
            rv0 = bundle(rng, 8)
            rv = rv0.copy()
            for o in vis: own(o, rv, False)
            rec = {'k': 'tr', 'id': s['id'], 'tree': t, 'visits': [o.name for o in vis], 'want': rays(rv), 'exc': ''}
            try: rec['got'] = rays(opt.trace(rv0.copy()))
            except Exception as ex: rec['exc'] = exc_text(ex)
            log.put(rec)
    else:
        # addresses of the parts, by identity
        def addr(o, a, out):
            out.append((o, a))
            if isinstance(o, batoid.CompoundOptic):
                for j, c in enumerate(o.items): addr(c, a + [j + 1], out)
            return out
        parts = addr(opt, [], [])
        find = lambda v: next((a for o, a in parts if o is v), [-1])
        got = []
        for key in s['tries']:
            try: got.append(find(opt['.'.join(key)]))
            except ValueError: got.append([0])
            except Exception as ex: got.append(['wrong exception: ' + exc_text(ex)])
        rec = {'k': 'names', 'id': s['id'], 'tree': snap(opt), 'tries': s['tries'], 'got': got,
               'dict': [[k.split('.'), find(v)] for k, v in opt.itemDict.items()], 'exc': next((r['exc'] for r in recs if r['exc']), '')}
        log.put(rec)
log.close()
