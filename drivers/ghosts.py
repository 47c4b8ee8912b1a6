"""Split-traces the systems of GhostsGen and replays every exit sequence by primitives."""
from vlib.tree import *
scen, log, argv = args()


def coats(t):
    """Explicit coatings; what interfaces have by default (no reflection) is left to them."""
    def side(r, tr, name):
        return {} if (r, tr) == ('0.0', '1.0') else {name: batoid.SimpleCoating(float(r), float(tr))}
    if t['k'] == 'D': return side(t['fr'], t['ft'], 'forwardCoating')       # only met travelling forward
    if t['k'] != 'R': return {}
    # rays travelling forward meet the reverse coating and the other way round
    return {**side(t['fr'], t['ft'], 'reverseCoating'), **side(t['rr'], t['rt'], 'forwardCoating')}


for s in scenarios(scen):
    if not s['chain']:
        continue
    rng = np.random.default_rng([SEED, s['id'], 4])
    log.current(s)
    B = Builder(rng, kinds=[0, 1, 2, 0, 3, 6], extra=coats, behind=s['chain'][-2]['n'] if s['chain'][-1]['k'] == 'D' else None)
    opt = B.build(s['tree'])
    n = s['n']
    rv0 = bundle(rng, n, n >= 6)
    rv0 = batoid.RayVector(rv0.x, rv0.y, rv0.z, rv0.vx, rv0.vy, rv0.vz, rv0.t, rv0.wavelength,
                           rng.choice([1.0, 2.0, .5, .75], n) if s['exact'] else rng.uniform(.3, 2, n), rv0.vignetted, rv0.failed, rv0.coordSys)
    rev = s['rev']
    exits = []
    for e in s['exits']:
        rv = rv0.copy()
        for v in e['steps']:
            o = B.leaf[v['n']]
            if v['act'] == 'go': own(o, rv, v['rev'])
            else: turn(o, rv)
        exits.append({'steps': e['steps'], 'rev': e['rev'], 'rays': rays(rv)})
    rec = {'id': s['id'], 'bare': s['bare'], 'chain': s['chain'], 'rev': rev, 'cut': s['cut'], 'flux': nums(rv0.flux),
           'wave': nums(rv0.wavelength), 'exits': exits, 'got': [], 'exc': ''}
    try:
        kw = {'reverse': True} if rev else {}
        if s['cut'] != '0.001': kw['minFlux'] = float(s['cut'])           # the threshold there is otherwise
        f, r = opt.traceSplit(rv0.copy(), **kw)
        if s['tree']['k'] not in 'CL':      # one interface alone leaves the thinning to its caller, and puts None where nothing goes
            def thin(x):
                y = x[~x.vignetted & (x.flux >= float(s['cut']))]
                y.path = x.path
                return y
            f, r = [thin(x) for x in f if x is not None], [thin(x) for x in r if x is not None]
        rec['got'] = [{'path': list(getattr(x, 'path', [])), 'rev': w, 'rays': rays(x)} for w, l in ((False, f), (True, r)) for x in l if len(x)]
        if s['bare']:
            rec['traced'] = rays(opt.trace(rv0.copy(), reverse=rev))
    except Exception as ex:
        rec['exc'] = exc_text(ex)
    log.put(rec)
log.close()
