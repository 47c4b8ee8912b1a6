"""Replays the visit lists and paths of TreeGen into real systems."""
from vlib.tree import *
scen, log, argv = args()
what = argv[0]


def fulls(tf):
    return [{'key': k, 'name': v['name'], 'in': rays(v['in']), 'out': rays(v['out'])} for k, v in tf.items()]


for s in scenarios(scen):
    rng = np.random.default_rng([SEED, s['id'], 1])
    log.current(s)
    B = Builder(rng, shared=s['frames'] in ('shared', 'straight'), straight=s['frames'] == 'straight')
    sys_ = B.build(s['tree'])
    if what == 'c03' and len(s['path']) < 2:
        continue
    n = 14 if what == 'c01' else 8
    obs = {k: o.obscuration for k, o in B.leaf.items()}
    if what == 'c01' and s['bare'] != 'no':
        if s['keep'] or s['id'] % 2: sys_.clearObscuration(unless=s['keep'] if s['id'] % 3 else tuple(s['keep']))
        else: sys_.clearObscuration()
        for k in obs:
            if k not in s['keep']: obs[k] = None
    for rev in ((False, True) if what != 'c03' else (False,)):
        visits = s['bwd'] if rev else s['fwd']
        ends = [B.leaf[v['n']].coordSys for v in visits[:1]]
        rv0 = bundle(rng, n, kind=s['rays'], cs=ends[0] if ends and s['from'] == 'first' else None)
        if what == 'c01':
            rec = {'k': 'trace', 'id': s['id'], 'tree': s['tree'], 'rev': rev, 'visits': visits, 'exc': ''}
            rec['snaps'] = replay(B.leaf, visits, rv0.copy(), obs)[-1:]
            try:
                rv = rv0.copy()
                out = sys_.trace(rv, reverse=rev) if rev else sys_.trace(rv)
                rec['got'], rec['inplace'] = rays(rv), out is rv
            except Exception as ex:
                rec['exc'] = exc_text(ex)
            log.put(rec)
        elif what == 'c02':
            rec = {'k': 'full', 'id': s['id'], 'tree': s['tree'], 'rev': rev, 'visits': visits, 'exc': ''}
            rec['snaps'] = replay(B.leaf, visits, rv0.copy())
            rec['before'] = rays(rv0)
            ents = []
            try:
                tf = sys_.traceFull(rv0, reverse=rev)
                ents = rec['full'] = fulls(tf)
                rec['after'] = rays(rv0)
                rec['traced'] = rays(sys_.trace(rv0.copy(), reverse=rev))
            except Exception as ex:
                rec['exc'] = exc_text(ex)
            log.put(rec)
            if len(ents) == len(visits) and ents:
                m = len(ents)
                a = int(rng.integers(0, m)); b = int(rng.integers(a, m))
                kw = {}
                if a or rng.integers(0, 2): kw['start'] = ents[a]['key']
                if b < m - 1 or rng.integers(0, 2): kw['end'] = ents[b]['key']
                rec = {'k': 'vert', 'id': s['id'], 'ents': ents[a:b + 1], 'exc': ''}
                try:
                    xyz, ln = batoid.optic.getGlobalRays(tf, **kw)
                    rec['xyz'] = [mat(r.T) for r in xyz]
                    rec['raylen'] = [int(x) for x in ln]
                except Exception as ex:
                    rec['exc'] = exc_text(ex)
                log.put(rec)
        else:
            path = s['path']
            rec = {'k': 'path', 'id': s['id'], 'path': path, 'steps': s['steps'], 'exc': ''}
            rec['snaps'] = replay(B.leaf, s['steps'], rv0.copy())
            rec['before'] = rays(rv0)
            names = list(path)
            alias = s['id'] % 3
            if alias == 1:      # fully qualified names denote the same interfaces
                full = {v.name: k for k, v in sys_.itemDict.items()}
                names = [full[q] for q in path]
            elif alias == 2:
                names = tuple(names)
            try:
                rv = rv0.copy()
                out = sys_.trace(rv, path=names)
                rec['got'], rec['inplace'] = rays(rv), out is rv
                rec['full'] = fulls(sys_.traceFull(rv0, path=names))
                rec['after'] = rays(rv0)
            except Exception as ex:
                rec['exc'] = exc_text(ex)
            log.put(rec)
log.close()
