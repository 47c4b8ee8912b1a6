"""Structure of the shipped telescopes, as trees for the generators."""
from vlib.drv import *
scen, log, argv = args()
KIND = {'CompoundOptic': 'C', 'Lens': 'L', 'Mirror': 'M', 'RefractiveInterface': 'R', 'Baffle': 'B', 'Detector': 'D', 'OPDScreen': 'S', 'Interface': 'I'}
QUICK = ['LSST/LSST_r.yaml', 'HSC/HSC.yaml', 'DECam/DECam.yaml', 'LSST/ComCam_g.yaml', 'DESI/DESI.yaml', 'LSST/LSST_r_baffles.yaml']


def tree(o):
    return {'n': o.name, 'k': KIND[type(o).__name__], 'skip': bool(o.skip), 'items': [tree(c) for c in getattr(o, 'items', ())]}


import glob
d = os.path.join(batoid.datadir)
files = [f for f in QUICK if os.path.exists(os.path.join(d, f))]
if 'all' in argv:
    files += [f for f in sorted(os.path.relpath(p, d) for p in glob.glob(d + '/*/*.yaml')) if f not in files]
for f in files:
    try:
        o = batoid.Optic.fromYaml(os.path.join(d, f))
    except Exception:
        continue        # shipped data is not what is judged here
    if isinstance(o, batoid.CompoundOptic):
        log.put({'yaml': f, 'tree': tree(o)})
log.close()
