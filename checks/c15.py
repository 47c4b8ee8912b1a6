CFG = 'CONSTANTS Steps = %d MaxLen = 4\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Known SliceLaw Split\nPROPERTY Isolated\n'


def run(ck):
    ck.model('RayCollMC', CFG % ck.n(2, 3), what='every short program over a store of collections; Python slices against a definition by membership', min_states=100)
    scen = ck.generate('RayCollGen', 'scen.ndjson', {'N': ck.n(300, 3000), 'LEN': ck.n(12, 18)})
    rec = ck.drive('raycoll', scen)
    ck.validate('RayCollTrace', rec)
