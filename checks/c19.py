CFG = 'CONSTANT Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Nearest Framed\n'


def run(ck):
    ck.model('ParseMC', CFG % ck.n(2, 3), what='inheritance of media and composition of frames down every nest of items', min_states=2000)
    scen = ck.generate('ParseGen', 'scen.ndjson', {'N': ck.n(400, 6000), 'DEPTH': ck.n(2, 3)})
    rec = ck.drive('parse', scen)
    ck.validate('ParseTrace', rec)
