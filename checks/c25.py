CFG = 'CONSTANT Depth = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Complete Split LensLaw Sub Carried Count PolyLaw\n'


def run(ck):
    ck.model('DrawMC', CFG, what='which outlines are drawn of every tree of depth 2; the outline moves with its frame', min_states=500)
    scen = ck.generate('DrawGen', 'scen.ndjson', {'N': ck.n(150, 2500)})
    rec = ck.drive('draw', scen)
    ck.validate('DrawTrace', rec)
