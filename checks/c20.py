CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Gradient NollRight Orthonormal Hermite\n'


def run(ck):
    ck.model('SurfacesMC', CFG, what='surface formulas: gradients, Noll indices, orthonormality, interpolation')
    scen = ck.generate('SagGen', 'scen.ndjson', {'N': ck.n(540, 6000)})
    rec = ck.drive('sag', scen)
    ck.validate('SagTrace', rec)
