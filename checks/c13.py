CFG = 'CONSTANTS Steps = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT PolyLaw Boolean Tiling Dim\nPROPERTY OnlyRises\n'


def run(ck):
    ck.model('ObscMC', CFG % ck.n(3, 4), what='all simple lattice triangles and quadrilaterals, Boolean laws, sequences of obscurations', min_states=500)
    scen = ck.generate('ObscGen', 'scen.ndjson', {'N': ck.n(400, 5000)})
    rec = ck.drive('obsc', scen)
    ck.validate('ObscTrace', rec)
