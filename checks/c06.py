CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted Rejects Involution Reversible ScreenReversible\n'


def run_optics(ck, mode):
    ck.model('OpticsMC', CFG, what='reference ray engine over conic surfaces; the laws accept it and reject perturbed outcomes', min_states=500)
    scen = ck.generate('OpticsGen', 'scen.ndjson', {'N': ck.n(500, 6000), 'MODE': mode})
    rec = ck.drive('optics', scen, args=(mode,))
    ck.validate('OpticsTrace', rec)


def run(ck):
    run_optics(ck, 'int')
