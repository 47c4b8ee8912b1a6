CFG = 'CONSTANTS MaxW = %d MaxN = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT WalkFinds Nodes Bounded NanOutside\n'


def run(ck):
    ck.model('MediaMC', CFG % ck.n(4, 6), what='every small table walked at every quarter wavelength; limits of the dispersion formulas', min_states=500)
    scen = ck.generate('MediaGen', 'scen.ndjson', {'N': ck.n(1200, 15000)})
    rec = ck.drive('media', scen)
    ck.validate('MediaTrace', rec)
