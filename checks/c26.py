CFG = 'CONSTANTS Length = %d Bound = 9\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Back NeverLost Covers\n'


def run(ck):
    ck.model('ReverseMC', CFG % ck.n(3, 4), what='lattice optics, exact in integers: every system of that length retraced and moved', min_states=500)
    scen = ck.generate('ReverseGen', 'scen.ndjson', {'N': ck.n(200, 3000)})
    rec = ck.drive('reverse', scen)
    ck.validate('ReverseTrace', rec)
