CFG = 'CONSTANTS SIDE = %d RANGE = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Distinct Centred Chief Transposed Dual Parseval Placed Peak\n'


def run(ck):
    ck.model('LatticeMC', CFG % ck.n((4, 1), (7, 2)), what='every small lattice cell by cell, every 2x2 pupil of fourth roots of unity frequency by frequency', min_states=5000)
    scen = ck.generate('AnalysisGen', 'scen.ndjson', {'N': ck.n(520, 6000)})
    rec = ck.drive('analysis', scen)
    ck.validate('AnalysisTrace', rec)
