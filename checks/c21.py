CFG = 'CONSTANT Len0 = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Invariant SameSpeed SameLine OnCrest Additive\n'


def run(ck):
    ck.model('WaveMC', CFG % ck.n(3, 4), what='every short history of propagations and frame changes of integer rays', min_states=1000)
    scen = ck.generate('WaveGen', 'scen.ndjson', {'N': ck.n(500, 8000)})
    rec = ck.drive('wave', scen)
    ck.validate('WaveTrace', rec)
