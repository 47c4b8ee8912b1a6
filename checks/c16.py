CFG = 'CONSTANT MaxN = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Agree Counted Spacing Rows Centred Symmetric Unequal Coherent Meets Rings\n'


def run(ck):
    ck.model('LaunchMC', CFG % ck.n(4, 6), what='every small grid layout launched in seven directions and followed in time; ring counts', min_states=2000)
    scen = ck.generate('LaunchGen', 'scen.ndjson', {'N': ck.n(1400, 16000)})
    rec = ck.drive('launch', scen)
    ck.validate('LaunchTrace', rec)
