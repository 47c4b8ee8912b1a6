CFG = 'CONSTANTS MaxT = 3\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\nPROPERTY FlagsRise FailedIsVignetted\n'


def run(ck):
    ck.model('RayLifeMC', CFG, what='life of one ray under an interaction engine')
    scen = ck.generate('RayLifeGen', 'scen.ndjson', {'N': ck.n(200, 2500), 'LEN': ck.n(9, 14)})
    rec = ck.drive('raylife', scen)
    ck.validate('RayLifeTrace', rec)
