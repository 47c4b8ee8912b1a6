CFG = 'CONSTANTS Flux = %d Cut = 1 Width = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Conserved Distinct Done\n'


def run(ck):
    ck.model('GhostsMC', CFG % (64, 2), what='nested work queue against the flat enumeration of exit sequences, flux conservation, all small systems')
    scen = ck.generate('GhostsGen', 'scen.ndjson', {'N': ck.n(160, 1200), 'LIMIT': ck.n(40, 150)})
    rec = ck.drive('ghosts', scen)
    ck.validate('GhostsTrace', rec)
