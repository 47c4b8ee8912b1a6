CFG = 'CONSTANTS Rows = %d Threads = %d Calls = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT RowsAlone Summed\n'


def run(ck):
    ck.model('ParMC', CFG % ck.n((3, 2), (4, 3)), what='every assignment of rows to threads and every interleaving of two calls and a sum', min_states=2000)
    scen = ck.generate('ParGen', 'scen.ndjson', {'N': ck.n(400, 2000), 'BIG': ck.n(6000, 12000)})
    rec = ck.drive('par', scen)
    ck.validate('ParTrace', rec)
