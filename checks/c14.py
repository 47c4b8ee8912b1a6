CFG = 'CONSTANT Steps = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Reflexive Symmetric ExactImplies ExactIsIdentity Distinguishes ByCanon\n'


def run(ck):
    ck.model('ValuesMC', CFG % ck.n(2, 3), what='every small description and every sequence of edits: value equality', min_states=500)
    scen = ck.generate('ValuesGen', 'scen.ndjson', {'N': ck.n(1500, 20000)})
    rec = ck.drive('values', scen)
    ck.validate('ValuesTrace', rec)
