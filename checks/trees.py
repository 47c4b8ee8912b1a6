TREE = 'CONSTANTS Depth = %d Width = %d PathLen = 2 PathNames = {1, 2}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n'
PATH = ('CONSTANTS Depth = 0 Width = 1 PathLen = %d PathNames = {%s}\nINIT InitP\nNEXT NextP\nCHECK_DEADLOCK FALSE\n'
        'INVARIANT PathLaw Towards Straight TurnFlips\n')


def tree_model(ck, invs):
    ck.model('OpticTreeMC', TREE % (2, ck.n(2, 3), invs), what='tree operators against the step-by-step tracer, all small trees')


def run_trees(ck, which):
    if which == 'c03':
        ck.model('OpticTreeMC', PATH % (ck.n(6, 8), '1,2,3,4'), what='path rule against a walking machine, all short paths')
    else:
        tree_model(ck, 'Complete Prefix Mirrored SkipLaw Once AllVisited')
    scen = ck.generate('TreeGen', 'scen.ndjson', {'N': ck.n(240, 2000), 'DEPTH': 3, 'MODE': 'trace'})
    rec = ck.drive('trees', scen, args=[which])
    ck.validate('TreeTrace', rec)
