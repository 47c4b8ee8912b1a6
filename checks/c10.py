from checks.trees import tree_model
EDIT = 'CONSTANTS Steps = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Rigid Elsewhere Body StopMoves Shape InsRem RemIns Names\n'


def run_edits(ck, mode, n, ops):
    ck.model('OpticEditMC', EDIT % ck.n(2, 3), what='perturbation and edit algebra, every short sequence on a small system')
    trees = ck.drive('yamltrees', name='trees.ndjson', args=ck.n([], ['all']))
    scen = ck.generate('EditGen', 'scen.ndjson', {'N': n, 'OPS': ops, 'MODE': mode, 'TREES': trees})
    rec = ck.drive('edits', scen, args=[mode])
    ck.validate('EditTrace', rec)


def run(ck):
    run_edits(ck, 'perturb', ck.n(240, 1200), ck.n(4, 6))
