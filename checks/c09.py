def run(ck):
    ck.model('FramesMC', 'CONSTANT Bound = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
             'INVARIANT Rigid Inverse Chain Isometry CentreFixed LocalVsGlobal ShiftLaw Undo\n' % ck.n(1, 3),
             what='frame algebra over the cube group and integer shifts')
    scen = ck.generate('FramesGen', 'scen.ndjson', {'N': ck.n(150, 1500), 'LEN': ck.n(6, 14)})
    rec = ck.drive('c09', scen)
    ck.validate('FramesTrace', rec)
