CFG = 'CONSTANT M = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Unit Axis Azimuth Radial Odd\nPROPERTY Outwards\n'


def run(ck):
    ck.model('ProjMC', CFG % ck.n(2, 3), what='six projections on a lattice of fields: unit, axis, azimuth, radial law, symmetry, monotony', min_states=500)
    scen = ck.generate('ProjGen', 'scen.ndjson', {'N': ck.n(900, 12000)})
    rec = ck.drive('proj', scen)
    ck.validate('ProjTrace', rec)
