#!/usr/bin/env python3
"""setup_cmd: builds batoid from /repo and compiles the TLC module overrides."""
import sys
sys.dont_write_bytecode = True
from vlib import core
ck = core.Check('setup')
try:
    ck.build()
    rc, out = ck.tlc('FramesMC', 'CONSTANT Bound = 0\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Rigid\n', workers=2)
    assert 'No error has been found' in out, out[-2000:]
except core.MachineryError as e:
    print(e)
    sys.exit(2)
print('setup ok')
