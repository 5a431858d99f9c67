#!/usr/bin/env python3
"""run.py Cxx [--thorough]: decides property Cxx on the source tree in /repo (SA_REPO overrides)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import runner
from sa.checks import REG

if __name__ == '__main__':
    cid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    rc = runner.main(cid, tier, REG[cid])
    sys.stdout.flush()
    os._exit(rc)
