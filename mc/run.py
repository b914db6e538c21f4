# -*- coding: utf-8 -*-
"""python -m mc.run <PROPERTY> [quick|thorough]   |   python -m mc.run --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('LGR_REPO', '/repo'))

from mc import common   # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(common.replay_main(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(common.main(sys.argv[1], tier))
