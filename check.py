"""Decides a property: ``python3 check.py C01 [--thorough]``."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    from sa import check
    property_ = sys.argv[1]
    if property_ == '--self-test':
        import sa.selftest
        return sa.selftest.run()
    tier = ('thorough' if '--thorough' in sys.argv[2:]
            or os.environ.get('VERIF_TIER') == 'thorough' else 'quick')
    rule = importlib.import_module('rules.' + property_.lower())
    return check.run(property_, rule, tier)


if __name__ == '__main__':
    sys.exit(main())
