#!/usr/bin/env python3
"""python3 check.py <property> [--thorough]: decide one property on the current /repo."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
import report
from engine import Anchor, Incomplete
from build import BuildError


def registry():
    import checks_vm
    reg = {}
    mods = [checks_vm]
    for name in ('checks_asm', 'checks_sym', 'checks_lcc', 'checks_tree', 'checks_back', 'checks_dag',
                 'checks_data', 'checks_stmt', 'checks_names', 'checks_decl'):
        try:
            mods.append(__import__(name))
        except ModuleNotFoundError as e:
            if e.name != name:
                raise
    for m in mods:
        for n in dir(m):
            if n[0] == 'C' and n[1:].isdigit():
                reg[n] = getattr(m, n)
    return reg


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    reg = registry()
    if len(args) != 1 or args[0] not in reg:
        print('usage: check.py <%s> [--thorough]' % '|'.join(sorted(reg)))
        return 2
    prop = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or \
        os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    err = None
    try:
        res = reg[prop](tier)
    except Incomplete as e:
        res = report.Result()
        from vmpol import Finding
        res.rule = 'the analysis could not establish the property'
        res.add([Finding('not-established', '?', str(e))])
    except (Anchor, BuildError) as e:
        res = report.Result()
        res.rule = 'analysis broken'
        err = str(e)
    except Exception:
        res = report.Result()
        res.rule = 'analysis broken'
        err = traceback.format_exc()
    if err is None and not res.obligations and not res.findings:
        err = 'no instance of the rule was found'
    return report.finish(prop, res, tier, seed, t0, err)


if __name__ == '__main__':
    sys.exit(main())
