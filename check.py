#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import importlib
import os
import sys
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks'), HERE]
import harness
import progdb
import meta


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    ps = [p for p in meta.P if p['id'] == pid]
    if not ps:
        print('unknown property', pid)
        return 2
    p = ps[0]
    chk = harness.Check(pid, tier)
    chk.assume = p['assume']
    try:
        db = progdb.load()
        m = importlib.import_module(p['module'])
    except Exception:
        traceback.print_exc()
        return 2
    analysed = harness.guard(chk, p['module'], m.run, chk, db) or {}
    analysed['functions_with_bodies'] = sum(1 for f in db.functions.values() if 'body' in f)
    analysed['translation_units'] = len(progdb.tu_list())
    return harness.finish(chk, 'other', p['technique'], p['expl'], analysed)


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(r)
