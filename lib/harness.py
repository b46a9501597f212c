"""Common driver of the checks: obligations, violations, known findings, evidence."""
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Check:
    """collects the obligations of one property"""
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}          # rule -> [total, discharged]
        self.rules = {}        # rule -> text
        self.viol = {}         # key -> record
        self.undecided = {}    # key -> reason
        self.notes = {}
        self.samples = []
        self.assume = []

    def rule(self, rid, text):
        self.rules[rid] = text
        self.obl.setdefault(rid, [0, 0])

    def ok(self, rid, key=None, n=1):
        o = self.obl.setdefault(rid, [0, 0])
        o[0] += n
        o[1] += n
        if key and len(self.samples) < 400:
            self.samples.append('%s %s' % (rid, key))

    def bad(self, rid, key, where, what, n=1):
        o = self.obl.setdefault(rid, [0, 0])
        o[0] += n
        self.viol.setdefault(rid + ' ' + key, dict(rule=rid, construct=key, where=where, what=what))

    def unk(self, rid, key, why):
        o = self.obl.setdefault(rid, [0, 0])
        o[0] += 1
        self.undecided.setdefault(rid + ' ' + key, str(why)[:300])

    def merge(self, other):
        """results computed by a worker process"""
        for r, (a, b) in other['obl'].items():
            o = self.obl.setdefault(r, [0, 0])
            o[0] += a
            o[1] += b
        for k, v in other['viol'].items():
            self.viol.setdefault(k, v)
        self.undecided.update(other['und'])
        for s in other['samples']:
            if len(self.samples) < 400:
                self.samples.append(s)
        for k, v in other.get('notes', {}).items():
            if isinstance(v, (int, float)):
                self.notes[k] = self.notes.get(k, 0) + v
            else:
                self.notes[k] = v

    def export(self):
        return dict(obl=self.obl, viol=self.viol, und=self.undecided, samples=self.samples, notes=self.notes)


def guard(chk, name, fn, *a):
    """one part of a check: what it cannot follow is undecided, the other parts still run"""
    try:
        return fn(*a)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        chk.unk('PART', name, 'analysis failed: %s %s' % (type(e).__name__, str(e)[:200]))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def parallel(chk, items, work, jobs=8):
    """run work(chk, item) for every item in forked workers; merges the results"""
    import multiprocessing as mp
    items = list(items)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    nxt = ctx.Value('i', 0)

    def run():
        c = Check(chk.pid, chk.tier)
        err = None
        try:
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(items):
                    break
                try:
                    work(c, items[i])
                except (MemoryError, KeyboardInterrupt):
                    raise
                except Exception as e:
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                    c.unk('ITEM', str(items[i])[:120], 'analysis failed: %s %s' % (type(e).__name__, str(e)[:150]))
        except BaseException:
            err = traceback.format_exc()
        q.put((c.export(), err))
        q.close()
        q.join_thread()
        os._exit(0)
    ps = []
    for _ in range(min(jobs, len(items)) or 1):
        p = ctx.Process(target=run)
        p.start()
        ps.append(p)
    errs = []
    for _ in ps:
        r, err = q.get()
        chk.merge(r)
        if err:
            errs.append(err)
    for p in ps:
        p.join()
    if errs:
        raise RuntimeError('worker failed:\n' + errs[0])


def finish(chk, level, technique, explanation, analysed):
    known = [k for k in load_known() if k.get('property') == chk.pid and k.get('status') == 'open']
    klist = {k['key']: k for k in known}
    new, old = [], []
    for k in sorted(chk.viol):
        (old if k in klist else new).append(k)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tot = sum(o[0] for o in chk.obl.values())
    dis = sum(o[1] for o in chk.obl.values())
    reps = []
    if new:
        rd = os.path.join(d, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, k in enumerate(new[:50]):
            p = os.path.join(rd, '%s-%d.json' % (chk.pid, i))
            with open(p, 'w') as f:
                json.dump(dict(property=chk.pid, key=k, **chk.viol[k]), f, indent=1, default=str)
            reps.append((k, p))
    cov = dict(explanation=explanation, rules=chk.rules,
               obligations=tot, discharged=dis, undecided=len(chk.undecided),
               violations=len(new), known_findings=len(old),
               per_rule={r: dict(obligations=o[0], discharged=o[1]) for r, o in sorted(chk.obl.items())},
               analysed=analysed, technique=technique,
               undecided_list=dict(list(chk.undecided.items())[:60]),
               samples=chk.samples[:60])
    cov.update(chk.notes)
    ev = dict(property=chk.pid, tier=chk.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, wall_s=round(time.time() - chk.t0, 2),
              violations=len(new), assumptions=chk.assume)
    with open(os.path.join(d, chk.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (chk.pid, klist[k].get('what', k)))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d known findings, %.1f s'
          % (chk.pid, tot, dis, len(chk.undecided), len(new), len(old), time.time() - chk.t0))
    for k, u in list(chk.undecided.items())[:20]:
        print('  undecided: %s: %s' % (k, u[:160]))
    for k, p in reps:
        v = chk.viol[k]
        print('VIOLATION property=%s replay=%s' % (chk.pid, p))
        print('  %s: %s [%s] %s' % (v['where'], v['construct'], v['rule'], v['what']))
    return 1 if new else 0
