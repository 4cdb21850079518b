"""Check driver: obligations, findings, known-findings file, evidence."""
import importlib
import json
import os
import sys
import time
import traceback

from .model import AnalysisBroken, Model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MKS_REPO', '/repo')
EVID = os.environ.get('MKS_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Ctx:
    """what one check collects while it analyses the tree"""

    def __init__(self, pid, tier, model, overlay=None):
        self.pid, self.tier, self.model = pid, tier, model
        self.obligations = {}        # key -> (ok, construct, rule, msg, where)
        self.undec = {}
        self.counts = {}
        self.notes = []
        self.analysed = set()
        self.rules = {}
        self.failed = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, construct, ok, msg='', where=''):
        """one obligation: `construct` must satisfy `rule`.  A later failure of
        the same obligation wins over an earlier success."""
        k = (rule, construct)
        old = self.obligations.get(k)
        if old is None or (old[0] and not ok):
            self.obligations[k] = (bool(ok), msg, where)

    def undecided(self, rule, construct, why):
        self.undec[(rule, construct)] = why

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, fn):
        self.analysed.add(fn.fid if hasattr(fn, 'fid') else str(fn))

    def need(self, what, got, least):
        """an anchor count that must not silently drop to nothing"""
        self.counts[what] = got
        if got < least:
            raise AnalysisBroken('{}: found {}, expected at least {}'.format(what, got, least))

    def violations(self):
        return [(r, c, m, w) for (r, c), (ok, m, w) in self.obligations.items() if not ok]


def load_known(path=None):
    path = path or os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def analyse(pid, tier='quick', root=None, overlay=None):
    mod = importlib.import_module('mks.rules.' + pid.lower())
    ctx = Ctx(pid, tier, Model(root or REPO, overlay=overlay))
    try:
        mod.run(ctx)
    except AnalysisBroken:
        raise
    except Exception as e:
        # code the analysis cannot digest: what was decided before stands, the rest is open
        ctx.undecided('analysis', type(e).__name__, traceback.format_exc()[-1500:])
        ctx.failed = True
    return ctx


def main(argv):
    if len(argv) < 2 or argv[0] != 'check':
        print('usage: run.py check <property> [--tier quick|thorough]')
        return 2
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        ctx = analyse(pid, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property={} {}'.format(pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property={} internal error'.format(pid))
        return 3
    if ctx.failed:
        print('INCOMPLETE property={} a part of the tree could not be analysed: {}'.format(pid, [v for k, v in ctx.undec.items() if k[0] == 'analysis'][0].strip().split('\n')[-1]))
    audit = None
    if tier == 'thorough':
        from . import audit as aud
        audit = aud.sensitivity(pid, ctx, seed)
    known = [k for k in load_known() if k['property'] == pid and k.get('status', 'known') == 'known']
    viol, kf = [], []
    for r, c, m, w in sorted(ctx.violations()):
        hit = next((k for k in known if k['rule'] == r and k['construct'] == c), None)
        (kf if hit else viol).append((r, c, m, w, hit))
    for r, c, m, w, hit in kf:
        print('KNOWN-FINDING: property={} {} [{}] {}'.format(pid, r, c, hit['what']))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, pid + '.violations.txt')
    if os.path.exists(replay):
        os.remove(replay)
    if viol:
        with open(replay, 'w') as f:
            for r, c, m, w, hit in viol:
                f.write('property {}\nrule {}: {}\nconstruct {}\nat {}\n{}\n\n'.format(pid, r, ctx.rules.get(r, ''), c, w, m))
        for r, c, m, w, hit in viol:
            print('{}: rule {} broken by {}: {}'.format(w or '?', r, c, m))
            print('VIOLATION property={} replay={}'.format(pid, replay))
    total = len(ctx.obligations)
    good = sum(1 for v in ctx.obligations.values() if v[0])
    samples = ['{} :: {}'.format(r, c) for (r, c) in list(sorted(ctx.obligations))[:12]]
    cov = {
        'explanation': 'Static analysis of the source under {}: every listed obligation (rule x construct) was decided from the '
                       'syntax trees on this run; nothing was executed.'.format(REPO),
        'obligations_checked': total,
        'obligations_holding': good,
        'known_findings': len(kf),
        'undecided': ['{} :: {} ({})'.format(r, c, w) for (r, c), w in sorted(ctx.undec.items())],
        'rules': ctx.rules,
        'obligations_by_rule': {r: sum(1 for k in ctx.obligations if k[0] == r) for r in sorted({k[0] for k in ctx.obligations})},
        'functions_analysed': len(ctx.analysed),
        'functions': sorted(ctx.analysed)[:400],
        'counts': ctx.counts,
        'samples': samples,
        'notes': ctx.notes,
    }
    if audit is not None:
        cov['sensitivity_audit'] = audit
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
          'assumptions': ['the interpreter, networkx and the standard library behave as documented',
                          'the package is not monkey-patched from outside; attribute names are not built at run time']}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('{} {}: {} obligations, {} hold, {} known findings, {} violations, {} undecided, {:.1f}s'.format(
        pid, tier, total, good, len(kf), len(viol), len(ctx.undec), time.time() - t0))
    return 1 if viol else 0
