"""Obligations, verdicts, known findings and evidence."""
import json
import os
import re
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, an):
        self.prop, self.an = prop, an
        self.obs = []
        self.analysed = set()
        self.seen = {}

    def _add(self, status, rule, construct, detail, at=None):
        key = (status, rule, construct)
        if key in self.seen and status != 'proved':
            return
        self.seen[key] = 1
        self.obs.append({'status': status, 'rule': rule,
                         'construct': construct, 'detail': str(detail)[:600],
                         'at': at})

    def ok(self, rule, construct, detail=''):
        self._add('proved', rule, construct, detail)

    def bad(self, rule, construct, detail, ev=None, at=None):
        if ev is not None:
            at = '%s:%s' % (self.path(ev.fn), ev.line)
            if ev.fn not in construct:
                construct = construct + ' in ' + ev.fn
        self._add('violated', rule, construct, detail, at)

    def unk(self, rule, construct, detail=''):
        self._add('undecided', rule, construct, detail)

    def path(self, fn):
        mod = (fn or '').split('.')[0]
        m = self.an.prog.mods.get(mod)
        return os.path.relpath(m.path, self.an.prog.repo) if m else fn

    def put(self, cond, rule, construct, good='', badmsg=None, ev=None):
        if cond:
            self.ok(rule, construct, good)
        else:
            self.bad(rule, construct, badmsg or good, ev)


def known(prop):
    """Known findings of a property: [(rule, construct, text)]."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) rule=(\S+) '
                             r'construct=\[(.*?)\] (.*)', line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def finish(R, t0, title):
    prop = R.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    kn = known(prop)
    viol, used = [], []
    for o in R.obs:
        if o['status'] != 'violated':
            continue
        for rule, cons, text in kn:
            if rule == o['rule'] and cons == o['construct']:
                o['status'] = 'known-finding'
                if text not in used:
                    used.append(text)
                break
        else:
            viol.append(o)
    ev = os.environ.get('RSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    n = {}
    for o in R.obs:
        n[o['status']] = n.get(o['status'], 0) + 1
    visited = sorted(R.analysed)
    cov = {
        'obligations': len(R.obs),
        'discharged': n.get('proved', 0),
        'undecided': n.get('undecided', 0),
        'known_findings': n.get('known-finding', 0),
        'functions_interpreted': len(visited),
        'functions': visited,
        'source_digests': {m.short: m.digest[:16]
                           for m in R.an.prog.mods.values()},
        'rules': sorted({o['rule'] for o in R.obs}),
        'samples': [o for o in R.obs if o['status'] == 'proved'][:12],
        'not_proved': [o for o in R.obs if o['status'] != 'proved'][:40],
        'explanation': 'Static analysis of the current sources: every '
        'obligation is one rule applied to one construct (entry point, call '
        'site, store, guard or formula) of the gated value graph built from '
        'the syntax trees of /repo/src/rascal; discharged = shown to hold, '
        'undecided = the abstraction could not tell (never reported as a '
        'violation).',
    }
    lines = []
    for i, o in enumerate(viol):
        p = os.path.join(ev, 'replay', '%s-%d.json' % (prop, i))
        with open(p, 'w') as f:
            json.dump(dict(o, property=prop, title=title), f, indent=1)
        lines.append('  %s [%s] %s: %s' % (o['at'] or '-', o['rule'],
                                           o['construct'], o['detail']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed,
                   'level': 'other', 'coverage': cov,
                   'assumptions': [
                       'numpy/scipy/matplotlib/plotly calls behave as '
                       'modelled in rsa/core.py and rsa/interp.py',
                       'declared third-party dependencies can be imported'],
                   'wall_s': round(time.time() - t0, 2),
                   'violations': len(viol)}, f, indent=1)
    for t in used:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for o in R.obs:
        if o['status'] == 'undecided':
            print('UNDECIDED [%s] %s: %s' % (o['rule'], o['construct'],
                                             o['detail'][:200]))
    print('%s: %d obligations, %d proved, %d undecided, %d known, '
          '%d violated (%.1fs, %d functions)' % (
              prop, len(R.obs), n.get('proved', 0), n.get('undecided', 0),
              n.get('known-finding', 0), len(viol), time.time() - t0,
              len(visited)))
    for x in lines:
        print(x)
    return 1 if viol else 0
