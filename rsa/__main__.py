import importlib
import json
import os
import sys
import threading
import time
import traceback


def main():
    from .entry import Analysis, with_invariants
    from .front import Missing
    from . import report
    rc = 0
    verbose = '-v' in sys.argv
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    titles = {}
    with open(os.path.join(report.HERE, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            titles[d['id']] = d['title']
    if props == ['all']:
        props = [p for p in titles if os.path.exists(os.path.join(
            report.HERE, 'rsa', 'rules', p.lower() + '.py'))]
    for p in props:
        t0 = time.time()
        mod = importlib.import_module('rsa.rules.' + p.lower())
        an = with_invariants() if getattr(mod, 'NEEDS_INV', 0) \
            else Analysis()
        R = report.Report(p, an)
        try:
            for rule in mod.RULES:
                try:
                    rule(an, R)
                except Missing as e:
                    R.bad('anchor', rule.__name__, 'the public interface '
                          'this rule decides is gone: %s' % e)
                except RecursionError:
                    R.unk('engine', rule.__name__, 'recursion limit')
                except Exception as e:
                    if verbose:
                        traceback.print_exc()
                    R.unk('engine', rule.__name__, '%s: %s' % (
                        type(e).__name__, e))
        finally:
            for r in an.allruns:
                R.analysed |= r.it.visited
        if verbose:
            for o in R.obs:
                print('%-9s [%s] %s: %s' % (o['status'], o['rule'],
                                            o['construct'],
                                            o['detail'][:160]))
        rc = max(rc, report.finish(R, t0, titles.get(p, '')))
    return rc


def run():
    box = []

    def go():
        try:
            box.append(main())
        except Exception:
            traceback.print_exc()
            box.append(2)
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)


run()
