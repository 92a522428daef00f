"""dev helper: python tools/dev.py <module> [units]  (T=seconds, F=fuzz seconds)"""
import importlib
import logging
import os
import sys
import time
import traceback
logging.disable(logging.CRITICAL)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter("ignore")
import signal
from pyvc.engine import Engine
from pyvc.conc import ConcEngine
from pyvc.runner import _Timeout, _alarm
signal.signal(signal.SIGALRM, _alarm)
name = [p[:-3] for p in sorted(os.listdir('/verif/contracts')) if p.startswith(sys.argv[1])][0]
mod = importlib.import_module('contracts.' + name)
sel = sys.argv[2:]
V = os.environ.get("V")
for u in (*mod.UNITS, *getattr(mod, "RUNTIME", ())):
    if sel and u.__name__ not in sel:
        continue
    if u in mod.UNITS:
        t = time.time()
        e = Engine(u, deadline=time.time() + float(os.environ.get('T', '60')), unroll=getattr(u, "unroll", 2),
                   use_specs=not os.environ.get("NOSPEC"))
        e.debug = True
        e.run()
        ob = e.obligations
        n = sum(r['instances'] for r in ob.values()); d = sum(r['discharged'] for r in ob.values())
        print('==', u.__name__, f'{d}/{n}', 'paths', e.paths, 't %.1f solver %.1f' % (time.time() - t, e.solver_time), dict(e.backends))
        for l, r in ob.items():
            if r['instances'] != r['discharged'] or V:
                print('   ', 'OK ' if r['instances'] == r['discharged'] else 'BAD', l, r)
        print('   covered', sorted(e.covered), 'bounded', sorted(e.bounded)[:3])
        for x in e.undecided[:3]: print('   UNDECIDED', str(x)[-700:])
        if e.unknowns: print('   UNKNOWN', set(e.unknowns))
        for f in e.failures[:2]: print('   FAIL', f['label'], str(f['values'])[:400], f['formula'][:300])
        if e.failures or e.undecided:
            for x in getattr(e, 'excs', [])[-2:]: print('   EXC', x[-700:])
    else:
        print('==', u.__name__, '(runtime)')
    n = 0; sk = 0; t = time.time(); bad = None; ev = 0; errs = 0; first = None
    while time.time() - t < float(os.environ.get('F', '1')) and bad is None:
        c = ConcEngine(u, seed=n)
        c.debug = True
        try:
            signal.setitimer(signal.ITIMER_REAL, 10)
            r = c.run()
        except _Timeout:
            r = 'timeout'; errs += 1; first = 'timeout seed %d' % n
        except BaseException as ex:
            errs += 1; r = 'err'
            first = first or "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-3:])[-700:]
        signal.setitimer(signal.ITIMER_REAL, 0)
        n += 1; ev += c.evaluated
        if r == 'skip': sk += 1
        elif r is not None and not isinstance(r, str): bad = (n - 1, r.label, str(r.detail)[:600], getattr(c, 'excs', [])[-1:])
    print('   conc runs', n, 'skips', sk, 'evals', ev, 'errors', errs, first or '', ('BAD ' + str(bad)) if bad else 'ok')
