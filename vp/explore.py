"""Explores one job: a harness case below a decision prefix, for a slice of time."""
import gc
import os
import random
import signal
import sys
import time
import traceback

from . import core, models, instrument, stubs, zz
from .harness import HSym, evaluate
from .replay import plain
from fractions import Fraction

_H = {}


class PathTimeout(core.PathEnd):
    pass


def harness_module(prop):
    if prop not in _H:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _H[prop] = instrument.load_harness(os.path.join(here, 'props', prop.lower() + '.py'), 'props.' + prop.lower())
    return _H[prop]


class PropsFinder(object):
    """props.* helper modules are instrumented as well"""


def setup_process():
    sys.dont_write_bytecode = True
    instrument.install()
    instrument.install_props()
    stubs.install()
    sys.setrecursionlimit(5000)


def run_job(job):
    """job: dict(property, case index info, prefix, slice, eager, seed, known)"""
    setup_process()
    hm = harness_module(job['property'])
    fn = getattr(hm, job['func'])
    args = job['args']
    zz.reset()
    eng = core.Engine()
    core.set_engine(eng)
    eng.load_prefix(job['prefix'])
    entered = set()
    models.STATE['entered'] = entered
    rng = random.Random('%s|%s|%s' % (job['seed'], job['name'], job['prefix']))
    t0 = time.time()
    res = {'violations': [], 'samples': [], 'reached': {}, 'stopped': [], 'pending': [], 'done': False}
    nsamples = 0
    gc.disable()
    paths = 0

    def on_alarm(sig, frame):
        e = PathTimeout('path time limit')
        eng.aborting = e
        raise e
    signal.signal(signal.SIGALRM, on_alarm)
    while True:
        instrument.forget()
        eng.start_path()
        h = HSym(eng, eager=job['eager'], known=job['known'])
        signal.alarm(job.get('path_limit', 25))
        ended = None
        try:
            fn(h, **args)
            ended = 'ok'
        except PathTimeout as e:
            ended = 'timeout'
        except core.Infeasible:
            ended = 'infeasible'
        except core.StopPath as e:
            ended = 'stop:%s' % (e.args[0] if e.args else '')
        except RecursionError as e:
            ended = 'exception'
            exc = e
        except Exception as e:
            ended = 'exception'
            exc = e
        finally:
            signal.alarm(0)
        if eng.aborting is not None and ended in ('ok', 'exception'):
            ended = 'infeasible' if isinstance(eng.aborting, core.Infeasible) else 'stop:swallowed'
        eng.aborting = None
        if ended == 'exception':
            try:
                m = eng.need_model()
                h._violation('unexpected-exception:' + type(exc).__name__, m, None)
                h.violations[-1].info = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]
            except core.PathEnd:
                ended = 'infeasible'
            eng.aborting = None
        elif ended == 'timeout':
            try:
                h._violation('no-termination', eng.need_model(), None)
            except core.PathEnd:
                pass
            eng.aborting = None
        for v in h.violations:
            res['violations'].append({'label': v.label, 'inputs': v.inputs, 'info': v.info})
        for l in h.reached:
            res['reached'][l] = res['reached'].get(l, 0) + 1
        if ended.startswith('stop:') and ended not in ('stop:violation',):
            res['stopped'].append(ended)
        if ended != 'infeasible':
            paths += 1
        if ended == 'ok' and not h.violations:
            # sample a path for comparison with the real code
            if nsamples < 2 or rng.random() < 4.0 / (4 + paths):
                try:
                    m = eng.need_model()
                    inputs = {}
                    for n, v in h.inputs.items():
                        x = evaluate(v, m)
                        inputs[n] = str(Fraction(x)) if isinstance(x, float) else x
                    obs = [[k, plain(evaluate(v, m))] for k, v in h.observations]
                    s = {'inputs': inputs, 'observations': obs}
                    if len(res['samples']) < 4:
                        res['samples'].append(s)
                    else:
                        res['samples'][rng.randrange(4)] = s
                    nsamples += 1
                except core.PathEnd:
                    pass
                eng.aborting = None
        h.cleanup()
        del h
        exc = None
        if paths % 64 == 0:
            gc.collect()
        more = eng.next_path()
        if not more:
            res['done'] = True
            break
        if len(res['violations']) >= job.get('max_violations', 12):
            break
        if time.time() - t0 > job['slice']:
            # the path next_path() just chose is still to be run
            cur = [(r.taken, r.val) for r in eng.trail]
            res['pending'] = eng.pending_prefixes() + [cur]
            break
    gc.enable()
    eng.stats['paths'] = paths
    res['stats'] = eng.stats
    res['entered'] = sorted(entered)
    res['name'] = job['name']
    res['wall'] = time.time() - t0
    res['eager'] = job['eager']
    return res
