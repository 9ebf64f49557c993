"""One worker process.  Reads one JSON request per line, executes one simulated run on the real code, answers one JSON line.

request: {"i": run index} (the case is generated from VERIF_SEED, the property and i) or {"case": {...}} (replay, minimisation)
"""
import gc
import importlib
import json
import os
import sys
import threading
import time
import traceback

MODULES = {'C01': 'props_a', 'C02': 'props_a', 'C03': 'props_a', 'C12': 'props_a', 'C04': 'props_b', 'C05': 'props_b', 'C06': 'props_b', 'C10': 'props_b', 'C07': 'props_c', 'C08': 'props_c', 'C09': 'props_c',
           'C11': 'props_c', 'C13': 'props_d', 'C14': 'props_d', 'C15': 'props_e'}


def real_code(tb):
    """Was the exception raised inside HGQ or the framework it drives (as opposed to the simulator's own code)?"""
    from .world import HGQ_DIR
    fr = traceback.extract_tb(tb)
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    last = max([n for n, f in enumerate(fr) if os.path.abspath(f.filename).startswith(here)], default=-1)
    return any(f.filename.startswith(HGQ_DIR) or f'{os.sep}keras{os.sep}' in f.filename or f'{os.sep}tensorflow{os.sep}' in f.filename for f in fr[last + 1:])


def execute(prop, case):
    from . import world
    from .env import process_reset
    process_reset()
    ctx = world.Ctx(case)
    t = time.time()
    out = {'status': 'ok'}
    try:
        prop.run(ctx, json.loads(json.dumps(case)))
    except world.Violation as e:
        out = {'status': 'violation', 'kind': e.kind, 'detail': str(e)}
    except world.OpFailed as e:
        c = e.__cause__
        out = {'status': 'violation', 'kind': 'operation-failed:' + type(c).__name__, 'detail': f'an operation without any fault failed: {e}'}
    except BaseException as e:  # noqa: B902
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = ''.join(traceback.format_exception(e, limit=-8))
        if isinstance(e, Exception) and not isinstance(e, MemoryError) and real_code(e.__traceback__):
            out = {'status': 'violation', 'kind': 'operation-failed:' + type(e).__name__, 'detail': f'an operation without any fault failed: {type(e).__name__}: {str(e)[:400]}'}
        elif isinstance(e, (IndexError, KeyError, ValueError, TypeError, ZeroDivisionError)):
            # the oracle could not even compare: shapes, counts or kinds of what was observed are none the real code gives on these seeds
            out = {'status': 'violation', 'kind': 'malformed-observation:' + type(e).__name__, 'detail': f'what the real code returned cannot be judged: {tb[-600:]}'}
        else:
            out = {'status': 'harness', 'kind': type(e).__name__, 'detail': tb[-3000:]}
    finally:
        sys.settrace(None)
        ctx.close()
    out.update(digest=ctx.digest(), steps=ctx.steps, stats=dict(ctx.stats), distinct=sorted(ctx.distinct), s=round(time.time() - t, 4))
    return out


def main():
    pid, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    chan = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)

    def say(o):
        chan.write(json.dumps(o) + '\n')
        chan.flush()
    try:
        from .rng import Rng
        prop = getattr(importlib.import_module('sim.' + MODULES[pid]), pid)
    except BaseException:  # noqa: B902
        say({'status': 'harness', 'kind': 'import', 'detail': traceback.format_exc()[-3000:]})
        return 2
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 50, 50)
    say({'status': 'ready'})
    for line in sys.stdin:
        req = json.loads(line)
        case = req['case'] if 'case' in req else prop.gen(Rng(seed, pid, req['i']), tier)
        case = json.loads(json.dumps(case))
        r = execute(prop, case)
        if r['status'] != 'ok' or req.get('want_case'):
            r['case'] = case
        r['i'] = req.get('i')
        say(r)
    return 0


if __name__ == '__main__':
    code = main()
    os._exit(code)
