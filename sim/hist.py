"""Histories: what happens to a model before (and between) the moments a property is judged.  Generated as JSON, executed on the real code."""
import contextlib

from . import gen
from .env import HGQ, P, keras, process_reset, tf
from .world import (RngSeam, SimFault, SimInterrupt, attempt, compile_, convert, dig, frozen, load, save, stream, targets, trace, train)


def gen_fault(rng, what, spec):
    exc = rng.pick(['fault', 'interrupt'])
    if what == 'cal' and rng.chance(0.5):
        return {'kind': 'slice', 'at': rng.randint(1, 4), 'exc': exc}
    hi = {'cal': 900, 'train': 1500, 'convert': 700, 'predict': 500, 'fitcb': 2500}.get(what, 300)
    return {'kind': 'line', 'at': max(1, int(hi ** rng.random())) if rng.chance(0.4) else rng.randint(1, hi), 'exc': exc}


def gen_op(rng, spec, kinds, p_fault=0.35):
    k = rng.weighted(kinds)
    op = {'op': k, 'seed': rng.seed32()}
    if k == 'train':
        op.update(steps=rng.randint(1, 3), bsz=rng.randint(2, 6), lr=rng.pick([0.0, 0.01, 0.1]), rngmode=rng.pick(['zero', 'one', 'half', f'seed:{rng.randrange(1000)}']))
    elif k in ('cal', 'cal_open'):
        op.update(n=rng.randint(1, 12), bsz=rng.randint(1, 7), scale=rng.pick([1.0, 1.0, 0.3, 4.0]), cover=rng.pick([1.0, 1.0, 1.5]), rst=rng.chance(0.75))
    elif k == 'predict':
        op.update(n=rng.randint(1, 8), scale=rng.pick([1.0, 8.0]), api=rng.pick(['call', 'predict', 'evaluate', 'train_mode']))
    elif k == 'restart':
        op.update(fmt=rng.pick(['h5', 'h5', 'keras', 'weights']))
    elif k == 'convert':
        op.update(aggr=rng.chance(0.5), lut=rng.pick([0, 0, 256]), reg=rng.chance(0.25))
    elif k == 'fitcb':
        op.update(cbs=[c for c in ('cal', 'free', 'reset') if rng.chance(0.6)], epochs=rng.randint(1, 2), n=rng.randint(4, 8), bsz=rng.randint(2, 4), lr=rng.pick([0.0, 0.02]))
    elif k == 'tune':
        op.update(what=rng.pick(['freeze', 'freeze', 'thaw', 'beta']), which=rng.randrange(64), v=rng.pick([0.0, 1e-4, 0.5]))
    if k in ('train', 'cal', 'convert', 'predict', 'fitcb') and rng.chance(p_fault):
        op['fault'] = gen_fault(rng, k, spec)
    return op


KINDS = [('train', 2), ('cal', 2), ('cal_open', 0.7), ('predict', 1), ('reset', 0.7), ('poke', 1), ('restart', 0.8), ('convert', 1), ('fitcb', 0.7)]
KINDS_T = KINDS + [('tune', 0.8)]


def gen_history(rng, spec, lo, hi, kinds=None, p_fault=0.35):
    kinds = list(kinds or KINDS)
    sw = [kv for kv in kinds if rng.chance(0.7)] or kinds  # swarm: a random subset of operation kinds per run
    return [gen_op(rng, spec, sw, p_fault) for _ in range(rng.randint(lo, hi))]


class Session:
    def __init__(self, ctx, spec, confs=None, model=None):
        self.ctx, self.spec = ctx, spec
        self.model = model if model is not None else gen.build(spec, confs)
        self.rng = 'seed:0'

    def hook(self, fault):
        """Read hook of a data set: fails at the configured read."""
        st = {'n': 0}

        def h():
            st['n'] += 1
            if fault and fault['kind'] == 'slice' and st['n'] == fault['at']:
                raise SimInterrupt() if fault.get('exc') == 'interrupt' else SimFault()
        return h

    def do(self, op):
        r = getattr(self, 'op_' + op['op'])(op)
        self.ctx.event(op['op'], op.get('seed'), r[0])
        return r

    def run(self, what, fn, op):
        with RngSeam(op.get('rngmode', 'seed:1')):
            return attempt(self.ctx, what, fn, op.get('fault'))

    def op_train(self, op):
        compile_(self.model, op['lr'])
        return self.run('train', lambda: train(self.model, self.spec, op), op)

    def op_cal(self, op):
        xs = gen.data(self.spec, op['n'], op['seed'], op['scale'])
        s = stream(xs, self.hook(op.get('fault')))
        kw = {} if op['rst'] else {'rst': False}
        r = self.run('cal', lambda: trace(self.model, s, op['bsz'], cover_factor=op['cover'], **kw) if op['rst'] else self._inc(s, op), op)
        return r

    def _inc(self, s, op):
        # an incremental calibration continues an open one; open it here so that it is well defined
        trace(self.model, s, op['bsz'], no_bops_computation=True)
        return trace(self.model, s, op['bsz'], rst=False)

    def op_cal_open(self, op):
        xs = gen.data(self.spec, op['n'], op['seed'], op['scale'])
        return self.run('cal_open', lambda: trace(self.model, xs, op['bsz'], no_bops_computation=True), op)

    def op_predict(self, op):
        xs = gen.data(self.spec, op['n'], op['seed'], op['scale'])
        m = self.model
        if op['api'] == 'call':
            f = lambda: gen.forward(m, xs)
        elif op['api'] == 'train_mode':
            f = lambda: gen.forward(m, xs, training=True)
        elif op['api'] == 'predict':
            m.run_eagerly = True
            f = lambda: m.predict(xs, verbose=0, batch_size=3)
        else:
            compile_(m)
            f = lambda: m.evaluate(xs, targets(m, op['n'], op['seed']), verbose=0, batch_size=3)
        return self.run('predict', f, op)

    def op_reset(self, op):
        return self.run('reset', lambda: HGQ.ResetMinMax.reset_minmax(self.model), op)

    def op_poke(self, op):
        return self.run('poke', lambda: gen.init_weights(self.spec, self.model, op['seed']), op)

    def op_tune(self, op):
        """What users set on layers between training phases; none of it is a parameter of inference, calibration or conversion."""
        def f():
            ls = list(gen.hlayers(self.model).values())
            if not ls:
                return
            some = ls if op['which'] % 4 == 0 else [ls[op['which'] % len(ls)]]
            for layer in some:
                if op['what'] == 'beta':
                    layer.beta.assign(op['v'])
                else:
                    layer.trainable = op['what'] == 'thaw'
        return self.run('tune', f, op)

    def op_restart(self, op):
        fmt = op['fmt']

        def f():
            path = save(self.ctx, self.model, fmt)
            fz = frozen(self.model)
            self.model = None
            process_reset()
            self.model = load(path, fmt, self.spec, fz)
        return self.run('restart', f, op)

    def op_convert(self, op):
        """Background conversion; may legitimately refuse an uncalibrated model or an activation that cannot be tabulated."""
        def f():
            try:
                convert(self.model, op)
                return 'converted'
            except AssertionError as e:
                return 'refused'
        return self.run('convert', f, op)

    def op_fitcb(self, op):
        m = self.model
        compile_(m, op['lr'])
        xs = gen.data(self.spec, op['n'], op['seed'])
        cal = stream(gen.data(self.spec, 5, op['seed'] + 1), lambda: None)
        cbs = []
        if 'cal' in op['cbs']:
            cbs.append(HGQ.CalibratedBOPs(cal if not isinstance(cal, list) else [c.arr for c in cal], bsz=2))
        if 'free' in op['cbs']:
            cbs.append(HGQ.FreeBOPs())
        if 'reset' in op['cbs']:
            cbs.append(HGQ.ResetMinMax())
        return self.run('fitcb', lambda: m.fit(xs, targets(m, op['n'], op['seed']), batch_size=op['bsz'], epochs=op['epochs'], shuffle=False, verbose=0, callbacks=cbs).history, op)
