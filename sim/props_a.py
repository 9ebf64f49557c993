"""C01 deployment is bit exact | C02 calibration is a function of model and data | C03 inference is pure | C12 input faults are contained."""
import numpy as np

from . import gen, manual, ref
from .env import HGQ, P, graph_mode, keras, tf
from .hist import KINDS_T as KINDS, Session, gen_fault, gen_history
from .world import (HashOrder, OpFailed, RngSeam, Violation, attempt, bits, clone, compile_, convert, dict_diff, dig, first_diff, same, stream, targets, trace, weights)


def reference(spec, model, xs):
    """(reference outputs | None, 'exact' | 'rounding' | 'sum')."""
    try:
        return ref.run(spec, ref.params(spec, model), xs), 'exact'
    except ref.AmbiguousSum:
        return None, 'sum'
    except ref.Ambiguous:
        return None, 'rounding'


def lut_refusal_ok(model, proxy, xs):
    """A table cannot be made for an activation whose input or (quantized) output is constantly zero."""
    acts = [layer for layer in proxy.layers if isinstance(layer, keras.layers.Activation)]
    for a in acts:
        sub = keras.Model(proxy.inputs, [a.input, a.output] + [n.outbound_layer.output for n in a._outbound_nodes])
        outs = gen.forward(sub, xs)
        if any(not np.any(o) for o in [outs[0]] + outs[2:]) or not np.any(outs[1]):
            return True
    return False


# ====================================================================================================== C01
class C01:
    id = 'C01'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=rng.chance(0.6), stochastic=rng.chance(0.5), max_blocks=4 if tier == 'quick' else 6, p_nested=0.12, p_plain=0.08, p_twice=0.3)
        kinds = KINDS if spec_trainable(spec) else [k for k in KINDS if k[0] not in ('train', 'fitcb')]
        ops = gen_history(rng, spec, 0, 3 if tier == 'quick' else 6, kinds)
        for _ in range(1 if rng.chance(0.7) else 2):
            ops.append({'op': 'deploy', 'seed': rng.seed32(), 'n': rng.randint(2, 14), 'bsz': rng.randint(1, 8), 'scale': rng.pick([1.0, 1.0, 0.25, 2.0]), 'cover': rng.pick([1.0, 1.0, 1.0, 1.7]),
                        'lut': rng.pick([0, 64, 1024]), 'reg': rng.chance(0.4), 'acc': rng.pick([None, None, 0, 3]), 'hash': rng.randrange(1000), 'open': rng.chance(0.15)})
            if rng.chance(0.4):
                ops += gen_history(rng, spec, 1, 2, kinds)
                ops.append(dict(ops[-1]) if ops[-1]['op'] == 'deploy' else {'op': 'deploy', 'seed': rng.seed32(), 'n': 6, 'bsz': 3, 'scale': 1.0, 'cover': 1.0, 'lut': 0, 'reg': False, 'acc': None, 'hash': 1, 'open': False})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'deploy':
                C01.deploy(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def deploy(ctx, S, op):
        spec, m = S.spec, S.model
        scale = 1.0 if gen.has(spec, 'Signature') else op['scale']
        xs = gen.data(spec, op['n'], op['seed'], scale)
        if op.get('open'):
            attempt(ctx, 'cal', lambda: trace(m, gen.rows(xs, slice(0, 1)), 1, no_bops_computation=True))
            attempt(ctx, 'cal', lambda: trace(m, xs, op['bsz'], rst=False))
        else:
            attempt(ctx, 'cal', lambda: trace(m, xs, op['bsz'], cover_factor=op['cover']))
        _, y = attempt(ctx, 'predict', lambda: gen.forward(m, xs))
        if not all(np.isfinite(t).all() for t in y):
            raise Violation('non-finite-output', 'model output is not finite on calibration data')
        r, how = reference(spec, m, xs)
        ctx.probe('deploy:' + how)
        if how == 'sum':
            return
        if how == 'exact' and not same(r, y):
            raise Violation('model-differs-from-reference', first_diff(y, r))
        for aggr in (True, False):
            _, p = attempt(ctx, 'convert', lambda: convert(m, {'aggr': aggr, 'hash': op['hash']}))
            _, yp = attempt(ctx, 'proxy', lambda: gen.forward(p, xs, op['bsz'] if how == 'exact' else None))
            if not same(yp, y):
                raise Violation('proxy-not-bit-exact', f'aggressive={aggr}: proxy vs model: {first_diff(yp, y)}')
            if op['reg'] or op['lut']:
                try:
                    _, p2 = attempt(ctx, 'convert', lambda: convert(m, {**op, 'aggr': aggr}))
                except OpFailed as e:
                    if op['lut'] and isinstance(e.__cause__, AssertionError) and lut_refusal_ok(m, p, xs):
                        ctx.probe('lut-refused')
                        continue
                    raise
                nlut = sum(isinstance(layer, P.UnaryLUT) for layer in p2.layers)
                ctx.probe('lut-layers', nlut)
                if nlut and how != 'exact':
                    continue
                _, yp = attempt(ctx, 'proxy', lambda: gen.forward(p2, xs))
                if not same(yp, y):
                    raise Violation('proxy-not-bit-exact', f'aggressive={aggr} lut={op["lut"]} precision_reg={op["reg"]}: proxy vs model: {first_diff(yp, y)}')
        ctx.event('deploy', dig(y), how)


def spec_trainable(spec):
    return not any(n['args'].get('groups', 1) > 1 for n in gen.walk(spec))


# ====================================================================================================== C02
class C02:
    id = 'C02'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=rng.chance(0.5), stochastic=rng.chance(0.5), p_nested=0.15, p_multi_in=0.2, p_multi_out=0.2, max_blocks=4)
        kinds = KINDS if spec_trainable(spec) else [k for k in KINDS if k[0] not in ('train', 'fitcb')]
        ops = []
        for _ in range(rng.randint(1, 2 if tier == 'quick' else 4)):
            ops += gen_history(rng, spec, 0, 2 if tier == 'quick' else 4, kinds, p_fault=0.5)
            parts = [{'seed': rng.seed32(), 'n': rng.randint(1, 9), 'bsz': rng.randint(1, 6), 'scale': rng.pick([1.0, 0.25, 3.0])} for _ in range(rng.pick([1, 1, 2, 3]))]
            op = {'op': 'calcheck', 'parts': parts, 'cover': rng.pick([1.0, 1.0, 1.4, 2.0]), 'ret': rng.chance(0.4), 'between': rng.chance(0.3), 'via': rng.pick(['trace', 'trace', 'trace', 'callback'])}
            if rng.chance(0.35):
                op['abort'] = gen_fault(rng, 'cal', spec)
            ops.append(op)
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'calcheck':
                C02.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        datas = [gen.data(spec, p['n'], p['seed'], p['scale']) for p in op['parts']]
        if op.get('abort'):
            # a first attempt dies; the caller simply starts over
            h = S.hook(op['abort'])
            attempt(ctx, 'cal', lambda: trace(m, stream(gen.data(spec, 9, 77, 5.0), h), 2), op['abort'])
        w0 = weights(m)
        xs = gen.cat(*datas)
        ret = None
        if op['via'] == 'callback' and len(datas) == 1 and not isinstance(xs, list):
            def f():
                cb = HGQ.CalibratedBOPs(xs, bsz=op['parts'][0]['bsz'])
                cb.set_model(m)
                logs = {}
                cb.on_epoch_end(op['parts'][0]['seed'] % 3, logs)
                return logs['bops']
            _, bops = attempt(ctx, 'cal', f)
            cover = 1.0
        elif len(datas) == 1:
            cover = op['cover']
            _, bops = attempt(ctx, 'cal', lambda: trace(m, xs, op['parts'][0]['bsz'], cover_factor=cover, return_predictions=op['ret']))
            if op['ret']:
                bops, ret = bops
        else:
            cover = 1.0  # every part of an incremental calibration would be inflated again; only defined for 1
            for i, (d, p) in enumerate(zip(datas, op['parts'])):
                last = i == len(datas) - 1
                _, bops = attempt(ctx, 'cal', lambda: trace(m, d, p['bsz'], rst=i == 0, no_bops_computation=not last))
                if op['between'] and not last:
                    # work on an unrelated model between the parts
                    other = Session(ctx, {**spec, 'wseed': 1})
                    attempt(ctx, 'cal', lambda: trace(other.model, gen.data(spec, 3, 5, 6.0), 2))
            ctx.probe('incremental')
        b = bits(m)
        bad = [n for n, v in b.items() if v is None]
        if bad:
            raise Violation('not-calibrated-after-calibration', f'layers {bad} have no valid range after trace_minmax')
        d = dict_diff(w0, weights(m))
        if d:
            raise Violation('calibration-changed-weights', d)
        # 1. the reference
        try:
            prm = ref.params(spec, m)
            acc = ref.ranges(spec, prm, xs)
            exact = True
        except ref.Ambiguous:
            exact = False
        if exact:
            try:
                acc = cover_ranges(spec, prm, acc, cover)
            except ref.Ambiguous:
                exact = False
        if exact:
            ctx.probe('calref')
            for n, v in b.items():
                want = ref.kif(*acc[n], prm[n]['abw'])
                if not same([np.asarray(t, float) for t in v], [np.asarray(t, float) for t in want]):
                    raise Violation('wrong-calibrated-format', f'layer {n} (k, i, f) vs reference: {first_diff([np.asarray(t, float) for t in v], [np.asarray(t, float) for t in want])}')
        # 2. history independence: a new model with the same parameters, one batch
        _, c = attempt(ctx, 'build', lambda: clone(spec, m))
        _, cb = attempt(ctx, 'cal', lambda: trace(c, xs, gen.nrows(xs), cover_factor=cover))
        if exact:
            d = dict_diff(b, bits(c))
            if d:
                raise Violation('calibration-depends-on-history', f'formats differ from a freshly built model with the same parameters: {d}')
            if float(bops) != float(cb):
                raise Violation('bops-depend-on-history', f'{float(bops)} vs {float(cb)} for a fresh model')
            if ret is not None:
                ret = [np.asarray(t) for t in ret] if isinstance(ret, (list, tuple)) else [np.asarray(ret)]
                y = gen.forward(c, xs)
                if not same(ret, y):
                    raise Violation('wrong-returned-predictions', first_diff(ret, y))
        # 3. the calibration is closed: traffic afterwards is not recorded
        attempt(ctx, 'predict', lambda: gen.forward(m, gen.data(spec, 5, 99, 16.0), 2))
        d = dict_diff(b, bits(m))
        if d:
            raise Violation('inference-after-calibration-recorded', d)
        ctx.event('cal', [dig(v) for v in b.values()], float(bops))


def cover_ranges(spec, prm, acc, cover):
    """Ranges widened around their centre by the cover factor, on the quantizer's grid; bounded activations stay bounded."""
    out = {}
    for node in gen.walk(spec):
        n = node['id']
        if n not in acc:
            continue
        lo, hi = acc[n]
        f = prm[n]['abw']
        fl = ref.rnd_of(node, prm[n])
        if cover != 1.0:
            mid, half = (lo + hi) / 2, (hi - lo) / 2
            lo, hi = ref.q(mid - half * cover, f, fl, 1e-5), ref.q(mid + half * cover, f, fl, 1e-5)
        a = node['args'].get('activation') if node['cls'] == 'HActivation' else None
        if a == 'softmax':
            lo, hi = np.zeros_like(lo), np.ones_like(hi)
        if a == 'sigmoid':
            lo, hi = np.maximum(lo, 0), np.minimum(hi, ref.q(np.ones_like(hi), f, fl))
        if a == 'tanh':
            lo, hi = np.maximum(lo, ref.q(-np.ones_like(lo), f, fl)), np.minimum(hi, ref.q(np.ones_like(hi), f, fl))
        out[n] = (lo, hi)
    return out


# ====================================================================================================== C03
class C03:
    id = 'C03'

    @staticmethod
    def gen(rng, tier):
        graph = rng.chance(0.06 if tier == 'quick' else 0.08)
        spec = gen.gen_spec(rng, train=rng.chance(0.7), stochastic=rng.chance(0.8), max_blocks=2 if graph else 4)
        kinds = KINDS if spec_trainable(spec) else [k for k in KINDS if k[0] not in ('train', 'fitcb')]
        ops = []
        for _ in range(1 if graph else rng.randint(1, 3)):
            ops += gen_history(rng, spec, 0, 2 if tier == 'quick' else 4, kinds)
            ops.append({'op': 'infer', 'seed': rng.seed32(), 'n': rng.randint(2, 9), 'bsz': rng.randint(1, 4), 'scale': rng.pick([1.0, 1.0, 5.0]), 'wild': rng.chance(0.15), 'graph': graph,
                        'draws': [rng.pick(['zero', 'one', 'half', f'seed:{rng.randrange(99)}']) for _ in range(2)], 'cal': rng.chance(0.5), 'reset': rng.chance(0.3)})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'infer':
                C03.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        xs = gen.data(spec, op['n'], op['seed'], op['scale'])
        if op['wild']:
            r = np.random.default_rng(op['seed'])
            xs = [(x + r.normal(0, 0.3, x.shape)).astype('float32') for x in xs] if isinstance(xs, list) else (xs + r.normal(0, 0.3, xs.shape)).astype('float32')
        b0 = None
        if op['cal'] and not gen.has(spec, 'Signature'):
            attempt(ctx, 'cal', lambda: trace(m, gen.data(spec, 4, op['seed'] + 1), 3))
            b0 = bits(m)
        if op.get('reset') and not op['cal']:
            attempt(ctx, 'reset', lambda: HGQ.ResetMinMax.reset_minmax(m))
        w0 = weights(m)
        r, how = reference(spec, m, xs)
        if op['wild'] and how == 'exact':
            r, how = None, 'rounding'
        ctx.probe('infer:' + how)
        ys = []
        for d in op['draws']:
            with RngSeam(d):
                _, y = attempt(ctx, 'predict', lambda: gen.forward(m, xs))
            ys.append(y)
            with RngSeam(d):
                _, y = attempt(ctx, 'predict', lambda: gen.as_list(m(xs)))  # the caller does not mention training
            ys.append(y)
        _, y = attempt(ctx, 'predict', lambda: gen.forward(m, xs))
        for k, t in enumerate(ys):
            if not same(t, y):
                raise Violation('inference-not-reproducible', f'call {k} (draws {op["draws"][k // 2]}, {"no training argument" if k % 2 else "training=False"}) vs last call on the same input: {first_diff(t, y)}')
        if how == 'exact' and not same(y, r):
            raise Violation('inference-differs-from-reference', first_diff(y, r))
        if how == 'exact':
            _, yb = attempt(ctx, 'predict', lambda: gen.forward(m, xs, op['bsz']))
            if not same(yb, y):
                raise Violation('inference-depends-on-batching', first_diff(yb, y))
            perm = np.random.default_rng(op['seed'] + 2).permutation(op['n'])
            _, yq = attempt(ctx, 'predict', lambda: gen.forward(m, gen.rows(xs, perm)))
            if not same(yq, [t[perm] for t in y]):
                raise Violation('inference-depends-on-order', first_diff(yq, [t[perm] for t in y]))
            m.run_eagerly = True
            _, yk = attempt(ctx, 'predict', lambda: gen.as_list(m.predict(xs, batch_size=op['bsz'], verbose=0)))
            if not same(yk, y):
                raise Violation('predict-differs-from-call', first_diff(yk, y))
            _, c = attempt(ctx, 'build', lambda: clone(spec, m))
            _, yc = attempt(ctx, 'predict', lambda: gen.forward(c, xs))
            if not same(yc, y):
                raise Violation('inference-depends-on-history', f'vs a freshly built model with the same parameters: {first_diff(y, yc)}')
            if op['graph']:
                with graph_mode():
                    _, yg = attempt(ctx, 'graph', lambda: gen.as_list(tf.function(lambda t: m(t, training=False))(xs)))
                ctx.probe('graph-mode')
                if not same(yg, y):
                    raise Violation('graph-differs-from-eager', first_diff(yg, y))
        d = dict_diff(w0, weights(m))
        if d:
            raise Violation('inference-changed-state', d)
        if b0 is not None:
            d = dict_diff(b0, bits(m))
            if d:
                raise Violation('inference-changed-calibration', d)
        ctx.event('infer', dig(y), how)


# ====================================================================================================== C12
class C12:
    id = 'C12'

    @staticmethod
    def gen(rng, tier):
        if rng.chance(0.25):
            ops = [{'op': 'manual', 'seed': rng.seed32(), 'n': rng.randint(2, 8), 'scale': rng.pick([0.125, 0.5, 1.0, 4.0]), 'hash': rng.randrange(100), 'aggr': rng.chance(0.5), 'fmt': rng.pick([None, None, 'h5', 'keras']),
                    'fault': gen_fault(rng, 'convert', None) if rng.chance(0.3) else None}]
            return {'spec': manual.gen_net(rng), 'ops': ops}
        spec = gen.gen_spec(rng, train=True, stochastic=False, max_blocks=4, p_signature=0.25, acts=['relu', 'linear', 'relu6', 'tanh', 'sigmoid', 'leaky_relu'], w_act=0.8)
        ops = gen_history(rng, spec, 0, 2, [('train', 1), ('cal', 1), ('poke', 1), ('restart', 0.5)], p_fault=0.3)
        ops.append({'op': 'serve', 'seed': rng.seed32(), 'cal_n': rng.randint(2, 8), 'n': rng.randint(4, 12), 'aggr': rng.chance(0.5), 'hash': rng.randrange(100), 'restart': rng.chance(0.3), 'reg': rng.chance(0.4),
                    'faults': [{'row': rng.randrange(12), 'kind': rng.pick(['spike', 'drift', 'stuck', 'nan', 'inf', 'neg', 'edge']), 'mag': rng.pick([2.0, 4.0, 37.0, 300.0, 5000.0, 70000.0]), 'elem': rng.randrange(64)} for _ in range(rng.randint(1, 4))]})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        if any(op['op'] == 'manual' for op in case['ops']):
            for op in case['ops']:
                manual.serve(ctx, case['spec'], op)
            return
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'serve':
                C12.serve(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def serve(ctx, S, op):
        spec, m = S.spec, S.model
        cal = gen.data(spec, op['cal_n'], op['seed'])
        attempt(ctx, 'cal', lambda: trace(m, cal, 4))
        sat = 'WRAP' if op['aggr'] else 'SAT'
        _, p = attempt(ctx, 'convert', lambda: convert(m, {'aggr': op['aggr'], 'hash': op['hash'], 'reg': op.get('reg')}))
        if op['restart']:
            from .world import load, save
            path = ctx.path('.h5')
            attempt(ctx, 'save', lambda: p.save(path))
            _, p = attempt(ctx, 'load', lambda: load(path, 'h5'))
        try:
            prm = ref.params(spec, m)
            acc = cover_ranges(spec, prm, ref.ranges(spec, prm, cal), 1.0)
        except ref.Ambiguous:
            ctx.probe('serve:ambiguous-calibration')
            return
        base = gen.data(spec, op['n'], op['seed'] + 1)
        lst = [x.copy() for x in (base if isinstance(base, list) else [base])]
        q = 2.0 ** spec['df']
        hit = set()
        special = set()
        for f in op['faults']:
            row = f['row'] % op['n']
            x = lst[f['elem'] % len(lst)]
            flat = x[row].reshape(-1)
            e = f['elem'] % flat.size
            if f['kind'] == 'spike':
                flat[e] = f['mag']
            elif f['kind'] == 'neg':
                flat[e] = -f['mag'] - 1 / q
            elif f['kind'] == 'drift':
                flat[:] = flat + f['mag']
            elif f['kind'] == 'stuck':
                flat[:] = spec['rng'] * f['mag']
            elif f['kind'] == 'edge':
                flat[:] = -spec['rng'] if f['elem'] % 2 else spec['rng'] - 1 / q
            else:
                flat[e] = np.nan if f['kind'] == 'nan' else np.inf
                special.add(row)
            hit.add(row)
            ctx.fired('input:' + f['kind'])
        xs = lst if len(lst) > 1 else lst[0]
        _, y = attempt(ctx, 'proxy', lambda: gen.forward(p, xs))
        _, y0 = attempt(ctx, 'proxy', lambda: gen.forward(p, base))
        clean = [i for i in range(op['n']) if i not in hit]
        # 1. containment: healthy samples are answered as if nothing happened
        if not same([t[clean] for t in y], [t[clean] for t in y0]):
            raise Violation('fault-leaks-into-other-samples', first_diff([t[clean] for t in y], [t[clean] for t in y0]))
        _, y1 = attempt(ctx, 'proxy', lambda: gen.forward(p, base, 1))
        if not same(y1, y0):
            raise Violation('service-depends-on-batching-or-past', first_diff(y1, y0))
        # 2. every finite sample, in range or not, follows the declared fixed-point formats
        for row in range(op['n']):
            if row in special:
                continue
            one = gen.rows(xs, slice(row, row + 1))
            try:
                want = ref.deploy(spec, prm, acc, one, sat)
            except ref.Ambiguous:
                ctx.probe('serve:ambiguous')
                continue
            ctx.probe('serve:checked' + (':overflow' if row in hit else ''))
            got = [t[row:row + 1] for t in y]
            if not same(got, want):
                raise Violation('overflow-not-as-declared', f'{sat}, sample {row} ({"faulty" if row in hit else "healthy"} input): {first_diff(got, want)}')
        ctx.event('serve', [dig(t[[r for r in range(op["n"]) if r not in special]]) for t in y])
