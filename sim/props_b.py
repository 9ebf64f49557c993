"""C04 a checkpoint is the whole model | C05 conversion is pure and repeatable | C06 a saved proxy is the same circuit | C10 no deployment without calibration."""
import os

import numpy as np

from . import gen
from .env import FACTORY_KQ, FACTORY_PAQ, HGQ, P, U, HLayerBase, keras, process_reset, tf
from .hist import KINDS, Session, gen_fault, gen_history
from .props_a import lut_refusal_ok, spec_trainable
from .world import (CUSTOM, LineTrace, OpFailed, RngSeam, SimFault, SimInterrupt, Violation, attempt, bits, canon, clone, compile_, convert, dict_diff, dig, first_diff, frozen, kernels, load, plain,
                    proxy_obs, same, save, stream, trace, train, weights)


def cfgdiff(a, b, path=''):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f'{path}: {a!r} vs {b!r}'[:300]
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(set(a) ^ set(b))}'
        for k in a:
            d = cfgdiff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: length {len(a)} vs {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = cfgdiff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {a!r} vs {b!r}'[:300]


def unwrap(o):
    # one regularizer, four spellings: object, legacy dict, new dict, dict with bookkeeping
    if isinstance(o, dict):
        if 'class_name' in o and 'config' in o:
            return [o['class_name'].split('>')[-1], unwrap(o['config'])]
        return {k: unwrap(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unwrap(v) for v in o]
    return o


def configs(model):
    """What each quantized layer says about itself."""
    out = {}
    for n, layer in gen.layers(model).items():
        c = unwrap(plain(layer.get_config()))
        c.pop('build_config', None)
        c.pop('name', None)
        out[n] = c
    return out


def odd_defaults(seed):
    """Another process may well have set other defaults before it loads a checkpoint."""
    k, a = dict(FACTORY_KQ), dict(FACTORY_PAQ)
    k.update(init_bw=7, rnd_strategy='floor', skip_dims='all', exact_q_value=False, bw_clip=(-1, 1), regularizer=U.MonoL1(0.5), trainable=False)
    a.update(init_bw=6, rnd_strategy='floor', skip_dims='batch', exact_q_value=False, bw_clip=(-1, 1), regularizer=U.MonoL1(0.5), trainable=False)
    HGQ.set_default_kq_conf(k)
    HGQ.set_default_paq_conf(a)


def write(ctx, what, model, fmt, iofault):
    """Save; a first attempt may hit a full disk, in which case the caller retries elsewhere.  Returns the path."""
    if iofault:
        attempt(ctx, what, lambda: save(ctx, model, fmt), {'kind': 'io', 'at': iofault})
    return attempt(ctx, what, lambda: save(ctx, model, fmt))[1]


# ====================================================================================================== C04
class C04:
    id = 'C04'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=rng.chance(0.75), stochastic=rng.chance(0.7), p_bn=0.35, p_nested=0.12, max_blocks=3, extras=rng.chance(0.4))
        kinds = [('train', 2), ('cal', 1), ('poke', 1), ('predict', 0.7), ('fitcb', 0.6), ('convert', 0.5), ('cal_open', 0.4), ('tune', 0.7)]
        if not spec_trainable(spec):
            kinds = [k for k in kinds if k[0] not in ('train', 'fitcb')]
        ops = []
        for _ in range(rng.randint(1, 2 if tier == 'quick' else 4)):
            ops += gen_history(rng, spec, 0, 2 if tier == 'quick' else 4, kinds)
            op = {'op': 'ckpt', 'seed': rng.seed32(), 'fmt': rng.pick(['h5', 'h5', 'keras', 'weights', 'config']), 'io': rng.pick([0, 0, rng.randint(1, 40)]), 'odd': rng.chance(0.6), 'rngmode': rng.pick(['half', f'seed:{rng.randrange(99)}']),
                  'then': rng.chance(0.5), 'thaw': rng.chance(0.5), 'torn': rng.pick([0, 0, rng.random()])}
            if spec_trainable(spec):
                op['resume'] = {'steps': rng.randint(1, 3), 'bsz': rng.randint(2, 5), 'lr': rng.pick([0.01, 0.1]), 'seed': rng.seed32()}
                if rng.chance(0.5):
                    op['crash'] = rng.randint(1, 900)
            ops.append(op)
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'ckpt':
                C04.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def restore(ctx, S, op, path, cfg, fz):
        """A new process restores the model."""
        fmt = op['fmt']
        if fmt == 'config':
            def f():
                m = cfg[2].from_config(cfg[0], custom_objects={'relu6': tf.nn.relu6, 'leaky_relu': tf.nn.leaky_relu})
                m.set_weights(cfg[1])
                return m
            return attempt(ctx, 'load', f)[1]
        return attempt(ctx, 'load', lambda: load(path, fmt, S.spec, fz))[1]

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        fz = frozen(m)
        xs = gen.data(spec, 5, op['seed'])
        _, y0 = attempt(ctx, 'predict', lambda: gen.forward(m, xs))
        w0, c0 = weights(m), configs(m)
        path = cfg = None
        if op['fmt'] == 'config':
            cfg = attempt(ctx, 'save', lambda: (m.get_config(), m.get_weights(), type(m)))[1]
        else:
            path = write(ctx, 'save', m, op['fmt'], op['io'])
        ctx.probe('ckpt:' + op['fmt'])
        d = dict_diff(w0, weights(m)) or cfgdiff(c0, configs(m))
        if d:
            raise Violation('saving-changed-the-model', d)
        if op['torn'] and path and op['fmt'] != 'weights':
            # a crash during the write leaves a prefix of the file: loading it must fail, or give the model that was saved
            t = ctx.path(os.path.splitext(path)[1])
            with open(path, 'rb') as f, open(t, 'wb') as g:
                b = f.read()
                g.write(b[:int(len(b) * op['torn'])])
            ctx.fired('torn:' + op['fmt'])
            try:
                mt = attempt(ctx, 'load', lambda: load(t, op['fmt'], spec))[1]
            except OpFailed:
                mt = None
            if mt is not None:
                yt = gen.forward(mt, xs)
                if not same(yt, y0):
                    raise Violation('torn-checkpoint-accepted', first_diff(yt, y0))
        # the reference: what the process that saved would go on to do
        xc = gen.data(spec, 6, op['seed'] + 1)
        want = C04.future(ctx, S, m, op, xc)
        # restart
        S.model = None
        process_reset()
        if op['odd'] and op['fmt'] != 'weights':
            odd_defaults(0)
            ctx.probe('odd-defaults')
        m2 = C04.restore(ctx, S, op, path, cfg, fz)
        d = dict_diff(w0, weights(m2))
        if d:
            raise Violation('restored-weights-differ', f'{op["fmt"]}: {d}')
        if frozen(m2) != fz:
            raise Violation('restored-freezing-differs', f'{op["fmt"]}: {frozen(m2)} instead of {fz}')
        d = cfgdiff(c0, configs(m2))
        if d:
            raise Violation('restored-configuration-differs', f'{op["fmt"]}: {d}')
        _, y = attempt(ctx, 'predict', lambda: gen.forward(m2, xs))
        if not same(y, y0):
            raise Violation('restored-model-answers-differently', f'{op["fmt"]}: {first_diff(y, y0)}')
        if op.get('crash') and op.get('resume'):
            # the resumed training dies at an arbitrary line; everything in memory is lost; resume again from the same file
            compile_(m2, op['resume']['lr'])
            with RngSeam(op['rngmode']):
                attempt(ctx, 'train', lambda: train(m2, spec, op['resume']), {'kind': 'line', 'at': op['crash'], 'exc': 'interrupt'})
            process_reset()
            if op['odd'] and op['fmt'] != 'weights':
                odd_defaults(0)
            m2 = C04.restore(ctx, S, op, path, cfg, fz)
        got = C04.future(ctx, S, m2, op, xc)
        for (k, a), (_, b) in zip(want, got):
            if k == 'bits' or k == 'weights':
                d = dict_diff(a, b)
            elif k == 'outputs' or k == 'losses':
                d = None if same(a, b) else first_diff(a, b)
            else:
                d = None if a == b else f'{str(a)[:200]} vs {str(b)[:200]}'
            if d:
                raise Violation('restored-model-continues-differently', f'{op["fmt"]}: {k} after restart and {"resumed training" if op.get("resume") else "calibration"}: {d}')
        S.model = m2
        ctx.event('ckpt', dig(y0), [k for k, _ in got])

    @staticmethod
    def future(ctx, S, m, op, xc):
        """Forget ranges (they are not part of a checkpoint), calibrate, deploy, resume training, calibrate again."""
        spec = S.spec
        out = []
        _, bops = attempt(ctx, 'cal', lambda: trace(m, xc, 4))
        out.append(('bops', float(bops)))
        out.append(('bits', bits(m)))
        _, p = attempt(ctx, 'convert', lambda: convert(m, {'aggr': False}))
        out.append(('proxy', canon(proxy_obs(p))))
        if op.get('resume') and not gen.has(spec, 'Dropout'):
            HGQ.ResetMinMax.reset_minmax(m)
            if op.get('thaw'):
                for v in gen.hlayers(m).values():
                    v.trainable = True
            compile_(m, op['resume']['lr'])
            with RngSeam(op['rngmode']):
                _, losses = attempt(ctx, 'train', lambda: train(m, spec, op['resume']))
            out.append(('losses', [np.asarray(v) for v in losses]))
            out.append(('weights', weights(m)))
            attempt(ctx, 'cal', lambda: trace(m, xc, 4))
            out.append(('bits', bits(m)))
            out.append(('outputs', gen.forward(m, xc)))
            ctx.probe('resumed')
        return out


# ====================================================================================================== C05
def graph_shape(model):
    out = []
    for layer in model.layers:
        out.append((layer.name, type(layer).__name__, len(layer._inbound_nodes), len(layer._outbound_nodes)))
        if isinstance(layer, keras.Model):
            out += graph_shape(layer)
    return out


def state_of(model, xs):
    return {'weights': weights(model), 'bits': bits(model), 'config': configs(model), 'graph': graph_shape(model), 'outputs': gen.forward(model, xs),
            'flags': [bool(getattr(v, 'record_minmax', False)) for v in gen.layers(model).values()], 'trainable': [w.name for w in model.trainable_weights]}


def state_diff(a, b):
    for k in a:
        if k in ('weights', 'bits'):
            d = dict_diff(a[k], b[k])
        elif k == 'outputs':
            d = None if same(a[k], b[k]) else first_diff(a[k], b[k])
        elif k == 'config':
            d = cfgdiff(a[k], b[k])
        else:
            d = None if a[k] == b[k] else [x for x in zip(a[k], b[k]) if x[0] != x[1]][:3] or 'different length'
        if d:
            return f'{k}: {d}'
    return None


class C05:
    id = 'C05'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=rng.chance(0.6), stochastic=rng.chance(0.4), p_nested=0.15, p_multi_out=0.2, p_multi_in=0.2, max_blocks=4, acts=['relu', 'linear', 'tanh', 'sigmoid', 'relu6', 'leaky_relu', 'softmax'], w_act=2, p_twice=0.3, p_plain=0.15)
        kinds = [('cal', 2), ('poke', 1), ('restart', 1), ('convert', 1), ('tune', 0.5)] + ([('train', 2)] if spec_trainable(spec) else [])
        ops = gen_history(rng, spec, 0, 2, kinds)
        n = rng.randint(3, 5 if tier == 'quick' else 10)
        opts = [{'aggr': rng.chance(0.5), 'lut': rng.pick([0, 0, 128]), 'reg': rng.chance(0.4), 'acc': rng.pick([None, 0, 2])} for _ in range(2)]
        convs = []
        for _ in range(n):
            c = {'opt': rng.randrange(2), 'hash': rng.randrange(10000), 'act': rng.pick(['none', 'none', 'mutate-proxy', 'train-source', 'other-model', 'run'])}
            if rng.chance(0.35):
                c['fault'] = {'kind': 'line', 'at': rng.randint(1, 1200), 'exc': rng.pick(['fault', 'interrupt'])}
            convs.append(c)
        ops.append({'op': 'convs', 'seed': rng.seed32(), 'n': rng.randint(2, 8), 'opts': opts, 'convs': convs})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'convs':
                C05.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        xs = gen.data(spec, op['n'], op['seed'])
        drift = gen.data(spec, 4, op['seed'] + 1, 6.0)
        attempt(ctx, 'cal', lambda: trace(m, xs, 4))
        gen.forward(m, xs)  # widths are clipped at first use
        s0 = state_of(m, xs)
        first, kept = {}, []
        refused = set()
        for c in op['convs']:
            o = op['opts'][c['opt']]
            try:
                how, p = attempt(ctx, 'convert', lambda: convert(m, {**o, 'hash': c['hash']}), c.get('fault'))
            except OpFailed as e:
                if o['lut'] and isinstance(e.__cause__, AssertionError) and lut_refusal_ok(m, convert(m, {'aggr': o['aggr']}), xs):
                    refused.add(c['opt'])
                    ctx.probe('lut-refused')
                    how = 'refused'
                else:
                    raise
            d = state_diff(s0, state_of(m, xs))
            if d:
                raise Violation('conversion-changed-the-source', f'after a conversion that {"was aborted" if how == "fault" else "completed"}: {d}')
            if how != 'ok':
                continue
            obs = canon(proxy_obs(p))
            y = gen.forward(p, xs) + gen.forward(p, drift)
            if c['opt'] in refused:
                raise Violation('conversion-not-repeatable', 'refused once, accepted later, same model and options')
            if c['opt'] not in first:
                first[c['opt']] = (obs, y)
            else:
                o1, y1 = first[c['opt']]
                ctx.probe('repeated')
                if not same(y1, y):
                    raise Violation('conversion-not-repeatable', f'two conversions of the same model with the same options answer differently: {first_diff(y1, y)}')
                if o1 != obs:
                    raise Violation('conversion-not-repeatable', 'two conversions of the same model with the same options have different layers or formats')
            kept.append((p, y))
            if c['act'] == 'mutate-proxy':
                # the proxy is the caller's: writing to it must not reach the source model or other proxies
                q = attempt(ctx, 'convert', lambda: convert(m, {**o, 'hash': c['hash'] + 1}))[1]
                for w in q.weights:
                    w.assign(tf.zeros_like(w))
                if state_diff(s0, state_of(m, xs)):
                    raise Violation('proxy-shares-state-with-source', state_diff(s0, state_of(m, xs)))
                ctx.probe('mutated-proxy')
            elif c['act'] == 'other-model':
                t = Session(ctx, {**spec, 'wseed': spec['wseed'] ^ 5})
                attempt(ctx, 'cal', lambda: trace(t.model, gen.data(spec, 3, 3), 4))
                attempt(ctx, 'convert', lambda: convert(t.model, {'aggr': o['aggr'], 'hash': c['hash']}))
            elif c['act'] == 'run':
                attempt(ctx, 'proxy', lambda: gen.forward(p, drift, 1))
            elif c['act'] == 'train-source':
                # the source moves on; what has been deployed does not
                gen.init_weights(spec, m, c['hash'])
                attempt(ctx, 'cal', lambda: trace(m, gen.data(spec, 4, c['hash'], 3.0), 4))
                gen.forward(m, xs)
                ctx.probe('moved-source')
                for q, yq in kept:
                    yn = gen.forward(q, xs) + gen.forward(q, drift)
                    if not same(yn, yq):
                        raise Violation('proxy-follows-the-source', first_diff(yn, yq))
                s0 = state_of(m, xs)
                first, refused = {}, set()
        for q, yq in kept:
            yn = gen.forward(q, xs) + gen.forward(q, drift)
            if not same(yn, yq):
                raise Violation('proxy-changed-later', first_diff(yn, yq))
        ctx.event('convs', [v[0] for v in first.values()])


# ====================================================================================================== C06
class C06:
    id = 'C06'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=True, stochastic=False, p_nested=0.1, p_multi_out=0.15, p_multi_in=0.15, max_blocks=4, acts=['relu', 'linear', 'tanh', 'sigmoid', 'softmax', 'elu', 'relu6'], w_act=2)
        ops = gen_history(rng, spec, 0, 1, [('cal', 1), ('poke', 1), ('train', 1)])
        for _ in range(1 if tier == 'quick' else 2):
            ops.append({'op': 'ship', 'seed': rng.seed32(), 'n': rng.randint(2, 8), 'aggr': rng.chance(0.5), 'lut': rng.pick([0, 64, 512]), 'reg': rng.chance(0.5), 'acc': rng.pick([None, 0, 2]), 'hash': rng.randrange(1000),
                        'hops': [{'fmt': rng.pick(['h5', 'h5', 'keras', 'config']), 'io': rng.pick([0, 0, rng.randint(1, 40)]), 'odd': rng.chance(0.4), 'torn': rng.pick([0, 0, rng.random()])} for _ in range(rng.randint(1, 2))]})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'ship':
                C06.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        xs = gen.data(spec, op['n'], op['seed'])
        drift = gen.data(spec, 5, op['seed'] + 1, 9.0)
        attempt(ctx, 'cal', lambda: trace(m, xs, 4))
        try:
            _, p = attempt(ctx, 'convert', lambda: convert(m, op))
        except OpFailed as e:
            if op['lut'] and isinstance(e.__cause__, AssertionError) and lut_refusal_ok(m, convert(m, {'aggr': op['aggr']}), xs):
                ctx.probe('lut-refused')
                _, p = attempt(ctx, 'convert', lambda: convert(m, {**op, 'lut': 0}))
            else:
                raise
        y0 = gen.forward(p, xs) + gen.forward(p, drift)
        obs = canon(proxy_obs(p))
        ctx.probe('lut-layers', sum(isinstance(layer, P.UnaryLUT) for layer in p.layers))
        co = {'relu6': tf.nn.relu6, 'leaky_relu': tf.nn.leaky_relu}
        for hop in op['hops']:
            if hop['fmt'] == 'config':
                cfg, w = attempt(ctx, 'save', lambda: (p.get_config(), p.get_weights()))[1]

                def f():
                    q = keras.Model.from_config(cfg, custom_objects=co)
                    q.set_weights(w)
                    return q
            else:
                path = write(ctx, 'save', p, hop['fmt'], hop['io'])

                def f():
                    return load(path, hop['fmt'])
                if hop['torn']:
                    t = ctx.path(os.path.splitext(path)[1])
                    with open(path, 'rb') as fi, open(t, 'wb') as g:
                        b = fi.read()
                        g.write(b[:int(len(b) * hop['torn'])])
                    ctx.fired('torn:' + hop['fmt'])
                    try:
                        q = attempt(ctx, 'load', lambda: load(t, hop['fmt']))[1]
                    except OpFailed:
                        q = None
                    if q is not None:
                        yt = gen.forward(q, xs) + gen.forward(q, drift)
                        if not same(yt, y0):
                            raise Violation('torn-file-accepted', first_diff(yt, y0))
            if hop['io'] or hop['fmt'] == 'config':
                yn = gen.forward(p, xs) + gen.forward(p, drift)
                if not same(yn, y0) or canon(proxy_obs(p)) != obs:
                    raise Violation('saving-changed-the-proxy', first_diff(yn, y0))
            process_reset()
            if hop['odd']:
                odd_defaults(0)
            p = attempt(ctx, 'load', f)[1]
            ctx.probe('hop:' + hop['fmt'])
            yn = gen.forward(p, xs) + gen.forward(p, drift)
            if not same(yn, y0):
                k = len(yn) // 2
                raise Violation('restored-proxy-answers-differently', f'{hop["fmt"]}, {"in-range" if not same(yn[:k], y0[:k]) else "overflowing"} inputs: {first_diff(yn, y0)}')
            if canon(proxy_obs(p)) != obs:
                raise Violation('restored-proxy-has-other-formats', hop['fmt'])
        S.model = m
        ctx.event('ship', dig(y0), obs)


# ====================================================================================================== C10
class C10:
    id = 'C10'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=rng.chance(0.7), stochastic=rng.chance(0.4), p_nested=0.15, p_multi_in=0.2, max_blocks=4)
        kinds = [('cal', 2), ('cal_open', 0.8), ('predict', 1.2), ('reset', 1.2), ('poke', 0.8), ('restart', 1.2), ('resetone', 1), ('convert', 0.4), ('tune', 0.6)] + ([('train', 1.2), ('fitcb', 0.5)] if spec_trainable(spec) else [])
        ops = []
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 8)):
            k = gen_history(rng, spec, 1, 2, kinds)
            ops += k
            ops.append({'op': 'deploy?', 'seed': rng.seed32(), 'aggr': rng.chance(0.5), 'recover': rng.chance(0.4), 'lut': rng.pick([0, 0, 128])})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        spec = case['spec']
        S = Session(ctx, spec)
        names = list(gen.hlayers(S.model))
        if not names:
            return
        rec = {n: False for n in names}  # per layer: True recorded, False certainly nothing recorded, None unknown
        for op in case['ops']:
            k = op['op']
            if k == 'resetone':
                n = names[op['seed'] % len(names)]
                attempt(ctx, 'reset', lambda: gen.hlayers(S.model)[n].reset_minmax())
                rec[n] = False
                continue
            if k == 'deploy?':
                C10.check(ctx, S, op, rec)
                continue
            r, _ = S.do(op)
            if k in ('cal', 'cal_open'):
                rec = {n: True if r == 'ok' else None for n in names}
            elif k == 'train':
                rec = {n: True if r == 'ok' else (True if rec[n] else None) for n in names}
            elif k == 'fitcb':
                rec = {n: None for n in names}
                if r == 'ok':
                    last = op['cbs'][-1] if op['cbs'] else None
                    rec = {n: last != 'reset' for n in names}
            elif k in ('reset', 'restart'):
                rec = {n: False for n in names}
            elif k == 'predict' and (op['api'] == 'train_mode' or any(v.record_minmax for v in gen.hlayers(S.model).values())):
                rec = {n: True if r == 'ok' and op['api'] == 'train_mode' else (True if rec[n] else None) for n in names}

    @staticmethod
    def check(ctx, S, op, rec):
        spec, m = S.spec, S.model
        hl = gen.hlayers(m)
        b = bits(m)
        for n, st in rec.items():
            if st is False and b[n] is not None:
                raise Violation('format-without-calibration', f'layer {n} reports a fixed-point format although nothing was recorded since it was built, reset or restored')
            if st is True and b[n] is None:
                raise Violation('calibration-lost', f'layer {n} has no format although values were recorded')
            if b[n] is None:
                try:
                    with np.errstate(all='ignore'):
                        v = hl[n].act_bw_exact
                    raise Violation('width-without-calibration', f'layer {n}: exact width {np.asarray(v).ravel()[:3]} although nothing was recorded')
                except (AssertionError, ValueError):
                    pass
        missing = [n for n in b if b[n] is None]
        w0 = weights(m)
        if missing:
            ctx.probe('uncalibrated')
            try:
                attempt(ctx, 'convert', lambda: convert(m, op))
            except OpFailed as e:
                ctx.probe('refused')
                ctx.event('refused', type(e.__cause__).__name__)
            else:
                raise Violation('uncalibrated-model-deployed', f'to_proxy_model accepted the model although layers {missing} have no recorded range')
            d = dict_diff(w0, weights(m)) or dict_diff(b, bits(m))
            if d:
                raise Violation('refusal-changed-the-model', d)
        if op['recover'] or not missing:
            xs = gen.data(spec, 5, op['seed'])
            if missing or op['recover']:
                # calibrate now: must work, and give what a model without this history would give
                attempt(ctx, 'cal', lambda: trace(m, xs, 3))
                _, c = attempt(ctx, 'build', lambda: clone(spec, m))
                attempt(ctx, 'cal', lambda: trace(c, xs, 3))
                _, p = attempt(ctx, 'convert', lambda: convert(m, {'aggr': op['aggr']}))
                _, pc = attempt(ctx, 'convert', lambda: convert(c, {'aggr': op['aggr']}))
                if canon(proxy_obs(p)) != canon(proxy_obs(pc)):
                    raise Violation('deployment-depends-on-history', 'after recalibration the proxy differs from that of a fresh model with the same parameters')
                ya, yb = gen.forward(p, xs), gen.forward(pc, xs)
                if not same(ya, yb):
                    raise Violation('deployment-depends-on-history', first_diff(ya, yb))
                ctx.probe('recovered')
                for n in rec:
                    rec[n] = True
            else:
                attempt(ctx, 'convert', lambda: convert(m, {'aggr': op['aggr']}))
                ctx.probe('accepted')
        ctx.event('deploy?', missing)
