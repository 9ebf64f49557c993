"""C13 the declared hardware types carry the data path | C14 QKeras models convert bit exactly or are refused."""
import re

import numpy as np

from . import gen, ref
from .env import P, keras, process_reset
from .hist import KINDS_T as KINDS, Session, gen_fault, gen_history
from .props_a import lut_refusal_ok, reference, spec_trainable
from .world import (HashOrder, OpFailed, Violation, attempt, canon, convert, dig, first_diff, load, proxy_obs, same, targets, trace)

APF = re.compile(r'^(?:ap_)?(u?)fixed<\s*(-?\d+)\s*,\s*(-?\d+)\s*(?:,\s*(?:AP_)?(\w+)\s*)?(?:,\s*(?:AP_)?(\w+)\s*)?>$')


def cast(x, t):
    m = APF.match(str(t))
    if not m:
        raise Violation('not-a-type', f'{t!r} is not a fixed-point type')
    u, b, i, r, s = m.groups()
    return ref.fixed(x, np.float64(0 if u else 1), np.float64(int(b)), np.float64(int(i)), (r or 'TRN').upper(), (s or 'WRAP').upper())


def declared(p):
    """Types the proxy declares, by layer."""
    conf = {}
    for layer in p.layers:
        if isinstance(layer, P.FixedPointQuantizer):
            for n, c in layer.overrides['layers'].items():
                conf.setdefault(n, {}).update(dict(c))
    return conf


def table(layer, n, x):
    """Lookup tables of the declared size have an entry for every input: hls4ml spreads tanh over [-4, 4), sigmoid over [-8, 8), others over all codes."""
    r = {'tanh': 4, 'sigmoid': 8}.get(getattr(layer.activation, '__name__', ''))
    if r is None:
        x = np.unique(x)
        f = next((f for f in range(-32, 33) if np.all(np.mod(x * 2.0**f, 1) == 0)), None)
        need = 1 if x.size < 2 or f is None else int((x[-1] - x[0]) * 2.0**f) + 1
        if int(n) != n or n < need or int(n) & (int(n) - 1):
            raise Violation('table-too-small', f'{layer.name}: a table of {n} entries for {need} codes')
        return
    x = np.unique(x[(x >= -r) & (x < r)])
    if not x.size:
        return
    if int(n) != n or n < 1:
        raise Violation('table-too-small', f'{layer.name}: a table of {n} entries')
    i = np.clip(np.trunc(x * n / (2 * r)) + n // 2, 0, n - 1)
    if not np.array_equal(2 * r * (i - n / 2) / n, x):
        raise Violation('table-misses-inputs', f'{layer.name}: a table of {n} entries: inputs {x[:6].tolist()} read the entries made for {(2 * r * (i - n / 2) / n)[:6].tolist()}')


def machine(p, xs, eps=0.0):
    """A data path in which every value is held in the type declared for it: inputs, weights, biases, accumulators, results, tables."""
    conf = declared(p)
    vals, ncast = {}, [0]
    for t, x in zip(p.inputs, xs if isinstance(xs, list) else [xs]):
        vals[id(t.node)] = np.asarray(x, np.float64)
    done = {}

    def hold(y, c, k):
        if k not in c:
            return y
        ncast[0] += 1
        return cast(y, c[k])

    def ev(node):
        if id(node) in done:
            return done[id(node)]
        layer = node.layer
        c = conf.get(layer.name, {})
        if node.is_input:
            y = hold(vals[id(node)], c, 'result_t')
        else:
            ins = [ev(n) for n in node.parent_nodes]
            f32 = [i.astype('float32') for i in ins]
            if getattr(layer, 'kernel', None) is not None:
                for k in ('weight_t', 'accum_t', 'result_t') + (('bias_t',) if layer.use_bias else ()):
                    if k not in c:
                        raise Violation('type-missing', f'{layer.name} has no {k}')
                w = np.asarray(layer.kernel, np.float64)
                if not np.array_equal(hold(w, c, 'weight_t'), w):
                    raise Violation('weights-do-not-fit', f'{layer.name}: {c["weight_t"]}: {first_diff([cast(w, c["weight_t"])], [w])}')
                y = np.asarray(layer(f32[0]), np.float64)
                if layer.use_bias:
                    b = np.asarray(layer.bias, np.float64)
                    y = y - b + hold(b, c, 'bias_t')  # may wrap around as the accumulator does
                y = hold(hold(y, c, 'accum_t'), c, 'result_t')
            elif isinstance(layer, P.FixedPointQuantizer):
                k, b, i = (np.asarray(v, np.float64) for v in (layer.keep_negative, layer.bits, layer.integers))
                y = hold(ref.fixed(ins[0], k, b, i, layer.RND, layer.SAT), c, 'result_t')
            else:
                if isinstance(layer, keras.layers.Activation) and 'table_size' in c and len(ins) == 1:
                    table(layer, c['table_size'], ins[0])
                y = np.asarray(layer(f32[0] if len(ins) == 1 else f32), np.float64)
                if eps and getattr(getattr(layer, 'activation', None), '__name__', '') in ref.SMOOTH:
                    y = y * (1 + eps)
                y = hold(hold(y, c, 'table_t'), c, 'result_t')
        done[id(node)] = y
        return y
    return [ev(t.node) for t in p.outputs], ncast[0]


# ====================================================================================================== C13
class C13:
    id = 'C13'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=True, stochastic=False, max_blocks=4 if tier == 'quick' else 6, p_multi_out=0.15, p_multi_in=0.15)
        kinds = KINDS if spec_trainable(spec) else [k for k in KINDS if k[0] not in ('train', 'fitcb')]
        ops = gen_history(rng, spec, 0, 2 if tier == 'quick' else 5, kinds)
        ops.append({'op': 'types', 'seed': rng.seed32(), 'n': rng.randint(2, 12), 'bsz': rng.randint(1, 6), 'scale': rng.pick([1.0, 1.0, 0.25, 2.0]), 'cover': rng.pick([1.0, 1.0, 1.5]), 'lut': rng.pick([0, 0, 64, 1024]),
                    'aggr': rng.chance(0.5), 'hash': rng.randrange(1000), 'fmt': rng.pick([None, None, 'h5', 'keras']), 'fault': gen_fault(rng, 'convert', spec) if rng.chance(0.3) else None,
                    'wild': rng.pick([0, 2, 4, 16])})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'types':
                C13.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        xs = gen.data(spec, op['n'], op['seed'], 1.0 if gen.has(spec, 'Signature') else op['scale'])
        attempt(ctx, 'cal', lambda: trace(m, xs, op['bsz'], cover_factor=op['cover']))
        _, how = reference(spec, m, xs)
        if how != 'exact':
            ctx.probe('ambiguous')
            return
        o = {'aggr': op['aggr'], 'reg': True, 'lut': op['lut'], 'hash': op['hash']}
        if op.get('fault'):
            try:
                attempt(ctx, 'convert', lambda: convert(m, o), op['fault'])
            except OpFailed as e:
                if not isinstance(e.__cause__, AssertionError):
                    raise
        try:
            _, p = attempt(ctx, 'convert', lambda: convert(m, o))
        except OpFailed as e:
            _, p0 = attempt(ctx, 'convert', lambda: convert(m, {'aggr': op['aggr'], 'hash': op['hash']}))
            if op['lut'] and isinstance(e.__cause__, AssertionError) and lut_refusal_ok(m, p0, xs):
                ctx.probe('lut-refused')
                return
            raise
        if op['fmt']:
            path = ctx.path('.' + op['fmt'])
            attempt(ctx, 'save', lambda: p.save(path))
            _, p = attempt(ctx, 'load', lambda: load(path, op['fmt']))
        _, y = attempt(ctx, 'proxy', lambda: gen.forward(p, xs))
        z, n = machine(p, xs)
        if not n:
            raise Violation('type-missing', 'no types were declared')
        ctx.probe('typed-run')
        ctx.probe('casts', n)
        if not same(z, y):
            raise Violation('declared-types-lose-data', f'aggressive={op["aggr"]} lut={op["lut"]}: data path held in the declared types vs proxy: {first_diff(z, y)}')
        if op.get('wild'):  # overflowing inputs: the types must not get in the way of the declared overflow behaviour either
            r = np.random.default_rng(op['seed'] + 1)
            wild = [(np.asarray(x, np.float64) * op['wild'] * r.choice([1.0, -1.0, 0.5], (len(x),) + (1,) * (np.ndim(x) - 1))).astype('float32') for x in (xs if isinstance(xs, list) else [xs])]
            wild = wild if isinstance(xs, list) else wild[0]
            _, yw = attempt(ctx, 'proxy', lambda: gen.forward(p, wild))
            zw, _ = machine(p, wild)
            ctx.probe('typed-run:overflow')
            if not same(zw, yw) and any(n['cls'] == 'HActivation' for n in gen.walk(spec)):
                # a value of a transcendental function on a rounding boundary may fall on either side of it
                keep = np.ones(len(yw[0]), bool)
                for e in (-ref.TOL, ref.TOL):
                    for a, b in zip(machine(p, wild, e)[0], zw):
                        keep &= (a == b).reshape(len(keep), -1).all(1)
                ctx.probe('ambiguous-samples', int((~keep).sum()))
                zw, yw = [t[keep] for t in zw], [t[keep] for t in yw]
            if not same(zw, yw):
                raise Violation('declared-types-lose-overflow', f'aggressive={op["aggr"]} lut={op["lut"]}: data path held in the declared types vs proxy, overflowing inputs: {first_diff(zw, yw)}')
        ctx.event('types', dig(y), sorted((k, sorted((a, str(b)) for a, b in c.items())) for k, c in declared(p).items() if not k.startswith(('re_lu', 'input', 'unary'))))


# ====================================================================================================== C14
def qb(rng):
    kn = int(rng.chance(0.85))
    i = rng.randint(0, 3)
    f = rng.pick([1, 2, 3, 4, 1, 2, 3, 4, 0, -1])
    return ['bits', kn + max(i + f, 1), i, kn, int(rng.chance(0.3)) if kn else 0]


def mkq(q):
    from qkeras import quantizers as Q
    if q is None:
        return None
    if q[0] == 'bits':
        return Q.quantized_bits(q[1], q[2], alpha=1.0, keep_negative=bool(q[3]), symmetric=q[4])
    if q[0] == 'relu':
        return Q.quantized_relu(q[1], q[2])
    return {'binary': lambda: Q.binary(alpha=1.0), 'ternary': lambda: Q.ternary(alpha=1.0), 'po2': lambda: Q.quantized_po2(4), 'hswish': lambda: Q.quantized_hswish(5, 2, alpha=1.0), 'slope': lambda: Q.quantized_relu(5, 2, negative_slope=0.25),
            'auto': lambda: Q.quantized_bits(4, 0, alpha='auto_po2'), 'relupo2': lambda: Q.quantized_relu_po2(4)}[q[0]]()


def gen_qnet(rng, tier):
    shape = rng.pick([[3], [4], [6], [4, 4, 1], [5, 4, 2], [6, 2], [5, 1]])
    nodes = []
    train = rng.chance(0.5)

    def add(cls, ins, **a):
        nodes.append({'id': f'n{len(nodes)}', 'cls': cls, 'in': ins, 'args': a})
        return nodes[-1]['id']
    x = add('QActivation', ['in0'], q=qb(rng))
    s = list(shape)
    for _ in range(rng.randint(1, 4 if tier == 'quick' else 7)):
        o = ['dense', 'dense', 'relu', 'qrelu', 'qact', 'reshape', 'leaky', 'dropout', 'shared']
        if len(s) > 1:
            o += ['conv', 'conv', 'flatten', 'maxpool', 'avgpool']
        if len(s) == 3:
            o += ['qavg', 'qgavg']
        if len(s) == 1:
            o += ['concat', 'add']
        k = rng.pick(o)
        act = rng.pick([None, qb(rng), qb(rng), qb(rng), ['relu', rng.randint(2, 6), rng.randint(0, 2)]])
        kqz, bqz = qb(rng), qb(rng)
        kqz[3] = bqz[3] = 1
        if rng.chance(0.25):
            kqz = rng.pick([['binary'], ['ternary'], ['po2']] + ([] if train else [None]))
        if not train and rng.chance(0.2):
            bqz = None
        wq = dict(kq=kqz, bq=bqz, bias=rng.chance(0.8))
        if k in ('dense', 'shared'):
            u = rng.randint(1, 4) if k == 'dense' else s[-1]
            x = add('QDense', [x], units=u, act=act, **wq)
            if k == 'shared' and len(s) == 1:
                first = nodes[-1]['id']
                if act is None:
                    x = add('QActivation', [x], q=qb(rng))
                if rng.chance(0.5):
                    x = add('Activation', [x])
                x = add('Again', [x], of=first)
                if act is None:
                    x = add('QActivation', [x], q=qb(rng))
            elif act is None:
                x = add('QActivation', [x], q=qb(rng))
            s = s[:-1] + [u]
        elif k == 'conv':
            r, f, ks = len(s) - 1, rng.randint(1, 3), [rng.randint(1, min(3, t)) for t in s[:-1]]
            pad = rng.pick(['valid', 'same'])
            st = rng.randint(1, 2)
            dl = 2 if st == 1 and rng.chance(0.3) else 1
            if pad == 'valid' and any((q - 1) * dl >= t for t, q in zip(s[:-1], ks)):
                dl = 1
            x = add(f'QConv{r}D', [x], filters=f, ks=ks, pad=pad, st=st, dl=dl, act=act, **wq)
            if act is None:
                x = add('QActivation', [x], q=qb(rng))
            s = [-(-t // st) if pad == 'same' else (t - (q - 1) * dl - 1) // st + 1 for t, q in zip(s[:-1], ks)] + [f]
        elif k == 'relu':
            x = add('Activation', [x])
        elif k == 'leaky':
            x = add('QActivation', [add('LeakyReLU', [x])], q=qb(rng))
        elif k == 'dropout':
            x = add('Dropout', [x])
        elif k == 'qrelu':
            x = add('QActivation', [x], q=['relu', rng.randint(2, 6), rng.randint(0, 3)])
        elif k == 'qact':
            x = add('QActivation', [x], q=qb(rng))
        elif k == 'flatten':
            x, s = add('Flatten', [x]), [int(np.prod(s))]
        elif k == 'reshape':
            n = int(np.prod(s))
            s = rng.pick([t for t in ([n], [2, n // 2] if n % 2 == 0 else None, [n, 1]) if t])
            x = add('Reshape', [x], shape=s)
        elif k in ('maxpool', 'avgpool', 'qavg'):
            ps = [min(2, t) for t in s[:-1]]
            x = add({'maxpool': f'MaxPooling{len(s) - 1}D', 'avgpool': f'AveragePooling{len(s) - 1}D', 'qavg': 'QAveragePooling2D'}[k], [x], ps=ps, **({'aq': qb(rng)} if k == 'qavg' and rng.chance(0.5) else {}))
            if k != 'qavg' and rng.chance(0.4):
                nodes[-1]['args'].update(st=rng.randint(1, 2), pad=rng.pick(['valid', 'same']))
                st, pad = nodes[-1]['args']['st'], nodes[-1]['args']['pad']
                s = [-(-t // st) if pad == 'same' else (t - q) // st + 1 for t, q in zip(s[:-1], ps)] + [s[-1]]
            else:
                s = [t // q for t, q in zip(s[:-1], ps)] + [s[-1]]
            if k != 'maxpool':
                x = add('QActivation', [x], q=qb(rng))
        elif k == 'qgavg':
            x = add('QActivation', [add('QGlobalAveragePooling2D', [x], **({'aq': qb(rng)} if rng.chance(0.6) else {}))], q=qb(rng))
            s = s[-1:]
        elif k == 'concat':
            y = add('QDense', [x], units=2, act=qb(rng), **wq)
            x, s = add('Concatenate', [x, y]), s[:-1] + [s[-1] + 2]
        elif k == 'add':
            y = add('QDense', [x], units=s[-1], act=qb(rng), **wq)
            x = add('QActivation', [add('Add', [x, y])], q=qb(rng))
    odd = None
    if rng.chance(0.12):
        odd = rng.pick(['hswish', 'slope', 'auto', 'relupo2', 'ternary', 'sep'])
        if odd == 'sep':
            if len(s) == 3:
                x = add('QActivation', [add('QSeparableConv2D', [x], filters=2, dq=qb(rng))], q=qb(rng))
            elif len(s) == 2:
                x = add('QActivation', [add('QSeparableConv1D', [x], filters=2, dq=qb(rng))], q=qb(rng))
            else:
                odd = None
        else:
            x = add('QActivation', [x], q=[odd])
    return {'inputs': [shape], 'nodes': nodes, 'outputs': [x], 'wseed': rng.seed32()}, train


def build_q(net):
    import qkeras
    ts = {'in0': keras.Input(tuple(net['inputs'][0]))}
    i0, ls = ts['in0'], {}
    for n in net['nodes']:
        a, c, nm = n['args'], n['cls'], n['id']
        ins = [ts[i] for i in n['in']]
        ins = ins[0] if len(ins) == 1 else ins
        w = dict(kernel_quantizer=mkq(a['kq']), bias_quantizer=mkq(a['bq']), activation=mkq(a['act']), use_bias=a['bias']) if 'kq' in a else {}
        if c == 'QActivation':
            layer = qkeras.QActivation(mkq(a['q']), name=nm)
        elif c == 'QDense':
            layer = qkeras.QDense(a['units'], name=nm, **w)
        elif c.startswith('QConv'):
            layer = getattr(qkeras, c)(a['filters'], tuple(a['ks']), padding=a['pad'], strides=a['st'], dilation_rate=a.get('dl', 1), name=nm, **w)
        elif c.startswith('QSep'):
            layer = getattr(qkeras, c)(a['filters'], 1, depthwise_quantizer=mkq(a['dq']), pointwise_quantizer=mkq(a['dq']), bias_quantizer=mkq(a['dq']), name=nm)
        elif c == 'QAveragePooling2D':
            layer = qkeras.QAveragePooling2D(tuple(a['ps']), average_quantizer=mkq(a.get('aq')), name=nm)
        elif c == 'QGlobalAveragePooling2D':
            layer = qkeras.QGlobalAveragePooling2D(average_quantizer=mkq(a.get('aq')), name=nm)
        elif c == 'Again':
            layer = ls[a['of']]
        elif c == 'Activation':
            layer = keras.layers.Activation('relu', name=nm)
        elif c == 'LeakyReLU':
            layer = keras.layers.LeakyReLU(0.25, name=nm)
        elif c == 'Dropout':
            layer = keras.layers.Dropout(0.5, name=nm)
        elif c == 'Reshape':
            layer = keras.layers.Reshape(tuple(a['shape']), name=nm)
        elif 'Pooling' in c:
            layer = getattr(keras.layers, c)(tuple(a['ps']), strides=a.get('st'), padding=a.get('pad', 'valid'), name=nm)
        else:
            layer = getattr(keras.layers, c)(name=nm)
        ls[nm] = layer
        ts[nm] = layer(ins)
    m = keras.Model(i0, ts[net['outputs'][0]])
    poke(m, net['wseed'])
    return m


def poke(m, seed):
    r = np.random.default_rng(seed)
    for w in m.weights:
        w.assign((r.integers(-64, 65, w.shape) / 32).astype('float32'))


def qdata(net, n, seed, scale):
    r = np.random.default_rng(seed)
    return (r.integers(-256, 256, [n] + net['inputs'][0]) / 64 * scale).astype('float32')


def refusable(net):
    """Elements that cannot be expressed in the proxy: the conversion may (and unless it is exact must) refuse them."""
    for n in net['nodes']:
        a = n['args']
        if a.get('q') and a['q'][0] in ('hswish', 'slope', 'auto', 'relupo2', 'ternary'):
            return True
        if n['cls'].startswith('QSep') or a.get('aq'):
            return True
    return False


class C14:
    id = 'C14'

    @staticmethod
    def gen(rng, tier):
        net, train = gen_qnet(rng, tier)
        ops = []
        for _ in range(rng.randint(1, 2 if tier == 'quick' else 4)):
            for _ in range(rng.randint(0, 2)):
                k = rng.pick(['train', 'train', 'poke', 'convert', 'predict'] if train else ['poke', 'convert', 'predict'])
                op = {'op': k, 'seed': rng.seed32(), 'n': rng.randint(1, 4), 'reg': rng.chance(0.5), 'aggr': rng.chance(0.5)}
                if k in ('train', 'convert') and rng.chance(0.5):
                    op['fault'] = {'kind': 'line', 'at': max(1, int(500 ** rng.random())), 'exc': rng.pick(['fault', 'interrupt'])}
                ops.append(op)
            ops.append({'op': 'deploy', 'seed': rng.seed32(), 'n': rng.randint(2, 12), 'scale': rng.pick([0.25, 1.0, 1.0, 4.0]), 'hash': rng.randrange(1000), 'fmt': rng.pick([None, None, 'h5', 'keras']), 'types': rng.chance(0.5)})
        return {'spec': net, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        net = case['spec']
        m = build_q(net)
        for op in case['ops']:
            x = qdata(net, op['n'], op['seed'], op.get('scale', 1.0))
            if op['op'] == 'poke':
                poke(m, op['seed'])
            elif op['op'] == 'predict':
                attempt(ctx, 'predict', lambda: gen.forward(m, x))
            elif op['op'] == 'train':
                m.compile(keras.optimizers.SGD(0.05, clipnorm=1.0), 'mse', run_eagerly=True)
                attempt(ctx, 'train', lambda: m.train_on_batch(x, targets(m, op['n'], op['seed'])), op.get('fault'))
            elif op['op'] == 'convert':
                try:
                    attempt(ctx, 'convert', lambda: convert(m, {'aggr': op['aggr'], 'reg': op['reg']}), op.get('fault'))
                except OpFailed:
                    if not refusable(net):
                        raise
            else:
                C14.deploy(ctx, net, m, op, x)
            ctx.event(op['op'], op['seed'])

    @staticmethod
    def deploy(ctx, net, m, op, x):
        w0 = [w.numpy() for w in m.weights]
        _, y = attempt(ctx, 'predict', lambda: gen.forward(m, x))
        seen = {}
        for aggr, reg in ((False, False), (False, True), (True, False), (True, True)):
            try:
                _, p = attempt(ctx, 'convert', lambda: convert(m, {'aggr': aggr, 'reg': reg, 'hash': op['hash']}))
            except OpFailed:
                if not refusable(net):
                    raise
                ctx.probe('refused')
                p = None
            if not same([w.numpy() for w in m.weights], w0) or not same(gen.forward(m, x), y):
                raise Violation('source-changed', f'converting (aggressive={aggr}) changed the QKeras model')
            if p is None:
                continue
            if op['fmt'] and not aggr:
                path = ctx.path('.' + op['fmt'])
                attempt(ctx, 'save', lambda: p.save(path))
                process = load(path, op['fmt'])
                if canon(proxy_obs(process)) != canon(proxy_obs(p)):
                    raise Violation('restored-circuit-differs', f'from {op["fmt"]}')
                p = process
            _, z = attempt(ctx, 'proxy', lambda: gen.forward(p, x))
            if not aggr:
                if not same(z, y):
                    raise Violation('proxy-not-bit-exact', f'precision_reg={reg}: proxy vs QKeras model: {first_diff(z, y)}')
                ctx.probe('exact' + (':reg' if reg else ''))
                seen[reg] = p
                if reg and op['types']:
                    t, n = machine(p, x)
                    if not same(t, y):
                        raise Violation('declared-types-lose-data', f'data path held in the declared types vs QKeras model: {first_diff(t, y)}')
                    ctx.probe('typed-run')
            elif False in seen:
                keep = np.flatnonzero(~overflowing(seen[False], x))
                ctx.probe('wrapping-in-range', len(keep))
                if not same([t[keep] for t in z], [t[keep] for t in y]):
                    raise Violation('proxy-not-bit-exact', f'aggressive, precision_reg={reg}, samples without any overflow: proxy vs QKeras model: {first_diff([t[keep] for t in z], [t[keep] for t in y])}')
        ctx.event('deploy', dig(y))


def overflowing(p, x):
    """Samples for which some quantizer of the (saturating) proxy overflows."""
    qs = [layer for layer in p.layers if isinstance(layer, P.FixedPointQuantizer)]
    sub = keras.Model(p.inputs, [t for q in qs for t in (q.input, q.output)])
    outs = gen.forward(sub, x)
    bad = np.zeros(len(x), bool)
    for n, q in enumerate(qs):
        a, b = outs[2 * n].astype(np.float64), outs[2 * n + 1].astype(np.float64)
        k, bits, i = (np.asarray(v, np.float64) for v in (q.keep_negative, q.bits, q.integers))
        free = ref.fixed(a, np.float64(1), np.float64(40) + bits - i, np.float64(40), q.RND, 'SAT')
        bad |= (free != b).reshape(len(x), -1).any(1)
    return bad
