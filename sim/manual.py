"""Hand-written proxies: plain Keras layers with explicit fixed-point quantizers of every rounding and overflow mode."""
import numpy as np

from . import gen, ref
from .env import P, keras, tf
from .world import Violation, attempt, convert, dig, first_diff, load, same

K = keras.layers
RND = list(ref.ROUND)
SAT = ['WRAP', 'SAT', 'SAT_SYM', 'SAT_ZERO', 'WRAP_SM']


def gen_fq(rng, shape):
    het = rng.chance(0.4)
    r = np.random.default_rng(rng.seed32())
    n = shape if het else [1]
    k = r.integers(0, 2, n) if rng.chance(0.7) else np.ones(n, int)
    b = k + r.integers(0 if het and rng.chance(0.3) else 1, 7, n)
    i = k + r.integers(-1, 4, n)
    b = np.where(b == k, 0, b)
    k, i = np.where(b == 0, 0, k), np.where(b == 0, 0, i)
    return {'k': k.tolist(), 'b': b.tolist(), 'i': i.tolist(), 'het': het, 'R': rng.pick(RND), 'S': rng.pick(SAT)}


def gen_net(rng):
    shape = rng.pick([[3], [4], [4, 4, 1], [6, 2]])
    nodes = []

    def add(cls, ins, **a):
        nodes.append({'id': f'n{len(nodes)}', 'cls': cls, 'in': ins, 'args': a})
        return nodes[-1]['id']
    s = list(shape)
    q = lambda x: add('FQ', [x], **gen_fq(rng, s))
    x = q('in0')
    for _ in range(rng.randint(0, 4)):
        k = rng.pick(['dense', 'dense', 'relu', 'q', 'add', 'concat', 'flatten', 'reshape'] + (['conv', 'conv', 'maxp', 'avgp'] if len(s) > 1 else []))
        if k == 'dense':
            u = rng.randint(1, 4)
            x, s = add('Dense', [x], units=u, bias=rng.chance(0.7)), s[:-1] + [u]
            x = q(x)
        elif k == 'conv':
            f = rng.randint(1, 3)
            x, s = add(f'Conv{len(s) - 1}D', [x], filters=f, bias=rng.chance(0.7)), s[:-1] + [f]
            x = q(x)
        elif k == 'relu':
            x = add('ReLU', [x])
        elif k == 'q':
            x = q(x)
        elif k == 'add':
            x = add('Add', [x, q(x)])
            x = q(x)
        elif k == 'concat':
            x, s = add('Concatenate', [x, q(x)]), s[:-1] + [2 * s[-1]]
        elif k == 'flatten':
            x, s = add('Flatten', [x]), [int(np.prod(s))]
        elif k == 'reshape':
            s = [int(np.prod(s)), 1]
            x = add('Reshape', [x], shape=s)
        elif k == 'maxp':
            x, s = add(f'MaxPooling{len(s) - 1}D', [x]), [-(-t // 2) for t in s[:-1]] + [s[-1]]
        elif k == 'avgp' and all(t % 2 == 0 for t in s[:-1]):
            x, s = add(f'AveragePooling{len(s) - 1}D', [x]), [t // 2 for t in s[:-1]] + [s[-1]]
            x = q(x)
    return {'inputs': [shape], 'nodes': nodes, 'outputs': [x], 'wseed': rng.seed32()}


def build(net):
    ts = {'in0': keras.Input(tuple(net['inputs'][0]))}
    i0 = ts['in0']
    for n in net['nodes']:
        a, c, nm = n['args'], n['cls'], n['id']
        ins = [ts[i] for i in n['in']]
        ins = ins[0] if len(ins) == 1 else ins
        if c == 'FQ':
            t = lambda v: tf.constant(np.array(v)[None] if a['het'] else np.array(v), dtype='int8')
            layer = P.FixedPointQuantizer(t(a['k']), t(a['b']), t(a['i']), a['R'], a['S'], name=nm)
        elif c == 'Dense':
            layer = K.Dense(a['units'], use_bias=a['bias'], name=nm)
        elif c.startswith('Conv'):
            layer = getattr(K, c)(a['filters'], 2, padding='same', use_bias=a['bias'], name=nm) if c != 'Concatenate' else K.Concatenate(name=nm)
        elif c.startswith('Max'):
            layer = getattr(K, c)(2, padding='same', name=nm)
        elif c.startswith('Average'):
            layer = getattr(K, c)(2, name=nm)
        elif c == 'Reshape':
            layer = K.Reshape(tuple(a['shape']), name=nm)
        else:
            layer = getattr(K, c)(name=nm)
        ts[nm] = layer(ins)
    m = keras.Model(i0, ts[net['outputs'][0]])
    r = np.random.default_rng(net['wseed'])
    for layer in m.layers:
        if hasattr(layer, 'kernel'):
            for w in layer.weights:
                w.assign((r.integers(-16, 17, w.shape) / 8).astype('float32'))
    return m


def serve(ctx, net, op):
    m = build(net)
    r = np.random.default_rng(op['seed'])
    x = (r.integers(-256, 256, [op['n']] + net['inputs'][0]) / 64 * op['scale']).astype('float32')
    qs = [layer for layer in m.layers if isinstance(layer, P.FixedPointQuantizer)]
    sub = keras.Model(m.inputs, [t for q in qs for t in (q.input, q.output)] + [m.output])
    _, outs = attempt(ctx, 'manual', lambda: gen.forward(sub, x))
    args = {n['id']: n['args'] for n in net['nodes']}
    for n, q in enumerate(qs):
        a = args[q.name]
        want = ref.fixed(outs[2 * n].astype(np.float64), *(np.array(a[v], np.float64) for v in 'kbi'), a['R'], a['S'])
        if not same([outs[2 * n + 1].astype(np.float64)], [want]):
            raise Violation('overflow-not-as-declared', f'{a["R"]}, {a["S"]}: {first_diff([outs[2 * n + 1]], [want])}')
        ctx.probe(f'unit:{a["R"]}:{a["S"]}')
    y = [outs[-1]]
    if op.get('fault'):
        attempt(ctx, 'convert', lambda: convert(m, {'reg': True, 'hash': op['hash']}), op['fault'])
    for reg in (False, True):
        _, p = attempt(ctx, 'convert', lambda: convert(m, {'reg': reg, 'hash': op['hash'], 'aggr': op['aggr']}))
        if op['fmt'] and reg:
            path = ctx.path('.' + op['fmt'])
            attempt(ctx, 'save', lambda: p.save(path))
            _, p = attempt(ctx, 'load', lambda: load(path, op['fmt']))
        bad = x.copy()
        bad[0].reshape(-1)[0] = np.nan
        _, z = attempt(ctx, 'proxy', lambda: gen.forward(p, bad))
        ctx.fired('input:nan')
        if not same([t[1:] for t in z], [t[1:] for t in y]):
            raise Violation('overflow-not-as-declared', f'hand-written proxy, precision_reg={reg}: {first_diff([t[1:] for t in z], [t[1:] for t in y])}')
        ctx.probe('manual' + (':reg' if reg else ''))
    ctx.event('manual', dig(y))
