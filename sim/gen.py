"""Seeded generation of HGQ models (as JSON) and of input data, and construction of the real keras model from the JSON.

A *spec* is a JSON dict; nothing about a run lives outside it, so a replay file rebuilds the same model in another process.
  {'inputs': [[4], ...], 'nodes': [node...], 'outputs': [id...], 'wseed': int, 'df': int, 'rng': float}
  node = {'id', 'cls', 'in': [ids], 'args': {...}, 'kq': conf|None, 'paq': conf|None, 'beta': float}
"""
import copy

import numpy as np

from .env import HGQ, L, keras, tf
from .rng import Rng

KERNEL = ('HDense', 'HDenseBatchNorm', 'HConv1D', 'HConv1DBatchNorm', 'HConv2D', 'HConv2DBatchNorm')
HCLS = KERNEL + ('HQuantize', 'HActivation', 'HAdd')
SMOOTH = ('tanh', 'sigmoid', 'softmax', 'elu', 'leaky_relu')


# ------------------------------------------------------------------------------------------------------ quantizer configurations
def gen_conf(rng, kind, rank, stochastic=True):
    """kind: 'k' (kernel; rank = kernel rank) or 'a' (activation; rank includes the batch axis)."""
    if kind == 'k':
        skips = [None, 'none', 'all', 'except_last'] + ([[0]] if rank >= 2 else []) + ([[1]] if rank >= 2 else []) + ([[0, 1]] if rank >= 3 else [])
        if rank >= 3:
            skips.append('except_1st')
    else:
        skips = ['batch', [0], 'all', 'except_last'] + (['except_1st', [0, 1], [0, 2]] if rank >= 3 else []) + ([[0, 1, 2]] if rank == 4 else [])
    rnds = ['standard_round', 'standard_round', 'floor', 0, 3] + (['stochastic_round', 'fast_uniform_noise_injection', 1] if stochastic else [])
    if kind == 'a':
        rnds += ['auto', 'auto']
    return {'init_bw': rng.randint(1, 4), 'skip_dims': rng.pick(skips), 'rnd_strategy': rng.pick(rnds), 'exact_q_value': rng.chance(0.8),
            'bw_clip': rng.pick([[-23, 23], [-23, 23], [-2, 4], [0, 5]]), 'trainable': rng.chance(0.85), 'regularizer': rng.pick([0., 2.5e-6, 1.25e-3, None])}


def real_conf(conf, kind):
    if conf is None:
        return None
    c = dict(conf)
    c['skip_dims'] = tuple(c['skip_dims']) if isinstance(c['skip_dims'], list) else c['skip_dims']
    c['bw_clip'] = tuple(c['bw_clip'])
    r = c['regularizer']
    c['regularizer'] = None if r is None else HGQ.utils.utils.MonoL1(r)
    c.setdefault('dtype', None)
    if kind == 'a':
        c['minmax_record'] = True
    return c


# ------------------------------------------------------------------------------------------------------ topology
class G:
    def __init__(self, rng, prof):
        self.rng, self.prof, self.nodes, self.n = rng, prof, [], 0

    def add(self, cls, ins, shape, args=None, krank=None, q=True):
        rng = self.rng
        node = {'id': f'{self.prof.get("prefix", "n")}{self.n}', 'cls': cls, 'in': list(ins), 'args': args or {}}
        self.n += 1
        if q:
            st = self.prof.get('stochastic', True)
            node['kq'] = gen_conf(rng, 'k', krank, st) if krank and rng.chance(0.75) else None
            node['paq'] = gen_conf(rng, 'a', len(shape) + 1, st) if rng.chance(0.8) else None
            node['beta'] = rng.pick([0., 0., 1.3e-5, 1e-3])
            if krank and node['args'].get('activation') == 'relu' and rng.chance(0.2):
                node['actfn'] = rng.pick(['nn', 'keras', 'caps'])  # relu as a function instead of by name
        self.nodes.append(node)
        return node['id'], shape

    # -- single blocks: (id, shape) -> (id, shape)
    def source(self, inp, shape):
        if self.rng.chance(self.prof.get('p_signature', 0.2)):
            df, r = self.prof['df'], self.prof['rng']
            i = int(np.log2(r))
            ib, fb = 1 + i, df
            if self.rng.chance(0.5):  # wider than the data needs, element by element
                ib, fb = ([v + self.rng.randrange(3) for _ in range(shape[-1])] for v in (ib, fb))
            bits = [a + b for a, b in zip(ib, fb)] if isinstance(ib, list) else ib + fb
            return self.add('Signature', [inp], shape, {'keep_negative': 1, 'bits': bits, 'int_bits': ib}, q=False)
        return self.add('HQuantize', [inp], shape)

    def dense(self, x, shape, units=None):
        rng = self.rng
        bn = rng.chance(self.prof.get('p_bn', 0.25))
        units = units or rng.randint(1, 4)
        args = {'units': units, 'activation': rng.pick([None, 'relu', 'relu', 'linear']), 'use_bias': rng.chance(0.8)}
        if bn:
            args.update(self.bnargs())
        elif len(shape) > 1 and rng.chance(0.5):
            args['parallel_factor'] = rng.pick([1, 2])
        if rng.chance(0.15):
            args['do_adapt_kernel_bits'] = False
        if self.prof.get('extras'):
            self.extras(args, bn)
        return self.add('HDenseBatchNorm' if bn else 'HDense', [x], list(shape[:-1]) + [units], args, krank=2)

    def extras(self, args, bn):
        """Options of the Keras base layers."""
        for k in ('kernel', 'bias') + (('gamma', 'beta') if bn else ()):
            if self.rng.chance(0.25):
                args[k + '_constraint'] = self.rng.pick(['unit_norm', 'non_neg'])
            if self.rng.chance(0.25):
                args[k + '_regularizer'] = self.rng.pick(['l1', 'l2'])

    def bnargs(self):
        rng = self.rng
        return {'center': rng.chance(0.8), 'scale': rng.chance(0.8), 'epsilon': rng.pick([1e-3, 1e-3, 0.5, 0.0625]), 'momentum': rng.pick([0.99, 0.9, 0.5, 0.0])}

    def conv(self, x, shape):
        rng = self.rng
        rank = len(shape) - 1
        bn = rng.chance(self.prof.get('p_bn', 0.25))
        filters = rng.randint(1, 3)
        ks = [rng.randint(1, min(3, s)) for s in shape[:-1]]
        padding = rng.pick(['valid', 'same'])
        strides, dil = [1] * rank, [1] * rank
        z = rng.random()
        if z < 0.3:
            strides = [rng.randint(1, 2)] * rank if rank == 2 else [rng.randint(1, 2)]
        elif z < 0.5:
            dil = [2 if (k - 1) * 2 + 1 <= s else 1 for k, s in zip(ks, shape[:-1])]
            if rank == 2 and len(set(dil)) > 1 and not self.prof.get('anisotropic_dilation', True):
                dil = [1, 1]
        groups = 1
        if shape[-1] % 2 == 0 and rng.chance(0.15) and not self.prof.get('train', False):
            groups, filters = 2, 2
        out = []
        for s, k, st, d in zip(shape[:-1], ks, strides, dil):
            out.append(-(-s // st) if padding == 'same' else -(-(s - (k - 1) * d) // st))
        args = {'filters': filters, 'kernel_size': ks, 'padding': padding, 'strides': strides, 'dilation_rate': dil, 'groups': groups,
                'activation': rng.pick([None, 'relu', 'relu', 'linear']), 'use_bias': rng.chance(0.8), 'parallel_factor': rng.pick([1, 1, 2])}
        if bn:
            args.update(self.bnargs())
        if rng.chance(0.15):
            args['do_adapt_kernel_bits'] = False
        if self.prof.get('extras'):
            self.extras(args, bn)
        return self.add(f'HConv{rank}D' + ('BatchNorm' if bn else ''), [x], out + [filters], args, krank=rank + 2)

    def act(self, x, shape):
        return self.add('HActivation', [x], shape, {'activation': self.rng.pick(self.prof.get('acts', ['relu', 'linear', 'tanh', 'sigmoid', 'softmax', 'relu6', 'elu', 'leaky_relu']))})

    def pool(self, x, shape):
        rank = len(shape) - 1
        avg = self.rng.chance(0.4)
        padding = self.rng.pick(['valid', 'same']) if not avg else 'valid'
        p = [2 if s >= 2 else 1 for s in shape[:-1]]
        if rank == 2 and self.rng.chance(0.3):
            p[self.rng.randrange(2)] = 1
        st = list(p)
        if padding == 'valid' and self.rng.chance(0.3):
            st = [1] * rank
        out = [(-(-s // t) if padding == 'same' else (s - k) // t + 1) for s, k, t in zip(shape[:-1], p, st)]
        a = {'pool_size': p if rank == 2 else p[0], 'strides': st if rank == 2 else st[0], 'padding': padding}
        return self.add(('PAveragePooling' if avg else 'PMaxPooling') + f'{rank}D', [x], out + [shape[-1]], a, q=False)

    def flatten(self, x, shape):
        return self.add('PFlatten', [x], [int(np.prod(shape))], q=False)

    def reshape(self, x, shape):
        n = int(np.prod(shape))
        opts = [s for s in ([n], [2, n // 2] if n % 2 == 0 else None, [n // 2, 2] if n % 2 == 0 else None, [n, 1], [2, n // 4, 2] if n % 4 == 0 else None, [n // 3, 3] if n % 3 == 0 else None) if s]
        s = self.rng.pick(opts)
        return self.add('PReshape', [x], s, {'target_shape': s}, q=False)

    def permute(self, x, shape):
        d = list(range(1, len(shape) + 1))
        self.rng.shuffle(d)
        return self.add('PPermute', [x], [shape[i - 1] for i in d], {'dims': d}, q=False)

    def dropout(self, x, shape):
        return self.add('PDropout', [x], shape, {'rate': 0.5}, q=False)

    def add_(self, x, shape):
        rng = self.rng
        b = []
        for _ in range(rng.randint(1, 2)):
            y, s = (self.dense(x, shape, units=shape[-1]) if rng.chance(0.6) else self.act(x, shape) if rng.chance(0.5) else self.add('HQuantize', [x], shape))
            b.append(y)
        ins = ([x] if rng.chance(0.6) or len(b) == 1 else []) + b
        if rng.chance(0.1):
            ins.append(rng.pick(ins))  # the same tensor twice
        return self.add('HAdd', ins, shape)

    def concat(self, x, shape):
        if len(shape) > 1 and self.rng.chance(0.4):
            y, s = self.dense(x, shape, units=shape[-1])
            return self.add('PConcatenate', [y, x] if self.rng.chance(0.5) else [x, y], [2 * shape[0]] + list(shape[1:]), {'axis': 1}, q=False)
        y, s = self.dense(x, shape)
        z, t = self.dense(x, shape) if self.rng.chance(0.5) else (x, shape)
        return self.add('PConcatenate', [y, z], list(shape[:-1]) + [s[-1] + t[-1]], {'axis': -1}, q=False)

    def nested(self, x, shape):
        rng = self.rng
        g = G(rng, {**self.prof, 'prefix': f'{self.prof.get("prefix", "n")}{self.n}_', 'deep': True, 'p_nested': 0 if self.prof.get('deep') else 0.25})
        n_in, ins = 1, [x]
        y, s = g.add('HQuantize', ['in0'], shape)
        if rng.chance(0.25):
            n_in = 2
            z, _ = g.add('HQuantize', ['in1'], shape)
            y, s = g.add('HAdd', [y, z], shape)
            ins.append(self.dense(x, shape, units=shape[-1])[0] if rng.chance(0.6) else x)
            rng.shuffle(ins)
        trail = [(y, s)]
        for _ in range(rng.randint(1, 2)):
            y, s = g.block(y, s)
            trail.append((y, s))
        outs = [trail[-1]]
        if rng.chance(0.3):
            outs.append(rng.pick(trail[:-1]))
            rng.shuffle(outs)
        sub = {'inputs': [list(shape)] * n_in, 'nodes': g.nodes, 'outputs': [o for o, _ in outs]}
        sub['seq'] = linear(sub) and all(n['cls'] != 'Model' for n in g.nodes) and rng.chance(0.5)
        x, _ = self.add('Model', ins, outs[0][1], {'spec': sub}, q=False)
        if n_in == 1 and len(outs) == 1 and rng.chance(self.prof.get('p_twice', 0.0)) and outs[0][1] == list(shape):
            x, _ = self.add('Model', [x], shape, {'spec': sub}, q=False)  # the same model again, on what it returned
            self.nodes[-1]['reuse'] = self.nodes[-2]['id']
        used = [(x if j == 0 else f'{x}:{j}', o[1]) for j, o in enumerate(outs)]
        if len(used) == 2 and rng.chance(0.3):
            used = [rng.pick(used)]
        used = [self.add('HQuantize', [o], s) for o, s in used]  # kernel layers look up the widths of their direct predecessor
        if len(used) == 1:
            return used[0]
        (a, s), (b, t) = used
        if s == t and rng.chance(0.6):
            return self.add('HAdd', [a, b], s)
        if len(s) > 1:
            a, s = self.flatten(a, s)
        if len(t) > 1:
            b, t = self.flatten(b, t)
        return self.add('PConcatenate', [a, b], [s[0] + t[0]], {'axis': -1}, q=False)

    def block(self, x, shape):
        rng, p = self.rng, self.prof
        opts = [(self.dense, 3), (self.act, p.get('w_act', 1.2)), (self.add_, 0.7), (self.concat, 0.5), (self.reshape, 0.5), (self.dropout, 0.3)]
        if len(shape) >= 2:
            opts += [(self.conv, 3), (self.pool, 1.2), (self.flatten, 1), (self.permute, 0.5)]
        if rng.chance(p.get('p_nested', 0.07)):
            opts += [(self.nested, 8)]
        return rng.weighted(opts)(x, shape)


def gen_spec(rng, **prof):
    """One random model.  prof: switches (see uses)."""
    prof.setdefault('df', rng.randint(2, 5))
    prof.setdefault('rng', float(rng.pick([1, 2, 4, 1, 2, 4, 0.25])))
    g = G(rng, prof)
    n_in = 2 if rng.chance(prof.get('p_multi_in', 0.12)) else 1
    shape = rng.pick(prof.get('shapes', [[3], [4], [6], [4, 2], [5, 1], [6, 2], [4, 4, 1], [5, 4, 2], [4, 3, 1]]))
    inputs = [list(shape) for _ in range(n_in)]
    heads = [g.source(f'in{i}', list(shape)) for i in range(n_in)]
    if n_in == 2:
        if rng.chance(0.5):
            x, s = g.add('HAdd', [heads[0][0], heads[1][0]], list(shape))
        else:
            x, s = g.add('PConcatenate', [heads[0][0], heads[1][0]], list(shape[:-1]) + [2 * shape[-1]], {'axis': -1}, q=False)
    else:
        x, s = heads[0]
    trail = []
    for _ in range(rng.randint(prof.get('min_blocks', 1), prof.get('max_blocks', 4))):
        x, s = g.block(x, s)
        trail.append((x, s))
    outs = [x]
    if len(trail) > 1 and rng.chance(prof.get('p_multi_out', 0.1)):
        y = rng.pick(trail[:-1])[0]
        if y != x:
            outs.append(y)
    if rng.chance(prof.get('p_plain', 0)):  # a layer of Keras itself at the end
        k = rng.pick(['ReLU', 'Flatten', 'LeakyReLU', 'Activation'])
        outs[0], s = g.add('Plain', [x], s, {'layer': k, **({'alpha': 0.25} if k == 'LeakyReLU' else {'activation': 'relu'} if k == 'Activation' else {})}, q=False)
    spec = {'inputs': inputs, 'nodes': g.nodes, 'outputs': outs, 'wseed': rng.seed32(), 'df': prof['df'], 'rng': prof['rng'], 'bits': prof.get('bits', [-1.0, 3.6])}
    # (a Sequential that contains a nested model cannot be restored from h5 by Keras itself, with any registered layer)
    if rng.chance(0.1):
        spec['stray'] = rng.pick([n['id'] for n in g.nodes if n['cls'] != 'Model'])  # a layer that is not in the model, on a tensor of the model
    spec['seq'] = linear(spec) and all(n['cls'] != 'Model' for n in g.nodes) and rng.chance(0.5)
    return spec


def linear(spec):
    """Can this network be written as a keras.Sequential?"""
    last = 'in0'
    if len(spec['inputs']) > 1 or spec.get('stray'):
        return False
    for n in spec['nodes']:
        if n['in'] != [last] or n['cls'] == 'Model' and (len(n['args']['spec']['outputs']) > 1 or n.get('reuse')):
            return False
        last = n['id']
    return spec['outputs'] == [last]


def walk(spec):
    """All nodes, nested ones included."""
    for n in spec['nodes']:
        if n['cls'] == 'Model':
            if not n.get('reuse'):
                yield from walk(n['args']['spec'])
        else:
            yield n


def has(spec, *names):
    return any(any(s in n['cls'] for s in names) for n in walk(spec))


# ------------------------------------------------------------------------------------------------------ construction
def leaky(x):
    return tf.nn.leaky_relu(x, 0.25)


def real_act(name):
    return {'relu6': tf.nn.relu6, 'leaky_relu': tf.nn.leaky_relu}.get(name, name)


DEFAULT_ARGS = {'padding': ['valid'], 'strides': [1, [1], [1, 1]], 'dilation_rate': [1, [1], [1, 1]], 'groups': [1], 'activation': [None], 'use_bias': [True], 'parallel_factor': [1],
                'center': [True], 'scale': [True], 'epsilon': [1e-3], 'momentum': [0.99]}


def make_layer(node, confs=None):
    """confs: optional {conf-id: dict object} for sharing one configuration object between layers."""
    cls, a = node['cls'], copy.deepcopy(node['args'])
    if cls in KERNEL and node['id'][-1] in '13579':  # every other layer leaves what is the documented default to the library
        a = {k: v for k, v in a.items() if k not in DEFAULT_ARGS or not any(type(v) is type(d) and v == d for d in DEFAULT_ARGS[k])}
    kw = {'name': node['id']}
    if cls in HCLS:
        paq, kq = real_conf(node.get('paq'), 'a'), real_conf(node.get('kq'), 'k')
        if confs is not None:
            paq = confs.setdefault('a%s' % node.get('paq_shared', ':' + node['id']), paq)
            kq = confs.setdefault('k%s' % node.get('kq_shared', ':' + node['id']), kq)
        kw['paq_conf'] = paq
        if cls in KERNEL:
            kw['kq_conf'] = kq
        kw['beta'] = node.get('beta', 0.)
    if cls == 'HActivation':
        a['activation'] = real_act(a['activation'])
    elif node.get('actfn') and a.get('activation') == 'relu':
        a['activation'] = {'nn': tf.nn.relu, 'keras': keras.activations.relu, 'caps': 'ReLU'}[node['actfn']]
    if 'target_shape' in a:
        a['target_shape'] = tuple(a['target_shape'])
    if 'dims' in a:
        a['dims'] = tuple(a['dims'])
    for k in ('kernel_size', 'strides', 'dilation_rate', 'pool_size'):
        if isinstance(a.get(k), list):
            a[k] = tuple(a[k])
    if cls == 'Plain':
        lcls = getattr(keras.layers, a.pop('layer'))
    else:
        lcls = getattr(L, cls)
    return lcls(**a, **kw)


def put(v, i, y):
    """Enter the value(s) of a node."""
    y = y if isinstance(y, list) else [y]
    v[i] = y[0]
    for j, t in enumerate(y[1:]):
        v[f'{i}:{j + 1}'] = t


def build(spec, confs=None, init=True, name=None):
    if spec.get('seq') and linear(spec):
        ls = [keras.layers.InputLayer(input_shape=tuple(spec['inputs'][0]), name=f'{name or "m"}_in0')]
        for node in spec['nodes']:
            ls.append(build(node['args']['spec'], confs, init=False, name=node['id']) if node['cls'] == 'Model' else make_layer(node, confs))
        m = keras.Sequential(ls, **({'name': name} if name else {}))
        if init:
            init_weights(spec, m)
        return m
    ts = {}
    ins = []
    for i, s in enumerate(spec['inputs']):
        ts[f'in{i}'] = t = keras.layers.Input(shape=tuple(s), name=f'{name or "m"}_in{i}')
        ins.append(t)
    shared = {}
    for node in spec['nodes']:
        x = [ts[i] for i in node['in']]
        x = x[0] if len(x) == 1 else x
        if node.get('reuse'):
            layer = shared[node['reuse']]
        elif node['cls'] == 'Model':
            layer = build(node['args']['spec'], confs, init=False, name=node['id'])
        else:
            layer = make_layer(node, confs)
        shared[node['id']] = layer
        put(ts, node['id'], layer(x))
    if spec.get('stray') in ts:
        L.HQuantize(name='stray')(ts[spec['stray']])
    outs = [ts[o] for o in spec['outputs']]
    kw = {'name': name} if name else {}
    m = keras.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0], **kw)
    if init:
        init_weights(spec, m)
    return m


def layers(model):
    """{name: layer} of all leaf layers, nested models flattened."""
    r = {}
    for layer in model.layers:
        if isinstance(layer, keras.Model):
            r.update(layers(layer))
        else:
            r[layer.name] = layer
    return r


def hlayers(model):
    from .env import HLayerBase
    return {k: v for k, v in layers(model).items() if isinstance(v, HLayerBase)}


def init_weights(spec, model, wseed=None):
    """Deterministic, exactly representable weights and heterogeneous bit widths."""
    rng = np.random.default_rng(spec['wseed'] if wseed is None else wseed)
    lo, hi = spec.get('bits', [-1.0, 3.6])
    ls = layers(model)
    for node in walk(spec):
        if node['cls'] not in HCLS:
            continue
        layer = ls[node['id']]
        if node['cls'] in KERNEL:
            k = rng.integers(-48, 49, layer.kernel.shape) / 32.
            if rng.random() < 0.3:
                k = k * (rng.random(k.shape) < 0.6)
            if rng.random() < 0.15:
                k[..., 0] = 0
            layer.kernel.assign(k.astype('float32'))
            if node['args'].get('use_bias', True):
                layer.bias.assign((rng.integers(-64, 65, layer.bias.shape) / 32.).astype('float32'))
            f = layer.kq.fbw
            v = rng.uniform(lo, hi, f.shape)
            if rng.random() < 0.3 and node['cls'] == 'HDenseBatchNorm' and spec.get('freshbw', True):
                v = np.full(f.shape, (node.get('kq') or {'init_bw': 2})['init_bw'])  # not adapted yet: still what it was constructed with
            f.assign(v.astype('float32'))
            for nm, a, b in (('bn_beta', -1, 1), ('moving_mean', -1, 1), ('bn_gamma', 0.5, 1.5), ('moving_variance', 0.25, 2)):
                v = getattr(layer, nm, None)
                if v is not None and len(v.shape):
                    v.assign(rng.uniform(a, b, v.shape).astype('float32'))
        f = layer.paq.fbw
        v = rng.uniform(lo, hi, f.shape)
        z = rng.random()
        if z < 0.25:
            v = np.where(rng.random(f.shape) < 0.25, rng.uniform(-6, lo, f.shape), v)  # likely-dead elements
        elif z < 0.4:
            v = np.full(f.shape, np.round(v.flat[0]))
        f.assign(v.astype('float32'))


# ------------------------------------------------------------------------------------------------------ data
def data(spec, n, seed, scale=1.0, grid=True):
    """Inputs on the 2^-df grid inside [-rng, rng); list of arrays for multi-input models."""
    r = np.random.default_rng(seed)
    q = 2.0 ** spec['df']
    m = int(spec['rng'] * q)
    xs = []
    for s in spec['inputs']:
        style = r.random()
        if style < 0.5:
            x = r.integers(-m, m, [n] + list(s)).astype('float64')
        elif style < 0.8:
            x = np.clip(np.round(r.normal(0, m / 3, [n] + list(s))), -m, m - 1)
        else:
            x = r.integers(0, m, [n] + list(s)).astype('float64')
        x = np.floor(x * scale) / q
        xs.append(x.astype('float32'))
    return xs if len(xs) > 1 else xs[0]


def rows(xs, sl):
    return [x[sl] for x in xs] if isinstance(xs, list) else xs[sl]


def nrows(xs):
    return len(xs[0]) if isinstance(xs, list) else len(xs)


def cat(*xss):
    if isinstance(xss[0], list):
        return [np.concatenate([xs[i] for xs in xss]) for i in range(len(xss[0]))]
    return np.concatenate(xss)


def as_list(y):
    return [np.asarray(t) for t in (y if isinstance(y, (list, tuple)) else [y])]


def forward(model, xs, bsz=None, training=False):
    n = nrows(xs)
    bsz = bsz or n
    outs = [as_list(model(rows(xs, slice(i, i + bsz)), training=training)) for i in range(0, n, bsz)]
    outs = [np.concatenate(o) for o in zip(*outs)]
    if any(len(o) != n for o in outs):
        raise ValueError(f'{n} samples in, {[len(o) for o in outs]} out')
    return outs
