"""C15 every training step follows the surrogate gradients, whatever was drawn and whatever happened before."""
import contextlib

import numpy as np

from . import gen
from .env import HGQ, graph_mode, keras, process_reset, tf
from .hist import KINDS, Session, gen_history
from .props_a import spec_trainable
from .world import RngSeam, Violation, attempt, targets

LN2 = float(np.log(2.0))
D = tf.float64


class Skip(Exception):
    """The float32 arithmetic of a training step may decide a rounding either way here; no verdict for this step."""


def c64(v):
    return tf.constant(np.asarray(v, np.float64), D)


def conf_of(node, key):
    c = node.get(key)
    return c if c is not None else {'rnd_strategy': 'standard_round', 'exact_q_value': True, 'bw_clip': [-23, 23], 'trainable': True, 'regularizer': 1e-6, 'init_bw': 2, 'skip_dims': None if key == 'kq' else [0]}


def strategy(node, key, layer):
    s = conf_of(node, key)['rnd_strategy']
    if s == 'auto':
        if node['cls'] == 'HActivation':
            return 0
        b = getattr(layer, 'bias', None)
        sh = tuple(layer.paq.fbw.shape)
        cov = b is not None and (int(np.prod(sh)) == 1 or (int(np.prod(sh[:-1])) == 1 and sh[-1] == b.shape[0]))
        return 0 if cov else 3
    return {'standard_round': 0, 'stochastic_round': 1, 'fast_uniform_noise_injection': 2, 'floor': 3}.get(s, s)


def near(t, tol):
    """Is a rounding decision at integer t within the reach of float32 arithmetic?"""
    return np.abs(t - np.round(t)) < tol * np.maximum(1.0, np.abs(t))


def rounded(x, s, strat, draw, tol):
    """Quantized value of a training step in exact arithmetic, and where the decision cannot be made."""
    y = x * s
    if strat == 0:
        return np.floor(y + 0.5) / s, near(y + 0.5, tol)
    if strat == 3:
        return np.floor(y) / s, near(y, tol)
    u = draw(y.shape)
    if strat == 1:
        fr = y - np.floor(y)
        return (np.floor(y) + (u < fr)) / s, (np.abs(u - fr) < 3 * tol * np.maximum(1.0, np.abs(y))) | near(y, tol)
    n = np.where(np.abs(y) <= 0.5, -y, u - 0.5)
    return (y + n) / s, np.abs(np.abs(y) - 0.5) < tol * np.maximum(1.0, np.abs(y))


class Ref:
    """Gradients by definition.  Values of a layer's output are taken from the observed step after they are checked; everything that is differentiated is computed here, in float64."""

    def __init__(self, spec, model, obs, xs, draw, side):
        self.spec, self.obs, self.draw, self.side = spec, obs, draw, side
        self.ls = gen.layers(model)
        self.var, self.val = {}, {}
        self.loss_terms, self.checked, self.unclear = [], 0, 0
        for node in gen.walk(spec):
            if node['cls'] not in gen.HCLS:
                continue
            layer = self.ls[node['id']]
            names = {'abw': layer.paq.fbw}
            if node['cls'] in gen.KERNEL:
                names.update(kbw=layer.kq.fbw, kernel=layer.kernel)
                if node['args'].get('use_bias', True):
                    names['bias'] = layer.bias
                for nm in ('bn_beta', 'bn_gamma'):
                    v = getattr(layer, nm, None)
                    if v is not None and len(v.shape):
                        names[nm] = v
            for k, v in names.items():
                a = v.numpy().astype(np.float64)
                if k in ('abw', 'kbw'):
                    a = np.clip(a, *conf_of(node, 'paq' if k == 'abw' else 'kq')['bw_clip'])
                self.var[node['id'], k] = (v, c64(a))

    def p(self, node, k):
        return self.var[node['id'], k][1]

    # -- quantizers
    def ste(self, x, q, fbw):
        """Value q; gradient 1 to x, -ln2 (q - x) to the width."""
        d = tf.stop_gradient(q - x)
        return tf.stop_gradient(q) + (x - tf.stop_gradient(x)) - LN2 * d * (fbw - tf.stop_gradient(fbw))

    def scale(self, fbw, exact):
        f = fbw.numpy()
        return 2.0 ** (np.round(f) if exact else f)

    def quant_param(self, x, fbw, node, key, tol):
        """Kernel or bias: not observable, so the decision must be beyond doubt."""
        c = conf_of(node, key)
        exact = c['exact_q_value']
        if exact and np.any(np.abs(np.abs(fbw.numpy() % 1.0) - 0.5) < 1e-6):
            raise Skip('width at a tie')
        q, bad = rounded(x.numpy(), self.scale(fbw, exact), strategy(node, key, self.ls[node['id']]), self.draw, tol if exact else max(tol, 3e-6))
        if np.any(bad):
            raise Skip('parameter at a rounding boundary')
        return self.ste(x, c64(q), fbw)

    def quant_out(self, x, node, relu):
        fbw = self.p(node, 'abw')
        c = conf_of(node, 'paq')
        y = self.obs[node['id']].astype(np.float64)
        xv = x.numpy()
        s = self.scale(fbw, c['exact_q_value'])
        tol = 4e-6
        big = np.maximum(1.0, np.abs(xv))
        with np.errstate(over='ignore', invalid='ignore'):
            q, bad = rounded(xv, s, strategy(node, 'paq', self.ls[node['id']]), self.draw, tol)
        s = np.broadcast_to(s, xv.shape)
        bad = bad | (2e-6 * big * s > 0.05) | (np.abs(fbw.numpy() - np.floor(fbw.numpy()) - 0.5) < 1e-6)
        want = np.maximum(q, 0) if relu else q
        wrong = (np.abs(y - want) > 2e-5 * np.maximum(big, 1.0 / s)) & ~bad
        self.checked += int((~bad).sum())
        self.unclear += int(bad.sum())
        if np.any(wrong):
            i = tuple(int(v) for v in np.argwhere(wrong)[0])
            raise Violation('wrong-training-value', f'layer {node["id"]}{list(i)}: {y[i]!r} in training, {want[i]!r} by definition from pre-quantization value {xv[i]!r}')
        q = np.where(bad, y, q)
        if relu:
            on = c64(y > 0)
            q = np.where(y > 0, np.where(bad, y, q), 0)
            return tf.stop_gradient(c64(y)) + on * (self.ste(x, c64(q), fbw) - c64(q))
        return self.ste(x, c64(q), fbw) - c64(q) + c64(y)

    # -- widths for the cost term
    def ib(self, v):
        with np.errstate(divide='ignore', invalid='ignore'):
            return np.floor(np.log2(np.asarray(v, np.float64) * (1 + self.side * 1e-5))) + 1

    @staticmethod
    def width(intbits, fbw, deg):
        f = fbw + tf.stop_gradient(tf.round(fbw) - fbw)
        b = np.asarray(intbits) + f.numpy()
        on = c64(b > 0)
        v = tf.where(on > 0, c64(np.where(np.isfinite(intbits), intbits, 0)) + f, tf.zeros_like(f) + c64(np.zeros_like(b)))
        g = 1.0 / np.sqrt(deg)
        return v * g + tf.stop_gradient(v - v * g)

    def act_width(self, node, shape):
        layer = self.ls[node['id']]
        lo, hi = layer.paq._min.numpy().astype(np.float64), layer.paq._max.numpy().astype(np.float64)
        if np.any(lo > hi):
            raise Skip('nothing recorded')
        fbw = self.p(node, 'abw')
        if node['args'].get('activation') == 'relu':
            i = self.ib(np.maximum(hi, 0))
        else:
            i = self.ib(np.maximum(np.abs(lo), np.abs(hi))) + (lo < 0)
        full = [1] + list(shape[1:])
        deg = np.prod([f for f, w in zip(full, fbw.shape) if w == 1])
        return tf.broadcast_to(self.width(i, fbw, deg), full)

    def kernel_width(self, node, qk):
        fbw = self.p(node, 'kbw')
        k = np.abs(qk.numpy())
        axes = tuple(d for d in range(k.ndim) if fbw.shape[d] == 1)
        i = self.ib(k)
        if axes:
            i = i.max(axes, keepdims=True)
        deg = np.prod([s for s, w in zip(k.shape, fbw.shape) if w == 1]) if axes else 1
        deg = deg * (node['args'].get('parallel_factor', 1) if 'Conv' in node['cls'] else 1)
        return tf.broadcast_to(self.width(i, fbw, deg), k.shape)

    # -- operators
    def affine(self, node, x, k):
        a = node['args']
        if 'Conv' not in node['cls']:
            return tf.matmul(x, k)
        return tf.nn.convolution(x, k, strides=list(a['strides']), padding=a['padding'].upper(), dilations=list(a['dilation_rate']))

    def passive(self, node, ins, bits=False):
        a, c = node['args'], node['cls']
        x = ins[0]
        if c == 'PDropout':
            return x  # generated with rate 0
        if c == 'PFlatten':
            return tf.reshape(x, [x.shape[0], -1])
        if c == 'PReshape':
            return tf.reshape(x, [x.shape[0]] + list(a['target_shape']))
        if c == 'PPermute':
            return tf.transpose(x, [0] + list(a['dims']))
        if c == 'PConcatenate':
            return tf.concat(ins, axis=a['axis'])
        if 'Pooling' in c:
            f = tf.nn.max_pool if 'Max' in c or bits else tf.nn.avg_pool
            return f(x, ksize=a['pool_size'], strides=a['strides'], padding=a['padding'].upper())
        raise Skip(c)

    def run(self, xs, ts):
        v, b = {}, {}
        for i, x in enumerate(xs if isinstance(xs, list) else [xs]):
            v[f'in{i}'], b[f'in{i}'] = c64(x), None
        for node in self.spec['nodes']:
            ins, n, c = [v[i] for i in node['in']], node['id'], node['cls']
            if c == 'Signature':
                v[n], b[n] = ins[0], c64(np.broadcast_to(np.asarray(node['args']['bits'], np.float64), [1] + list(ins[0].shape[1:])))
                continue
            if c not in gen.HCLS:
                y = self.passive(node, ins)
                o = self.obs[n].astype(np.float64)
                if np.any(np.abs(o - y.numpy()) > 1e-5 * np.maximum(1, np.abs(o))):
                    raise Violation('wrong-training-value', f'layer {n} does not compute {c} in training')
                v[n] = y + tf.stop_gradient(c64(o) - y)
                b[n] = self.passive(node, [b[i] for i in node['in']], bits=True)
                continue
            layer = self.ls[n]
            if c in gen.KERNEL:
                k, x, a = self.p(node, 'kernel'), ins[0], node['args']
                bias = self.p(node, 'bias') if (n, 'bias') in self.var else None
                tol = 0.0
                if 'BatchNorm' in c:
                    tol = 3e-6
                    center, scale = a['center'] and bias is not None, a['scale']
                    eps = float(np.float32(a['epsilon']))
                    z0 = self.affine(node, x, k if scale else self.quant_param(k, self.p(node, 'kbw'), node, 'kq', 0.0))
                    ax = list(range(z0.shape.rank - 1))
                    if center:
                        mean = tf.reduce_mean(z0, axis=ax) + bias
                    g = tf.constant(1.0, D)
                    if scale:
                        g = self.p(node, 'bn_gamma') * tf.math.rsqrt(tf.math.reduce_variance(z0, axis=ax) + eps)
                        k = k * g
                    if center:
                        bias = bias - mean * g + self.p(node, 'bn_beta')
                qk = self.quant_param(k, self.p(node, 'kbw'), node, 'kq', tol)
                z = self.affine(node, x, qk)
                if bias is not None:
                    f = self.p(node, 'abw')
                    f = tf.reduce_max(f, axis=list(range(f.shape.rank - 1)))
                    z = z + self.quant_param(bias + tf.zeros_like(bias), f, node, 'paq', tol)
                w = self.affine(node, b[node['in'][0]], self.kernel_width(node, qk))
                cost = tf.reduce_sum(w)
                if 'Conv' in c:
                    cost = cost * (a.get('parallel_factor', 1) / np.prod(w.shape[1:-1]))
                self.loss_terms.append(float(np.float32(node.get('beta', 0.))) * cost)
            elif c == 'HAdd':
                z = tf.add_n(ins)
            elif c == 'HActivation':
                act = {'relu6': tf.nn.relu6, 'leaky_relu': tf.nn.leaky_relu}.get(node['args']['activation']) or keras.activations.get(node['args']['activation'])
                z = act(ins[0])
            else:
                z = ins[0]
            v[n] = self.quant_out(z, node, c in gen.KERNEL and node['args'].get('activation') == 'relu')
            b[n] = self.act_width(node, v[n].shape)
            for key, vn in (('paq', 'abw'), ('kq', 'kbw')):
                l1 = conf_of(node, key)['regularizer']
                if (n, vn) in self.var and l1:
                    self.loss_terms.append(l1 * tf.reduce_sum(self.p(node, vn)))
        ys = [v[o] for o in self.spec['outputs']]
        loss = tf.add_n([tf.reduce_mean(tf.square(y - c64(t))) for y, t in zip(ys, ts)])
        return tf.add_n([loss] + self.loss_terms)


def reference(spec, model, obs, xs, ts, draw):
    """{id(variable): (lowest, highest) gradient} ; the float32 logarithm may resolve powers of two either way, both are covered."""
    out = []
    for side in (-1, 1):
        r = Ref(spec, model, obs, xs, draw, side)
        keys = list(r.var)
        with tf.GradientTape() as tape:
            for k in keys:
                tape.watch(r.var[k][1])
            loss = r.run(xs, ts)
        g = tape.gradient(loss, [r.var[k][1] for k in keys], unconnected_gradients='zero')
        out.append((float(loss), dict(zip(keys, [t.numpy() for t in g])), r))
    return out


class Draws(RngSeam):
    """Draws as a function of the shape asked for, so that the reference sees the same ones without depending on the order of the calls."""

    def __init__(self, seed):
        super().__init__('half')
        self.seed = seed

    def u(self, shape):
        shape = tuple(int(s) for s in shape)
        u = np.random.default_rng([self.seed] + list(shape)).random(shape)
        return np.minimum(u.astype('float32'), np.float32(1 - 2 ** -24)).astype(np.float64)

    def uniform(self, shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
        self.draws += 1
        u = self.u(np.asarray(shape).reshape(-1)).astype('float32')
        lo, hi = float(minval), 1.0 if maxval is None else float(maxval)
        return tf.constant((np.float32(lo) + u * np.float32(hi - lo)).astype('float32'))


def granularity(shape, skip):
    """Shape of the widths: one per element, shared along the skipped dimensions."""
    r = len(shape)
    d = {None: (), 'none': (), 'all': range(r), 'batch': (0,), 'except_last': range(r - 1), 'except_1st': (0,) + tuple(range(2, r))}[skip] if skip is None or isinstance(skip, str) else skip
    return tuple(1 if i in d or s is None else s for i, s in enumerate(shape))


class C15:
    id = 'C15'

    @staticmethod
    def gen(rng, tier):
        spec = gen.gen_spec(rng, train=True, p_nested=0, p_multi_in=0.15, max_blocks=3, p_bn=0.25, anisotropic_dilation=False)
        spec['freshbw'] = False
        for n in spec['nodes']:
            if n['cls'] in gen.HCLS:
                n['beta'] = rng.pick([0., 1e-3, 1e-2])
            for k in ('paq', 'kq'):
                if n.get(k):
                    n[k]['regularizer'] = rng.pick([0., 1e-6, 1e-3, 1e-2, None])
        for n in list(spec['nodes']):
            if n['cls'] == 'PDropout':
                n['args']['rate'] = 0.0
        for n in spec['nodes']:
            if n['cls'] in gen.HCLS and rng.chance(0.08):
                n['args']['trainable'] = False
        graph = rng.chance(0.06)
        if graph:  # real graph and XLA execution: deterministic rounding only, the draws are not ours there
            for n in spec['nodes']:
                for k in ('paq', 'kq'):
                    if n.get(k) and n[k]['rnd_strategy'] in ('stochastic_round', 'fast_uniform_noise_injection', 1):
                        n[k]['rnd_strategy'] = rng.pick(['standard_round', 'floor'])
        ops = []
        for _ in range(1 if graph else rng.randint(1, 2)):
            ops += gen_history(rng, spec, 0, 1 if graph else 2 if tier == 'quick' else 4)
            ops.append({'op': 'step', 'seed': rng.seed32(), 'n': rng.randint(1, 5), 'draw': rng.randrange(10**6), 'lr': rng.pick([0.02, 0.1]), 'irr': rng.chance(0.7), 'graph': graph})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        C15.fresh(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'step':
                C15.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        if op['irr']:  # as after training: parameters off any grid
            r = np.random.default_rng(op['seed'])
            for node in spec['nodes']:
                if node['cls'] in gen.HCLS:
                    for nm in ('kernel', 'bias'):
                        v = getattr(gen.layers(m)[node['id']], nm, None)
                        if v is not None:
                            v.assign(v + r.uniform(-0.02, 0.02, v.shape).astype('float32'))
        ls = gen.layers(m)
        for node in spec['nodes']:  # widths still at their initial value are re-adapted by the step itself (C11)
            if 'BatchNorm' in node['cls']:
                f = ls[node['id']].kq.fbw
                if np.all(f.numpy() == np.float32(conf_of(node, 'kq').get('init_bw', 2))):
                    f.assign(f + 0.25)
        xs = gen.data(spec, op['n'], op['seed'])
        ts = targets(m, op['n'], op['seed'])
        tl = ts if isinstance(ts, list) else [ts]
        names = [n['id'] for n in spec['nodes']]
        probe = keras.Model(m.inputs, [ls[n].output for n in names])
        draws = Draws(op['draw'])
        tv = m.trainable_variables
        C15.structure(ctx, spec, m)
        
        def f():
            with tf.GradientTape() as tape:
                ys = probe(xs, training=True)
                ys = ys if isinstance(ys, (list, tuple)) else [ys]
                o = dict(zip(names, ys))
                loss = tf.add_n([tf.reduce_mean(tf.square(o[k] - t)) for k, t in zip(spec['outputs'], tl)] + list(probe.losses))
            return {k: y.numpy() for k, y in o.items()}, float(loss), [None if g is None else tf.convert_to_tensor(g).numpy() for g in tape.gradient(loss, tv)]
        def g():
            @tf.function
            def step(x):
                with tf.GradientTape() as tape:
                    ys = probe(x, training=True)
                    ys = ys if isinstance(ys, (list, tuple)) else [ys]
                    o = dict(zip(names, ys))
                    loss = tf.add_n([tf.reduce_mean(tf.square(o[k] - t)) for k, t in zip(spec['outputs'], tl)] + list(probe.losses))
                return o, loss, [tf.zeros_like(v) if q is None else tf.convert_to_tensor(q) for q, v in zip(tape.gradient(loss, tv), tv)]
            with graph_mode():
                o, loss, q = step([tf.constant(x) for x in xs] if isinstance(xs, list) else tf.constant(xs))
            ctx.probe('graph')
            return {k: y.numpy() for k, y in o.items()}, float(loss), [t.numpy() for t in q]
        with contextlib.nullcontext() if op.get('graph') else draws:
            _, (obs, loss, grads) = attempt(ctx, 'gradient', g if op.get('graph') else f)
        st = any(strategy(n, k, ls[n['id']]) in (1, 2) for n in spec['nodes'] if n['cls'] in gen.HCLS for k in (('paq', 'kq') if n['cls'] in gen.KERNEL else ('paq',)))
        if st and not draws.draws:
            ctx.probe('skipped: draws not owned')
            return
        try:
            refs = reference(spec, m, obs, xs, tl, draws.u)
        except Skip as e:
            ctx.probe('skipped: ' + str(e))
            return
        C15.judge_gradients(ctx, m, tv, grads, refs)
        C15.judge_loss(loss, refs)
        if not op.get('graph'):  # (a compiled step may round undecidable values differently from the one above)
            C15.step(ctx, S, op, xs, ts, draws, refs)
        ctx.event('step', len(grads))

    @staticmethod
    def fresh(ctx, spec):
        """Training starts from the configured widths: init_bw, for kernels relative to the magnitude of what they quantize."""
        ls = gen.layers(gen.build(spec, init=False))
        for node in spec['nodes']:
            if node['cls'] not in gen.HCLS:
                continue
            layer = ls[node['id']]
            f, want = layer.paq.fbw.numpy(), conf_of(node, 'paq')['init_bw']
            if np.any(f != np.float32(want)):
                raise Violation('wrong-initial-width', f'{node["id"]}: activation width {f.ravel()[0]} where {want} was configured')
            if node['cls'] not in gen.KERNEL or 'BatchNorm' in node['cls']:  # (fused ones adapt later, some of them)
                continue
            c, f = conf_of(node, 'kq'), layer.kq.fbw.numpy().astype(np.float64)
            w = np.full(tuple(layer.kernel.shape), float(c['init_bw']))
            if node['args'].get('do_adapt_kernel_bits', True):
                k = np.abs(layer.kernel.numpy().astype(np.float64))
                if np.any(k == 0):
                    continue
                w = w - np.log2(k)
            ax = tuple(i for i, (a, b) in enumerate(zip(f.shape, w.shape)) if a != b)
            w = np.min(w, axis=ax, keepdims=True)
            if f.shape != w.shape or np.any(np.abs(f - w) > 1e-4 * np.maximum(1, np.abs(w))):
                raise Violation('wrong-initial-width', f'{node["id"]}: kernel widths {f.ravel()[:4].tolist()} where {w.ravel()[:4].tolist()} follow from the configuration')
            ctx.probe('fresh:kernel')

    @staticmethod
    def structure(ctx, spec, m):
        """Widths have the configured granularity; exactly what should learn is trainable."""
        ls, want = gen.layers(m), set()
        for node in spec['nodes']:
            if node['cls'] not in gen.HCLS:
                continue
            layer = ls[node['id']]
            on = node['args'].get('trainable', True)
            if float(layer.beta) != float(np.float32(node.get('beta', 0.))):
                raise Violation('wrong-beta', f'{node["id"]}: beta is {float(layer.beta)} where {node.get("beta", 0.)} was configured')
            for key, shape in (('paq', tuple(layer.output_shape)), ('kq', tuple(layer.kernel.shape) if node['cls'] in gen.KERNEL else None)):
                if shape is None:
                    continue
                c, f = conf_of(node, key), getattr(layer, key).fbw
                if tuple(f.shape) != granularity(shape, c['skip_dims']):
                    raise Violation('wrong-granularity', f'{node["id"]}: {key} widths of shape {tuple(f.shape)} for values of shape {shape} and skip_dims {c["skip_dims"]}')
                if on and c['trainable']:
                    want.add(id(f))
            for nm in ('kernel', 'bias', 'bn_beta', 'bn_gamma'):
                v = getattr(layer, nm, None)
                if on and v is not None and len(v.shape):
                    want.add(id(v))
        got = {id(v) for v in m.trainable_variables}
        if got != want:
            extra = [v.name for v in m.trainable_variables if id(v) not in want] or ['(missing) ' + v.name for v in m.variables if id(v) in want - got]
            raise Violation('wrong-trainable-set', f'{extra[:4]}')
        ctx.probe('structure')

    @staticmethod
    def bounds(refs, k):
        a, b = refs[0][1][k], refs[1][1][k]
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        top = max(float(np.max(np.abs(lo), initial=0)), float(np.max(np.abs(hi), initial=0)))
        return lo, hi, 2e-4 * top + 3e-5 * max(1.0, abs(refs[0][0]))

    @staticmethod
    def judge_gradients(ctx, m, tv, grads, refs):
        got = {id(v): g for v, g in zip(tv, grads)}
        for k, (v, _) in refs[0][2].var.items():
            lo, hi, tol = C15.bounds(refs, k)
            if id(v) not in got:
                continue
            g = got[id(v)]
            g = np.zeros(v.shape) if g is None else g.astype(np.float64)
            bad = ~((g >= lo - tol) & (g <= hi + tol))
            if np.any(bad):
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation('wrong-gradient', f'{k[0]}.{k[1]}{list(i)}: {float(g[i])!r} by backpropagation, between {float(lo[i])!r} and {float(hi[i])!r} by definition')
            ctx.probe('gradient:' + k[1])
        ctx.probe('values-checked', refs[0][2].checked)
        ctx.probe('values-unclear', refs[0][2].unclear)

    @staticmethod
    def judge_loss(loss, refs):
        lo, hi = sorted(r[0] for r in refs)
        tol = 1e-4 * max(1.0, abs(lo), abs(hi))
        if not lo - tol <= loss <= hi + tol:
            raise Violation('wrong-loss', f'training loss {loss}, between {lo} and {hi} by definition')

    @staticmethod
    def step(ctx, S, op, xs, ts, draws, refs):
        """One optimizer step of the real training loop."""
        m = S.model
        m.compile(keras.optimizers.SGD(op['lr']), 'mse', run_eagerly=True)
        betas = {n: float(v.beta) for n, v in gen.hlayers(m).items()}
        with draws:
            attempt(ctx, 'train', lambda: m.train_on_batch(xs, ts))
        if betas != {n: float(v.beta) for n, v in gen.hlayers(m).items()}:
            raise Violation('wrong-step', 'a training step changed beta')
        for k, (v, a) in refs[0][2].var.items():
            lo, hi, tol = C15.bounds(refs, k)
            node = next(n for n in S.spec['nodes'] if n['id'] == k[0])
            fixed = k[1] in ('abw', 'kbw') and not conf_of(node, 'paq' if k[1] == 'abw' else 'kq')['trainable']
            fixed = fixed or not node['args'].get('trainable', True)
            a, new = a.numpy(), v.numpy().astype(np.float64)
            if fixed:
                if not np.array_equal(new, a.astype(np.float32)):
                    raise Violation('frozen-parameter-moved', f'{k[0]}.{k[1]} is not trainable but a training step changed it')
                continue
            tl, th = a - op['lr'] * (hi + tol), a - op['lr'] * (lo - tol)
            eps = 2e-6 * np.maximum(1, np.abs(a))
            bad = ~((new >= tl - eps) & (new <= th + eps))
            if np.any(bad):
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation('wrong-step', f'{k[0]}.{k[1]}{list(i)}: {float(new[i])!r} after a step from {float(a[i])!r}, between {float(tl[i])!r} and {float(th[i])!r} by definition')
            ctx.probe('step:' + k[1])
