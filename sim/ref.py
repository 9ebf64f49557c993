"""Executable reference model of HGQ, written in numpy float64 from the documentation: what a network of exact quantizers computes,
which ranges a calibration has to record, which fixed-point formats follow, and what a fixed-point machine with those formats computes.
It never calls HGQ code; it reads the *parameters* (kernels, bit widths, normalisation statistics) of the live layers.
"""
import numpy as np

from .gen import KERNEL, layers, put, walk


class Ambiguous(Exception):
    """float32 and exact arithmetic may legitimately differ here; the exact oracle gives no verdict."""


class AmbiguousSum(Ambiguous):
    """An accumulation does not fit float32's mantissa: summation order is visible."""


def _np(v):
    return np.asarray(v, dtype=np.float64)


def params(spec, model):
    """Detached copy of all parameters the reference needs."""
    ls = layers(model)
    out = {}
    for node in walk(spec):
        if node.get('paq', 0) == 0:
            continue
        layer = ls[node['id']]
        clip = (node['paq'] or {}).get('bw_clip', [-23, 23])
        p = {'abw': np.clip(_np(layer.paq.fbw), *clip)}
        if node['cls'] in KERNEL:
            clip = (node['kq'] or {}).get('bw_clip', [-23, 23])
            p['kbw'] = np.clip(_np(layer.kq.fbw), *clip)
            p['kernel'] = _np(layer.kernel)
            if node['args'].get('use_bias', True):
                p['bias'] = _np(layer.bias)
            if 'BatchNorm' in node['cls']:
                for nm in ('bn_beta', 'moving_mean', 'bn_gamma', 'moving_variance'):
                    p[nm] = _np(getattr(layer, nm))
        out[node['id']] = p
    return out


def rnd_of(node, p):
    """True: floor; False: round half up (inference semantics)."""
    conf = node['paq'] or {'rnd_strategy': 'standard_round'}
    s = conf['rnd_strategy']
    if s == 'auto':
        return node['cls'] != 'HActivation' and not bias_covers(node, p)
    return s in ('floor', 3)


def bias_covers(node, p):
    """Can the rounding shift be folded in the bias?  Only with one fractional width per output channel."""
    if 'bias' not in p:
        return False
    s = p['abw'].shape
    return int(np.prod(s)) == 1 or (int(np.prod(s[:-1])) == 1 and s[-1] == p['bias'].shape[0])


def q(x, fbw, floor, tol=0.0, grid_ok=False):
    """Quantize to 2^-round(fbw).  tol>0: x carries float32 error of that relative size; refuse to answer near a rounding boundary."""
    s = 2.0 ** np.round(fbw)
    y = x * s
    t = y if floor else y + 0.5
    if np.any(tol):
        d = np.abs(t - np.round(t))
        near = (d < tol * np.maximum(1, np.abs(t)))
        if grid_ok:
            near &= d > 0
        if np.any(near):
            raise Ambiguous('rounding boundary')
    return np.floor(t) / s


def conv(x, k, args):
    rank = x.ndim - 2
    ks, st, dl = args['kernel_size'], args['strides'], args['dilation_rate']
    pads = [(0, 0)]
    out = []
    for d in range(rank):
        s, e = x.shape[1 + d], (ks[d] - 1) * dl[d] + 1
        if args['padding'] == 'same':
            o = -(-s // st[d])
            tot = max((o - 1) * st[d] + e - s, 0)
            pads.append((tot // 2, tot - tot // 2))
        else:
            o = (s - e) // st[d] + 1
            pads.append((0, 0))
        out.append(o)
    x = np.pad(x, pads + [(0, 0)])
    g = args.get('groups', 1)
    cin, cout = x.shape[-1] // g, k.shape[-1] // g
    y = np.zeros([x.shape[0]] + out + [k.shape[-1]])
    for idx in np.ndindex(*ks):
        sl = tuple(slice(idx[d] * dl[d], idx[d] * dl[d] + (out[d] - 1) * st[d] + 1, st[d]) for d in range(rank))
        xi = x[(slice(None),) + sl]
        for j in range(g):
            y[..., j * cout:(j + 1) * cout] += xi[..., j * cin:(j + 1) * cin] @ k[idx][:, j * cout:(j + 1) * cout]
    return y


def pool(x, args, avg):
    rank = x.ndim - 2
    ps, st = args['pool_size'], args['strides']
    ps, st = (ps, st) if rank == 2 else ([ps], [st])
    pads, out = [(0, 0)], []
    for d in range(rank):
        s = x.shape[1 + d]
        if args['padding'] == 'same':
            o = -(-s // st[d])
            tot = max((o - 1) * st[d] + ps[d] - s, 0)
            pads.append((tot // 2, tot - tot // 2))
        else:
            o = (s - ps[d]) // st[d] + 1
            pads.append((0, 0))
        out.append(o)
    x = np.pad(x, pads + [(0, 0)], constant_values=-np.inf if not avg else 0.)
    parts = []
    for idx in np.ndindex(*ps):
        sl = tuple(slice(idx[d], idx[d] + (out[d] - 1) * st[d] + 1, st[d]) for d in range(rank))
        parts.append(x[(slice(None),) + sl])
    return np.mean(parts, axis=0) if avg else np.max(parts, axis=0)


ACT = {
    'relu': lambda x: np.maximum(x, 0), 'linear': lambda x: x, 'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x)),
    'relu6': lambda x: np.clip(x, 0, 6), 'elu': lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
    'leaky_relu': lambda x: np.where(x > 0, x, np.float64(np.float32(0.2)) * x),
    'softmax': lambda x: np.exp(x - x.max(-1, keepdims=True)) / np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True),
}
SMOOTH = ('tanh', 'sigmoid', 'softmax', 'elu', 'leaky_relu')
TOL = 2e-6


def act_tol(act, x):
    """Relative float32 error of the activation function; 0 where it is exact."""
    if act not in SMOOTH:
        return 0.0
    if act == 'softmax':
        return TOL
    return np.where(x >= 0 if act in ('elu', 'leaky_relu') else x == 0, 0.0, TOL)


def kernel_bias(node, p):
    """Exact deployed kernel, and the bias before any rounding trick."""
    a = node['args']
    k, b = p['kernel'], p.get('bias')
    tol, exact = 1e-7, True  # a float32 parameter on a rounding boundary is on it in both arithmetics
    if 'BatchNorm' in node['cls'] and (a['scale'] or (a['center'] and b is not None)):
        tol, exact = TOL, False
        scale = 1.0
        if a['scale']:
            scale = p['bn_gamma'] / np.sqrt(p['moving_variance'] + np.float64(np.float32(a['epsilon'])))
            k = k * scale
        if a['center'] and b is not None:
            b = b - p['moving_mean'] * scale + p['bn_beta']
    conf = node['kq'] or {'rnd_strategy': 'standard_round'}
    kq = q(k, p['kbw'], conf['rnd_strategy'] in ('floor', 3), tol if exact else np.where(k == 0, 0, tol), exact)
    bq = None
    if b is not None:
        f = p['abw'].reshape(-1, p['abw'].shape[-1]).max(0)
        bq = q(b, f, rnd_of(node, p), tol, exact)
    return kq, bq


def affine(node, x, kq):
    if 'Conv' in node['cls']:
        return conv(x, kq, node['args'])
    return x @ kq


def guard(node, x, kq, bq):
    """Is every float32 partial sum of this layer exact?"""
    def lsb(v):
        v = np.abs(v[v != 0])
        if not v.size:
            return 0
        for f in range(-8, 40):
            if np.all(v * 2.0 ** f == np.floor(v * 2.0 ** f)):
                return f
        raise AmbiguousSum('not a fixed-point tensor')
    f = lsb(x) + lsb(kq)
    if bq is not None:
        f = max(f, lsb(bq) + 1)
    m = np.max(affine(node, np.abs(x), np.abs(kq)), initial=0) + (np.max(np.abs(bq), initial=0) + 1 if bq is not None else 0)
    if m * 2.0 ** f >= 2 ** 23:
        raise AmbiguousSum('float32 accumulation not exact')


def _passive(node, xs):
    c, a = node['cls'], node['args']
    x = xs[0]
    if c in ('Signature', 'PDropout'):
        return x
    if c == 'PFlatten' or c == 'Plain' and a['layer'] == 'Flatten':
        return x.reshape(x.shape[0], -1)
    if c == 'Plain':
        return np.where(x >= 0, x, 0.25 * x if a['layer'] == 'LeakyReLU' else 0.0)
    if c == 'PReshape':
        return x.reshape([x.shape[0]] + list(a['target_shape']))
    if c == 'PPermute':
        return x.transpose([0] + list(a['dims']))
    if c == 'PConcatenate':
        return np.concatenate(xs, axis=a['axis'])
    if 'Pooling' in c:
        return pool(x, a, 'Average' in c)
    raise KeyError(c)


def run(spec, prm, xs, zs=None):
    """Reference inference.  zs: collects, per quantized node, the values its range recorder must see."""
    v = {f'in{i}': _np(x) for i, x in enumerate(xs if isinstance(xs, list) else [xs])}
    for node in spec['nodes']:
        ins = [v[i] for i in node['in']]
        c = node['cls']
        if c == 'Model':
            put(v, node['id'], run(node['args']['spec'], prm, ins, zs))
            continue
        if node.get('paq', 0) == 0:
            v[node['id']] = _passive(node, ins)
            continue
        p = prm[node['id']]
        fl = rnd_of(node, p)
        if c == 'HQuantize':
            y = z = q(ins[0], p['abw'], fl)
        elif c == 'HAdd':
            y = z = q(sum(ins), p['abw'], fl)
        elif c == 'HActivation':
            act = node['args']['activation']
            y = z = q(ACT[act](ins[0]), p['abw'], fl, act_tol(act, ins[0]))
        else:
            kq, bq = kernel_bias(node, p)
            guard(node, ins[0], kq, bq)
            z = affine(node, ins[0], kq) + (0 if bq is None else bq)
            z = q(z, p['abw'], fl)
            y = np.maximum(z, 0) if node['args'].get('activation') == 'relu' else z
        if zs is not None:
            zs[node['id']] = z if node['id'] not in zs else np.concatenate([zs[node['id']], z])  # (a nested model may be called twice)
        v[node['id']] = y
    return [v[o] for o in spec['outputs']]


# ------------------------------------------------------------------------------------------------------ calibration
def ranges(spec, prm, xs, acc=None):
    """Per-quantizer (min, max) over the data, merged into acc."""
    zs = {}
    run(spec, prm, xs, zs)
    acc = dict(acc or {})
    for node in walk(spec):
        if node['id'] not in zs:
            continue
        z, s = zs[node['id']], prm[node['id']]['abw'].shape
        axes = tuple(d for d in range(z.ndim) if d == 0 or (s[d] == 1))
        lo, hi = z.min(axes, keepdims=True), z.max(axes, keepdims=True)
        if node['id'] in acc:
            lo, hi = np.minimum(lo, acc[node['id']][0]), np.maximum(hi, acc[node['id']][1])
        acc[node['id']] = (lo, hi)
    return acc


def special(spec, acc):
    """trace_minmax's documented treatment of bounded activations."""
    acc = dict(acc)
    for node in walk(spec):
        a = node['args'].get('activation')
        if node['cls'] == 'HActivation' and node['id'] in acc and a == 'softmax':
            lo, hi = acc[node['id']]
            acc[node['id']] = (np.zeros_like(lo), np.ones_like(hi))
    return acc


def kif(lo, hi, fbw, pos_only=False):
    """Smallest fixed-point format (sign, integer, fractional) holding [lo, hi] at 2^-f."""
    f = np.round(fbw)
    with np.errstate(divide='ignore'):
        if pos_only:
            k = np.zeros_like(lo)
            i = np.floor(np.log2(np.maximum(hi, 0.))) + 1
        else:
            k = (lo < 0).astype(float)
            i_neg = np.where(lo < 0, np.ceil(np.log2(np.maximum(-lo, 1e-300))), -np.inf)
            i_pos = np.where(hi >= 0, np.ceil(np.log2(np.maximum(hi, 0) + 2.0 ** -f)), -np.inf)
            i = np.maximum(i_neg, i_pos)
    i = np.clip(i, -f - k, 32)
    m = (k + i + f) != 0
    return k * m, i * m, f * m


# ------------------------------------------------------------------------------------------------------ deployed fixed-point machine
ROUND = {'TRN': np.floor, 'RND': lambda y: np.floor(y + 0.5), 'RND_CONV': np.rint, 'TRN_ZERO': np.trunc, 'RND_MIN_INF': lambda y: np.ceil(y - 0.5), 'RND_ZERO': lambda y: np.sign(y) * np.ceil(np.abs(y) - 0.5),
         'RND_INF': lambda y: np.sign(y) * np.floor(np.abs(y) + 0.5)}


def fixed(x, k, b, i, rnd, sat):
    """ap_fixed semantics on exact values: k sign bit, b total bits, i integer bits (sign included)."""
    f = b - i
    y = x * 2.0 ** f
    y = ROUND[rnd](y)
    hi = 2.0 ** (b - k) - 1
    lo = -(hi + 1) * k
    n = hi - lo + 1
    if sat == 'SAT':
        y = np.clip(y, lo, hi)
    elif sat == 'SAT_SYM':
        y = np.clip(y, -hi * k, hi)
    elif sat == 'SAT_ZERO':
        y = np.where((y >= lo) & (y <= hi), y, 0.0)
    elif sat == 'WRAP':
        y = np.mod(y - lo, n) + lo
    elif sat == 'WRAP_SM':  # reflected at both ends
        t = np.mod(y - lo, 2 * n)
        y = lo + np.where(t < n, t, 2 * n - 1 - t)
    else:
        raise KeyError(sat)
    return np.where(b > 0, y * 2.0 ** -f, 0.0)


def deploy(spec, prm, acc, xs, sat):
    """What the converted model must compute: same weights, every quantizer replaced by its fixed-point format."""
    v = {f'in{i}': _np(x) for i, x in enumerate(xs if isinstance(xs, list) else [xs])}
    for node in spec['nodes']:
        ins = [v[i] for i in node['in']]
        c = node['cls']
        if c == 'Model':
            put(v, node['id'], deploy(node['args']['spec'], prm, acc, ins, sat))
            continue
        if c == 'Signature':
            a = node['args']
            v[node['id']] = fixed(ins[0], *(np.asarray(a[k], np.float64) for k in ('keep_negative', 'bits', 'int_bits')), 'TRN', sat)
            continue
        if node.get('paq', 0) == 0:
            v[node['id']] = _passive(node, ins)
            continue
        p = prm[node['id']]
        fl = rnd_of(node, p)
        k, i, f = kif(*acc[node['id']], p['abw'])
        rnd = 'TRN' if fl else 'RND'
        if c in KERNEL:
            kq, bq = kernel_bias(node, p)
            guard(node, ins[0], kq, bq)
            z = affine(node, ins[0], kq)
            # a quantizer whose every element is dead contributes nothing
            relu = node['args'].get('activation') == 'relu'
            if bq is not None:
                z = z + bq
            if relu:
                K, I, F = k.max(), i.max(), f.max()
                fold = not fl and bq is not None and bias_covers(node, p)
                rk, ri, rf = kif(*acc[node['id']], p['abw'], pos_only=True)
                zz = z
                if fold:
                    sh = 2.0 ** -(np.round(p['abw'].reshape(-1, p['abw'].shape[-1]).max(0)) + 1)
                    zz = z + sh
                    rnd = 'TRN'
                extra = 0 if rnd == 'TRN' else 1
                w = fixed(zz, K, K + I + F + extra, K + I, 'TRN', sat)
                v[node['id']] = fixed(np.maximum(w, 0), rk, rk + ri + rf, rk + ri, rnd, sat)
                continue
        elif c == 'HQuantize':
            z = ins[0]
        elif c == 'HAdd':
            z = sum(ins)
        else:
            act = node['args']['activation']
            z = ACT[act](ins[0])
            q(z, p['abw'], fl, act_tol(act, ins[0]))  # refuse near boundaries
        v[node['id']] = fixed(z, k, k + i + f, k + i, rnd, sat)
    return [v[o] for o in spec['outputs']]


# ------------------------------------------------------------------------------------------------------ cost model
def span(w):
    """Bits between the highest and the lowest set bit of each fixed-point weight; 0 for a zero."""
    a = np.abs(w) * 2.0 ** 40
    out = np.zeros(a.shape)
    for idx in np.ndindex(*a.shape):
        v = int(a[idx])
        assert v == a[idx]
        if v:
            out[idx] = v.bit_length() - ((v & -v).bit_length() - 1)
    return out


def _relu(node):
    return node['args'].get('activation') == 'relu'


def _passive_bits(node, bs):
    if 'Pooling' in node['cls']:
        return pool(bs[0], node['args'], False)
    return _passive(node, bs)


def _cost(spec, act, ker, out, shapes):
    """Walk the network with widths instead of values; act(node) -> widths of its output, ker(node) -> widths of its weights."""
    v = {}
    for i, s in enumerate(spec['inputs']):
        v[f'in{i}'] = np.zeros([1] + list(s))
    for node in spec['nodes']:
        ins = [v[i] for i in node['in']]
        c = node['cls']
        if c == 'Model':
            put(v, node['id'], _cost(node['args']['spec'], act, ker, out, shapes))
        elif c == 'Signature':
            v[node['id']] = np.broadcast_to(np.asarray(node['args']['bits'], np.float64), ins[0].shape)
        elif node.get('paq', 0) == 0:
            v[node['id']] = _passive_bits(node, ins)
        else:
            if c in KERNEL:
                k = ker(node)
                y = affine(node, ins[0], k)
                out[node['id']] = y.sum()
                shape = list(y.shape)
                if 'Conv' in c:
                    out[node['id']] *= node['args'].get('parallel_factor', 1) / np.prod(y.shape[1:-1])
            else:
                out[node['id']] = 0.0
                shape = list(ins[0].shape)
            v[node['id']] = np.broadcast_to(act(node), shape)
    return [v[o] for o in spec['outputs']]


def bops_exact(spec, prm, acc):
    """Per layer: sum over multiplications of (input bits) x (weight bits)."""
    def act(node):
        k, i, f = kif(*acc[node['id']], prm[node['id']]['abw'], pos_only=_relu(node))
        return k + i + f

    out = {}
    _cost(spec, act, lambda node: span(kernel_bias(node, prm[node['id']])[0]), out, None)
    return out


def bops_approx(spec, prm, acc, side):
    """Training-time estimate; side=-1/+1 resolves the float32 logarithm at powers of two downwards/upwards."""
    e = 1 + side * 1e-5

    def ib(x):
        with np.errstate(divide='ignore'):
            return np.floor(np.log2(x * e)) + 1

    def act(node):
        lo, hi = acc[node['id']]
        f = np.round(prm[node['id']]['abw'])
        if _relu(node):
            b = ib(np.maximum(hi, 0)) + f
        else:
            b = ib(np.maximum(np.abs(lo), np.abs(hi))) + f + (lo < 0)
        return np.maximum(b, 0)

    def ker(node):
        p = prm[node['id']]
        k = kernel_bias(node, p)[0]
        s = p['kbw'].shape
        axes = tuple(d for d in range(k.ndim) if s[d] == 1)
        b = ib(np.abs(k))
        if axes:
            b = b.max(axes, keepdims=True)
        return np.broadcast_to(np.maximum(b + np.round(p['kbw']), 0), k.shape)

    out = {}
    _cost(spec, act, ker, out, None)
    return out
