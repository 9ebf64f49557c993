"""One simulated process: fault seams, scheduler, operations on the real HGQ code, and observation helpers."""
import collections
import contextlib
import hashlib
import io
import json
import os
import shutil
import sys
import tempfile
import threading

import numpy as np

from . import gen, ref
from .env import HGQ, L, P, U, HLayerBase, graph_mode, keras, process_reset, tf
from .rng import Rng

HGQ_DIR = os.path.dirname(os.path.abspath(HGQ.__file__)) + os.sep


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, str(detail)


class SimFault(Exception):
    """An injected, catchable failure (I/O error, failing allocation)."""

    def __init__(self, msg='injected'):
        super().__init__(msg)


class SimInterrupt(BaseException):
    """An injected interrupt (Ctrl-C, SIGTERM turned into an exception, process kill)."""

    def __init__(self, msg='injected'):
        super().__init__(msg)


class OpFailed(Exception):
    """A fault-free operation raised."""


# ------------------------------------------------------------------------------------------------------ context of one run
class Ctx:
    def __init__(self, case):
        self.case = case
        self.log = []
        self.stats = collections.Counter()
        self.dir = tempfile.mkdtemp(prefix='hgqsim.')
        self.steps = 0
        self.nfile = 0
        self.distinct = set()  # interleavings / states reached, as digests

    def event(self, *a):
        self.log.append(json.dumps(a, default=str))

    def probe(self, name, n=1):
        self.stats['probe:' + name] += n

    def fired(self, name):
        self.stats['fault:' + name] += 1

    def path(self, ext):
        self.nfile += 1
        return os.path.join(self.dir, f'f{self.nfile}{ext}')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


def dig(x):
    h = hashlib.sha256()
    for a in (x if isinstance(x, (list, tuple)) else [x]):
        a = np.ascontiguousarray(np.asarray(a, dtype=np.float64) + 0.0)  # -0.0 == 0.0
        h.update(str(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:12]


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def first_diff(a, b):
    if len(a) != len(b):
        return f'{len(a)} vs {len(b)} tensors'
    for n, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return f'tensor {n}: shape {x.shape} vs {y.shape}'
        d = np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))
        if len(d):
            i = tuple(int(v) for v in d[0])
            return f'tensor {n}: {len(d)} of {x.size} elements differ, first at {list(i)}: {float(x[i])!r} vs {float(y[i])!r}'
    return 'equal'


# ------------------------------------------------------------------------------------------------------ fault seams
class LineTrace:
    """Sees every executed line of HGQ; raises at the n-th one."""

    def __init__(self, at=None, exc=None, on_line=None):
        self.at, self.exc, self.on_line, self.n, self.fired = at, exc, on_line, 0, False

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(HGQ_DIR) else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.on_line:
                self.on_line()
            if self.n == self.at:
                self.fired = True
                raise self.exc
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Stream:
    """A data set as HGQ sees it: .shape and slices.  The k-th read may fail, or hand control to the scheduler."""

    def __init__(self, arr, hook):
        self.arr, self.hook, self.shape, self.dtype, self.ndim = arr, hook, arr.shape, arr.dtype, arr.ndim

    def __len__(self):
        return len(self.arr)

    def __getitem__(self, k):
        self.hook()
        return self.arr[k]


def stream(xs, hook):
    return [Stream(x, hook) for x in xs] if isinstance(xs, list) else Stream(xs, hook)


class IoFault:
    """The k-th write of a checkpoint fails (disk full)."""

    def __init__(self, at):
        self.at, self.n, self.fired = at, 0, False

    def hit(self):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise OSError(28, 'No space left on device (injected)')

    def __enter__(self):
        import zipfile

        import h5py
        self.saved = [(h5py.Group, 'create_dataset', h5py.Group.create_dataset), (h5py.AttributeManager, '__setitem__', h5py.AttributeManager.__setitem__),
                      (zipfile.ZipFile, 'writestr', zipfile.ZipFile.writestr), (zipfile.ZipFile, 'write', zipfile.ZipFile.write)]
        for cls, nm, f in self.saved:
            def w(s, *a, _f=f, **k):
                self.hit()
                return _f(s, *a, **k)
            setattr(cls, nm, w)
        return self

    def __exit__(self, *a):
        for cls, nm, f in self.saved:
            setattr(cls, nm, f)


class RngSeam:
    """Owns every draw HGQ's rounding makes.  mode: 'zero' | 'one' (largest value below 1) | 'half' | 'seed:<n>' | 'strata' | 'alternate'."""

    def __init__(self, mode):
        self.mode, self.draws = mode, 0
        self.r = np.random.default_rng(int(mode[5:])) if mode.startswith('seed:') else None

    def uniform(self, shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
        self.draws += 1
        shape = tuple(int(v) for v in np.asarray(shape).reshape(-1))
        top = np.float32(1) - np.float32(2 ** -24)
        if self.mode == 'zero':
            u = np.zeros(shape)
        elif self.mode == 'one':
            u = np.full(shape, top)
        elif self.mode == 'half':
            u = np.full(shape, 0.5)
        elif self.mode == 'alternate':
            u = np.full(shape, 0.0 if self.draws % 2 else top)
        elif self.mode == 'strata':
            n = max(int(np.prod(shape)), 1)
            u = ((np.arange(n) + 0.5) / n).reshape(shape)
        else:
            u = self.r.random(shape)
        u = np.minimum(u, top).astype('float32')
        lo, hi = float(minval), 1.0 if maxval is None else float(maxval)
        return tf.constant((np.float32(lo) + u * np.float32(hi - lo)).astype('float32'))

    def __enter__(self):
        self.saved = tf.random.uniform
        tf.random.uniform = self.uniform
        return self

    def __exit__(self, *a):
        tf.random.uniform = self.saved


class HashOrder:
    """Seeded iteration order of the sets of graph nodes / layers that the converter builds (identity hashes are otherwise address dependent)."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        from keras.src.engine.node import Node
        self.Node = Node
        tab = {}
        r = Rng('hash', self.seed)

        def h(o):
            if id(o) not in tab:
                tab[id(o)] = (r.getrandbits(60), o)
            return tab[id(o)][0]
        Node.__hash__ = h
        return self

    def __exit__(self, *a):
        del self.Node.__hash__


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def attempt(ctx, what, fn, fault=None):
    """Run one operation of the real code, with an optional fault.  Returns ('ok', value) | ('fault', exc) ; raises OpFailed otherwise."""
    f = fault or {}
    kind = f.get('kind')
    exc = SimInterrupt() if f.get('exc') == 'interrupt' else SimFault()
    seam = None
    cms = [quiet()]
    if kind == 'line':
        seam = LineTrace(f['at'], exc)
    elif kind == 'io':
        seam = IoFault(f['at'])
    ctx.steps += 1
    try:
        with quiet():
            if seam is not None:
                with seam:
                    v = fn()
            else:
                v = fn()
    except (SimFault, SimInterrupt) as e:
        ctx.fired(f'{kind}:{what}')
        ctx.event(what, 'fault', kind)
        return 'fault', e
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        if seam is not None and seam.fired:
            ctx.fired(f'{kind}:{what}')
            ctx.event(what, 'fault', kind)
            return 'fault', e
        if isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit)):
            raise
        raise OpFailed(f'{what} raised {type(e).__name__}: {str(e)[:600]}') from e
    return 'ok', v


# ------------------------------------------------------------------------------------------------------ observation
def weights(model, clip=True):
    """All persistent variables by (layer, variable) name, except the scratch accumulator 'bops'; widths as the quantizer uses them."""
    out = {}
    for ln, layer in gen.layers(model).items():
        cl = {}
        if isinstance(layer, HLayerBase) and layer.built:
            for qn in ('kq', 'paq'):
                qq = getattr(layer, qn, None)
                if qq is not None and qq.bw_clip:
                    cl[id(qq.fbw)] = qq.bw_clip
        for w in layer.weights:
            nm = w.name.split('/')[-1].split(':')[0]
            if nm == 'bops':
                continue
            v = w.numpy()
            if id(w) in cl and clip:
                v = np.clip(v, *cl[id(w)])
            out[f'{ln}/{nm}'] = v
    return out


def bits(model):
    """Per quantized layer the exact fixed-point format, or None when it refuses."""
    out = {}
    for n, layer in gen.hlayers(model).items():
        try:
            with np.errstate(all='ignore'):
                out[n] = [np.asarray(v).astype(int) for v in layer.paq.get_bits_exact()]
        except AssertionError:
            out[n] = None
    return out


def kernels(model):
    out = {}
    for n, layer in gen.hlayers(model).items():
        if getattr(layer, 'kernel', None) is not None:
            out[n + '/k'] = np.asarray(layer.fused_qkernel)
            if getattr(layer, 'bias', None) is not None:
                out[n + '/b'] = np.asarray(layer.fused_qbias)
    return out


def dict_diff(a, b):
    if set(a) != set(b):
        return f'different names: {sorted(set(a) ^ set(b))[:6]}'
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return f'{k}: {x} vs {y}'
        if x is None:
            continue
        x, y = (x if isinstance(x, list) else [x]), (y if isinstance(y, list) else [y])
        if not same(x, y):
            return f'{k}: {first_diff(x, y)}'
    return None


def plain(o):
    """Configuration as comparable plain data."""
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if hasattr(o, 'get_config') and not isinstance(o, type):
        return [type(o).__name__, plain(o.get_config())]
    if hasattr(o, 'numpy'):
        return plain(o.numpy())
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if callable(o):
        return getattr(o, '__name__', str(type(o)))
    return o


def proxy_obs(proxy, io_names=False):
    """Structure and content of a proxy, independent of auto-generated names."""
    out = []
    order = {id(layer): i for i, layer in enumerate(proxy.layers)}
    auto = {layer.name: type(layer).__name__ for layer in proxy.layers if isinstance(layer, (keras.layers.ReLU, keras.layers.InputLayer, P.UnaryLUT))}

    def unname(o):  # names generated by keras differ from conversion to conversion
        if isinstance(o, dict):
            return {auto.get(k, k): unname(v) for k, v in o.items()}
        return o
    for layer in proxy.layers:
        rec = [type(layer).__name__]
        ins = layer._inbound_nodes[0].inbound_layers if layer._inbound_nodes else []
        ins = ins if isinstance(ins, (list, tuple)) else [ins]
        rec.append([order.get(id(i), -1) for i in ins])
        if isinstance(layer, P.FixedPointQuantizer):
            rec += [layer.name, layer.RND, layer.SAT, unname(plain(layer.overrides)), [dig(v) for v in (layer.keep_negative, layer.bits, layer.integers)]]
        else:
            rec += [dig(w) for w in layer.get_weights()]
            if hasattr(layer, 'kernel'):
                rec.append(layer.name)
            if isinstance(layer, P.UnaryLUT):
                rec.append([[int(v) for v in k] for k in (layer.kif_in, layer.kif_out)])
        out.append(rec)
    return out


def canon(obs):
    """Order-independent form of proxy_obs: each layer named by the hash of its own record and its ancestors'."""
    memo = {}

    def h(i):
        if i < 0:
            return 'ext'
        if i not in memo:
            r = obs[i]
            memo[i] = hashlib.sha256(json.dumps([r[0], [h(j) for j in r[1]], r[2:]], sort_keys=True, default=str).encode()).hexdigest()[:12]
        return memo[i]
    return sorted(h(i) for i in range(len(obs)))


# ------------------------------------------------------------------------------------------------------ operations
def targets(model, n, seed):
    r = np.random.default_rng(seed)
    shp = model.output_shape if isinstance(model.output_shape, list) else [model.output_shape]
    ys = [r.normal(0, 1, (n,) + tuple(s[1:])).astype('float32') for s in shp]
    return ys if len(ys) > 1 else ys[0]


def compile_(model, lr=0.01, opt='sgd'):
    o = keras.optimizers.SGD(lr, clipnorm=1.0) if opt == 'sgd' else keras.optimizers.Adam(lr, clipnorm=1.0)
    model.compile(o, 'mse', run_eagerly=True)


def train(model, spec, op):
    if not getattr(model, 'optimizer', None):
        compile_(model, op.get('lr', 0.01), op.get('opt', 'sgd'))
    n, bsz = op.get('steps', 2), op.get('bsz', 4)
    losses = []
    for i in range(n):
        x = gen.data(spec, bsz, op['seed'] + i)
        losses.append(model.train_on_batch(x, targets(model, bsz, op['seed'] + i)))
    return losses


def trace(model, xs, bsz, **kw):
    return HGQ.trace_minmax(model, xs, bsz=bsz, verbose=False, **kw)


def convert(model, op):
    kw = {}
    if op.get('lut'):
        kw['unary_lut_max_table_size'] = op['lut']
    if op.get('reg'):
        kw['skip_precision_reg'] = False
    if op.get('acc') is not None:
        kw['accum_fp_max_offset'] = op['acc']
    with (HashOrder(op['hash']) if op.get('hash') is not None else contextlib.nullcontext()):
        return P.to_proxy_model(model, aggressive=op.get('aggr', True), **kw)


CUSTOM = {}


def save(ctx, model, fmt):
    if fmt == 'weights':
        p = ctx.path('.weights.h5')
        model.save_weights(p)
    else:
        p = ctx.path('.' + fmt)
        model.save(p)
    return p


def frozen(model):
    return sorted(n for n, v in gen.hlayers(model).items() if not v.trainable)


def load(path, fmt, spec=None, fz=()):
    if fmt == 'weights':
        m = gen.build(spec, init=False)
        for n in fz:
            gen.hlayers(m)[n].trainable = False
        m.load_weights(path)
        return m
    return keras.models.load_model(path, compile=True, custom_objects={'relu6': tf.nn.relu6, 'leaky_relu': tf.nn.leaky_relu})


def clone(spec, model):
    """A fresh model of the same definition and parameters, without any history."""
    m = gen.build(spec, init=False, name='clone')
    a, b = gen.layers(model), gen.layers(m)
    for n in a:
        if a[n].weights and n in b:
            b[n].set_weights([w.numpy() for w in a[n].weights])
    for n, v in gen.hlayers(m).items():
        v.beta.assign(gen.hlayers(model)[n].beta)
    return m
