"""C07 models are isolated | C08 random rounding is fair for every draw | C09 costs add up | C11 fused batch normalisation keeps its books."""
import contextlib
import sys
import threading

import numpy as np

from . import gen, ref
from .env import FACTORY_KQ, FACTORY_PAQ, HGQ, L, U, graph_mode, keras, process_reset, tf
from .hist import KINDS, Session, gen_history
from .props_a import cover_ranges, spec_trainable
from .props_b import odd_defaults
from .rng import Rng
from .world import (HGQ_DIR, OpFailed, RngSeam, SimFault, SimInterrupt, Violation, attempt, bits, canon, clone, compile_, convert, dict_diff, dig, first_diff, load, plain, proxy_obs, quiet, same, save,
                    targets, trace, train, weights)


# ====================================================================================================== C07
class Deadlock(Exception):
    pass


class Sched:
    """Cooperative scheduler for real threads: exactly one runs; control moves only at executed lines of HGQ (and at script steps), as the seed says."""

    def __init__(self, scripts, seed, mean, maxsw):
        self.scripts, self.n = scripts, len(scripts)
        self.rng, self.mean, self.maxsw = Rng('sched', seed), mean, maxsw
        self.sem = [threading.Semaphore(0) for _ in scripts]
        self.done = [False] * self.n
        self.main = threading.Semaphore(0)
        self.err, self.res, self.log = [None] * self.n, [None] * self.n, []
        self.left = self.draw()
        self.switches = 0
        self.tls = threading.local()
        self.lines = 0

    def draw(self):
        return max(1, int(self.rng.expovariate(1.0 / self.mean)))

    def point(self, force=False):
        self.lines += 1
        self.left -= 1
        if self.left > 0 and not force:
            return
        self.left = self.draw()
        me = self.tls.i
        others = [i for i in range(self.n) if not self.done[i] and i != me]
        if not others or self.switches >= self.maxsw:
            return
        to = self.rng.pick(others)
        self.switches += 1
        self.log.append((self.lines, me, to))
        self.hand(me, to)

    def hand(self, me, to):
        self.sem[to].release()
        if not self.sem[me].acquire(timeout=120):
            raise Deadlock()

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(HGQ_DIR) else None

    def local(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self.local

    def body(self, i):
        self.tls.i = i
        self.sem[i].acquire()
        sys.settrace(self.glob)
        try:
            self.res[i] = self.scripts[i]()
        except BaseException as e:  # noqa: B902
            self.err[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            rest = [j for j in range(self.n) if not self.done[j]]
            if rest:
                self.sem[self.rng.pick(rest)].release()
            else:
                self.main.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        if not self.main.acquire(timeout=400):
            raise Deadlock()
        for t in ts:
            t.join(10)


class PerThreadDraws:
    """Every client has its own stream of draws, so that the schedule does not reorder them."""

    def __init__(self, key):
        self.key, self.tls = key, threading.local()

    def begin(self, name):
        self.tls.seam = RngSeam(f'seed:{name}')

    def uniform(self, *a, **k):
        return self.tls.seam.uniform(*a, **k)

    def __enter__(self):
        self.saved = tf.random.uniform
        tf.random.uniform = self.uniform
        return self

    def __exit__(self, *a):
        tf.random.uniform = self.saved


def full_conf(rng, spec):
    """Every layer with an explicit configuration."""
    for n in gen.walk(spec):
        if n['cls'] in gen.HCLS:
            if n.get('paq') is None:
                n['paq'] = gen.gen_conf(rng, 'a', 2)
                n['paq']['skip_dims'] = rng.pick(['all', 'batch', 'except_last'])
            if n['cls'] in gen.KERNEL and n.get('kq') is None:
                n['kq'] = gen.gen_conf(rng, 'k', 2)
                n['kq']['skip_dims'] = rng.pick([None, 'all', 'none'])


def configs(m):
    """What every layer says about itself; a layer without kernel has no use for a kernel quantizer configuration."""
    out = []
    for v in gen.layers(m).values():
        c = plain(v.get_config())
        if getattr(v, 'kernel', None) is None:
            c.pop('kq_conf', None)
        out.append(c)
    return out


class C07:
    id = 'C07'

    @staticmethod
    def gen(rng, tier):
        nc = rng.pick([2, 2, 3])
        with_defaults = rng.chance(0.5)
        share = rng.chance(0.5)
        clients = []
        pool = [gen.gen_conf(rng, 'a', 2) for _ in range(2)]
        for c in pool:
            c['skip_dims'] = rng.pick(['all', 'batch', 'except_last'])
        kpool = [dict(gen.gen_conf(rng, 'k', 2), skip_dims=rng.pick(['all', 'none', 'except_last'])) for _ in range(2)]
        for c in range(nc):
            for _ in range(50):
                spec = gen.gen_spec(rng, train=True, stochastic=rng.chance(0.5), max_blocks=2, p_nested=0.1, prefix=f'c{c}n' if rng.chance(0.5) else 'n')
                if not gen.has(spec, 'Dropout'):
                    break
            if with_defaults:
                full_conf(rng, spec)
            if share:
                for n in gen.walk(spec):
                    if n['cls'] in gen.HCLS and rng.chance(0.6):
                        j = rng.randrange(2)
                        n['paq'], n['paq_shared'] = dict(pool[j]), j
                    if n['cls'] in gen.KERNEL and rng.chance(0.6):
                        j = rng.randrange(2)
                        n['kq'], n['kq_shared'] = dict(kpool[j]), j
            ops = [{'op': rng.weighted([('train', 2), ('cal', 2), ('predict', 1), ('convert', 1), ('reset', 0.5), ('poke', 0.5), ('mutconf', 0.7), ('save', 0.4)]), 'seed': rng.seed32(), 'steps': 1, 'bsz': rng.randint(2, 4), 'lr': 0.05, 'aggr': rng.chance(0.5)}
                   for _ in range(rng.randint(2, 4 if tier == 'quick' else 7))]
            clients.append({'spec': spec, 'ops': ops})
        case = {'clients': clients, 'sched': {'seed': rng.seed32(), 'mean': rng.pick([3, 20, 100, 400]), 'max': 100000}, 'defaults': None}
        if with_defaults:
            case['defaults'] = {'steps': rng.randint(2, 12), 'seed': rng.seed32()}
        return case

    @staticmethod
    def script(ctx, c, confs, draws, idx, point, mine=False):
        """One client: everything it observes."""
        def f():
            draws.begin(idx)
            obs = []
            spec = c['spec']
            m = gen.build(spec, confs, name=f'client{idx}')
            if mine:
                for n in gen.walk(spec):
                    for k, q in (('a', 'paq'), ('k', 'kq')):
                        d, want = confs.get('%s%s' % (k, n.get(q + '_shared', ':' + n['id']))), gen.real_conf(n.get(q), k) if n.get(q) else None
                        if d is not None and want is not None and (set(d) != set(want) or plain_conf(d) != plain_conf(want)):
                            raise Violation('callers-dictionary-changed', f'{n["id"]}: {plain_conf(d)} was {plain_conf(want)} when handed over')
            obs.append(('built', [(k, dig(v)) for k, v in weights(m).items()]))
            obs.append(('config', configs(m)))
            for op in c['ops']:
                point()
                k = op['op']
                if k == 'train':
                    compile_(m, op['lr'])
                    obs.append(('train', [dig(v) for v in train(m, spec, op)], [(a, dig(b)) for a, b in weights(m).items()]))
                elif k == 'cal':
                    b = trace(m, gen.data(spec, 5, op['seed']), 2)
                    obs.append(('cal', float(b), [(a, [dig(t) for t in v] if v else None) for a, v in bits(m).items()]))
                elif k == 'predict':
                    obs.append(('predict', dig(gen.forward(m, gen.data(spec, 3, op['seed'])))))
                elif k == 'convert':
                    try:
                        p = convert(m, op)
                        obs.append(('convert', canon(proxy_obs(p)), dig(gen.forward(p, gen.data(spec, 3, op['seed'])))))
                    except AssertionError:
                        obs.append(('refused',))
                elif k == 'reset':
                    HGQ.ResetMinMax.reset_minmax(m)
                    obs.append(('reset', [a for a, v in bits(m).items() if v is None]))
                elif k == 'poke':
                    gen.init_weights(spec, m, op['seed'])
                elif k == 'mutconf':
                    # the caller goes on using, and changing, its own dictionaries
                    c0 = configs(m)
                    for d in (confs or {}).values():
                        if d is not None:
                            d['init_bw'] = 9
                            d['rnd_strategy'] = 'floor'
                            d['bw_clip'] = (1, 2)
                    d = HGQ.get_default_kq_conf()
                    d['init_bw'] = 9
                    d['bw_clip'] = (1, 1)
                    d = HGQ.get_default_paq_conf()
                    d['init_bw'] = 9
                    if configs(m) != c0:
                        raise Violation('layer-follows-the-callers-dictionary', diff_obs((c0,), (configs(m),)))
                    obs.append(('config', configs(m)))
                elif k == 'save':
                    obs.append(('config', configs(m)))
            obs.append(('final', [(a, dig(b)) for a, b in weights(m).items()], [(a, [dig(t) for t in v] if v else None) for a, v in bits(m).items()], dig(gen.forward(m, gen.data(spec, 4, 11)))))
            return obs
        return f

    @staticmethod
    def run(ctx, case):
        solo = []
        for i, c in enumerate(case['clients']):
            process_reset()
            with PerThreadDraws(0) as draws, quiet():
                # without mutations of the shared dictionaries before they are used: a client alone, with its own dictionaries
                f = C07.script(ctx, c, {}, draws, i, lambda: None, True)
                try:
                    solo.append(f())
                except Violation:
                    raise
                except Exception as e:
                    raise OpFailed(f'client {i} alone raised {type(e).__name__}: {str(e)[:300]}') from e
        process_reset()
        # shared dictionaries are made before anybody starts, as a caller with module-level configurations would
        shared = {}
        for c in case['clients']:
            for n in gen.walk(c['spec']):
                if n.get('paq_shared') is not None:
                    shared.setdefault('a%s' % n['paq_shared'], gen.real_conf(n['paq'], 'a'))
                if n.get('kq_shared') is not None:
                    shared.setdefault('k%s' % n['kq_shared'], gen.real_conf(n['kq'], 'k'))
        with PerThreadDraws(0) as draws, quiet():
            holder = {}
            point = lambda: holder['s'].point(force=True)
            scripts = []
            # a caller that goes on changing its dictionaries has its own; otherwise all callers hand over the same objects
            mut = any(o['op'] == 'mutconf' for c in case['clients'] for o in c['ops'])
            for i, c in enumerate(case['clients']):
                scripts.append(C07.script(ctx, c, {k: dict(v) for k, v in shared.items()} if mut else dict(shared), draws, i, point))
            if case.get('defaults'):
                def d():
                    r = Rng('defaults', case['defaults']['seed'])
                    for _ in range(case['defaults']['steps']):
                        point()
                        if r.chance(0.7):
                            odd_defaults(0)
                        else:
                            mine = dict(FACTORY_KQ), dict(FACTORY_PAQ)
                            for t, put, get in zip(mine, (HGQ.set_default_kq_conf, HGQ.set_default_paq_conf), (HGQ.get_default_kq_conf, HGQ.get_default_paq_conf)):
                                put(t)
                                t['init_bw'] = 17  # the dictionary is the caller's
                                if get()['init_bw'] == 17:
                                    raise Violation('defaults-follow-the-callers-dictionary', 'changing a dictionary after set_default_*_conf changed the defaults')
                    return []
                scripts.append(d)
            s = holder['s'] = Sched(scripts, case['sched']['seed'], case['sched']['mean'], case['sched']['max'])
            s.run()
        ctx.probe('switches', s.switches)
        ctx.distinct.add('schedule:' + hash_log(s.log))
        for i, e in enumerate(s.err):
            if e is not None:
                if isinstance(e, (Deadlock, Violation)):
                    raise e
                raise Violation('interleaving-broke-a-client', f'client {i} raised {type(e).__name__}: {str(e)[:300]} (alone it succeeds); switches {s.switches}')
        for i, (a, b) in enumerate(zip(solo, s.res)):
            for k, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    raise Violation('clients-influence-each-other', f'client {i}, observation {k} ({x[0]}): alone vs interleaved: {diff_obs(x, y)}; switches {s.switches}')
        ctx.event('isolation', [o[-1] for o in solo])


def plain_conf(d):
    return sorted((k, getattr(v, 'l1', v) if k == 'regularizer' else v) for k, v in d.items())


def diff_obs(x, y):
    for a, b in zip(x, y):
        if a != b:
            if isinstance(a, list) and isinstance(b, list):
                for p, q in zip(a, b):
                    if p != q:
                        if isinstance(p, dict) and isinstance(q, dict):
                            return str([(k, p.get(k), q.get(k)) for k in p if p.get(k) != q.get(k)])[:300]
                        return f'{p} vs {q}'[:300]
            return f'{a} vs {b}'[:300]
    return 'different length'


def hash_log(log):
    import hashlib
    return hashlib.sha256(str(log).encode()).hexdigest()[:12]


# ====================================================================================================== C08
class C08:
    id = 'C08'

    @staticmethod
    def gen(rng, tier):
        def conf(kind, rank):
            c = gen.gen_conf(rng, kind, rank)
            c['rnd_strategy'] = rng.pick(['stochastic_round', 'stochastic_round', 1, 'fast_uniform_noise_injection', 2, 'standard_round', 'floor'])
            return c
        shape = rng.pick([[4], [3, 2], [2, 3, 2]])
        case = {'shape': shape, 'units': rng.randint(1, 4), 'aq': conf('a', len(shape) + 1), 'kq': conf('k', 2), 'act': rng.pick(['HQuantize', 'HActivation']), 'wseed': rng.seed32(), 'n': rng.randint(2, 6),
                'modes': ['zero', 'one', 'half', 'alternate', f'seed:{rng.randrange(1000)}', f'seed:{rng.randrange(1000)}', 'strata'], 'hist': [rng.pick(['restart:h5', 'restart:keras', 'infer', 'cal', 'train', 'interrupt']) for _ in range(rng.randint(0, 2))],
                'seed': rng.seed32(), 'bits': [-1.0, 4.0], 'reprod': rng.chance(0.5), 'alone': rng.chance(0.25)}
        return case

    @staticmethod
    def model(case):
        x = keras.layers.Input(shape=tuple(case['shape']), name='inp')
        wide = gen.real_conf({'init_bw': 18, 'skip_dims': 'all', 'rnd_strategy': 'standard_round', 'exact_q_value': True, 'bw_clip': [-23, 23], 'trainable': False, 'regularizer': None}, 'a')
        a = L.HQuantize(paq_conf=gen.real_conf(case['aq'], 'a'), name='a') if case['act'] == 'HQuantize' else L.HActivation('linear', paq_conf=gen.real_conf(case['aq'], 'a'), name='a')
        q = a(x)
        w = L.HQuantize(paq_conf=dict(wide), name='w')(x)
        d = L.HDense(case['units'], use_bias=False, kq_conf=gen.real_conf(case['kq'], 'k'), paq_conf=dict(wide), name='d')(w)
        m = keras.Model(x, [q, d])
        r = np.random.default_rng(case['wseed'])
        ls = gen.layers(m)
        for qq in (ls['a'].paq, ls['d'].kq):
            qq.fbw.assign(r.uniform(*case['bits'], qq.fbw.shape).astype('float32'))
        k = r.integers(-2 ** 9, 2 ** 9, ls['d'].kernel.shape) / 2.0 ** 7
        ls['d'].kernel.assign(k.astype('float32'))
        return m

    @staticmethod
    def observe(ctx, m, case, x, mode, training=True):
        """(quantized activations, quantized kernel) as seen from outside; the kernel through unit inputs."""
        eye = np.zeros([case['shape'][-1]] + case['shape'], 'float32')
        for i in range(case['shape'][-1]):
            eye[(i,) + (0,) * (len(case['shape']) - 1) + (i,)] = 1
        with RngSeam(mode) as seam:
            _, y = attempt(ctx, 'forward', lambda: m(x, training=training))
            q = np.asarray(y[0], np.float64)
            _, y = attempt(ctx, 'forward', lambda: m(eye, training=training))
            k = np.asarray(y[1], np.float64)
        case['owned'] = seam.draws > 0
        k = np.stack([k[(i,) + (0,) * (len(case['shape']) - 1)] for i in range(case['shape'][-1])])
        return q, k

    @staticmethod
    def run(ctx, case):
        m = C08.model(case)
        r = np.random.default_rng(case['seed'])
        x = (r.integers(-2 ** 9, 2 ** 9, [case['n']] + case['shape']) / 2.0 ** 7).astype('float32')
        for h in case['hist']:
            if h.startswith('restart'):
                fmt = h.split(':')[1]
                _, p = attempt(ctx, 'save', lambda: save(ctx, m, fmt))
                process_reset()
                _, m = attempt(ctx, 'load', lambda: load(p, fmt))
            elif h == 'infer':
                gen.forward(m, x)
            elif h == 'cal':
                attempt(ctx, 'cal', lambda: trace(m, x, 2))
            else:
                compile_(m, 0.01)
                with RngSeam('seed:5'):
                    y = m(x, training=False)
                    attempt(ctx, 'train', lambda: m.train_on_batch(x, [np.asarray(t) * 0 + 0.5 for t in y]), {'kind': 'line', 'at': 40 + case['seed'] % 150, 'exc': 'interrupt'} if h == 'interrupt' else None)
        gen.forward(m, x)
        ls = gen.layers(m)
        for mode in case['modes']:
            qx, qk = C08.observe(ctx, m, case, x, mode)
            mode = mode if case['owned'] else 'free'  # draws made through another interface than ours
            C08.judge(ctx, 'activation', case['aq'], np.asarray(x, np.float64), qx, np.asarray(ls['a'].paq.fbw, np.float64), mode)
            C08.judge(ctx, 'kernel', case['kq'], np.asarray(ls['d'].kernel, np.float64), qk, np.asarray(ls['d'].kq.fbw, np.float64), mode)
        # inference: no draw has any influence
        base = None
        for mode in ('zero', 'one', 'seed:3'):
            o = C08.observe(ctx, m, case, x, mode, training=False)
            if base is not None and not same(list(base), list(o)):
                raise Violation('inference-depends-on-draws', first_diff(list(base), list(o)))
            base = o
        C08.nearest(ctx, 'activation', case['aq'], np.asarray(x, np.float64), base[0], np.asarray(ls['a'].paq.fbw, np.float64))
        C08.nearest(ctx, 'kernel', case['kq'], np.asarray(ls['d'].kernel, np.float64), base[1], np.asarray(ls['d'].kq.fbw, np.float64))
        C08.fair(ctx, m, case)
        C08.own_draws(ctx, m, case)
        if case.get('alone'):
            # the quantizer by itself, as used in hand-written layers
            q = gen.HGQ.quantizer.HGQ(**gen.real_conf(case['aq'], 'a'))
            for mode in case['modes'][:4]:
                with RngSeam(mode):
                    _, y = attempt(ctx, 'quantizer', lambda: q(tf.constant(x), True, True))
                C08.judge(ctx, 'stand-alone quantizer', case['aq'], np.asarray(x, np.float64), np.asarray(y, np.float64), np.asarray(q.fbw, np.float64), mode)
            if not np.all(np.asarray(q.fbw) == np.clip(case['aq']['init_bw'], *case['aq']['bw_clip'])):
                raise Violation('unfair-rounding', f'stand-alone quantizer does not start with its initial width {case["aq"]["init_bw"]}')
            _, y = attempt(ctx, 'quantizer', lambda: q(tf.constant(x), False))
            C08.nearest(ctx, 'stand-alone quantizer', case['aq'], np.asarray(x, np.float64), np.asarray(y, np.float64), np.asarray(q.fbw, np.float64))
            ctx.probe('stand-alone')
        if case['reprod']:
            # with the library's own generator: one seed, one trajectory; no hidden generator
            w0 = m.get_weights()
            out = []
            for s in (7, 7, 8):
                m.set_weights(w0)
                compile_(m, 0.05)
                tf.random.set_seed(s)
                HGQ.ResetMinMax.reset_minmax(m)
                for _ in range(2):
                    attempt(ctx, 'train', lambda: m.train_on_batch(x, [np.zeros(t.shape[1:] and (len(x),) + tuple(t.shape[1:]), 'float32') for t in m.outputs]))
                out.append(m.get_weights())
            if not same(out[0], out[1]):
                raise Violation('training-not-reproducible-from-seed', first_diff(out[0], out[1]))
            ctx.probe('reprod' + (':differs' if not same(out[0], out[2]) else ''))
        ctx.event('rounding', dig(base[0]), dig(base[1]))

    @staticmethod
    def own_draws(ctx, m, case):
        """Every element is rounded by a draw of its own: no two of them, in one sample or in different ones, go together."""
        if case['aq']['rnd_strategy'] not in ('stochastic_round', 1, 'fast_uniform_noise_injection', 2):
            return
        step = np.broadcast_to(C08.steps(case['aq'], np.asarray(gen.layers(m)['a'].paq.fbw, np.float64))[0], [48] + case['shape'])
        x = (1.5 * step).astype('float32')
        with RngSeam(f'seed:{case["seed"] % 997}'):
            _, y = attempt(ctx, 'forward', lambda: m(x, training=True))
        e = (np.asarray(y[0], np.float64) / step).reshape(48, -1)
        ctx.probe('own-draws')
        for i in range(e.shape[1]):
            if np.ptp(e[:, i]) == 0:
                raise Violation('draws-shared', f'48 samples, element {i}: all rounded the same way')
            if i and np.array_equal(e[:, i], e[:, i - 1]):
                raise Violation('draws-shared', f'48 samples, elements {i - 1} and {i}: always rounded the same way')

    @staticmethod
    def steps(conf, fbw):
        f = np.clip(fbw, *conf['bw_clip'])
        exact = conf['exact_q_value']
        return 2.0 ** -(np.round(f) if exact else f), exact

    @staticmethod
    def judge(ctx, what, conf, x, y, fbw, mode):
        """Training semantics for one adversarial sequence of draws."""
        st, exact = C08.steps(conf, fbw)
        s = conf['rnd_strategy']
        t, u = x / st, y / st
        eps = 2e-5 * (1 + np.abs(t)) + (2.0 ** -17 / st if what == 'kernel' else 0)
        bad = None
        if s in ('stochastic_round', 1):
            if not np.all(np.abs(u - np.round(u)) <= eps):
                bad = 'not on the grid'
            elif not np.all(np.abs(u - t) < 1 + eps):
                bad = 'more than one step away'
            elif exact and not np.all((t != np.round(t)) | (np.abs(u - t) <= eps)):
                bad = 'a representable value was moved'
            elif mode == 'zero' and exact and not np.all(np.abs(u - np.ceil(t)) <= eps):
                bad = 'the smallest draw must round up'
            elif mode == 'one' and exact and not np.all(np.abs(u - np.floor(t)) <= eps):
                bad = 'the largest draw must round down'
            ctx.probe('judged:stochastic')
        elif s in ('fast_uniform_noise_injection', 2):
            dead = np.abs(t) <= 0.5 - eps
            if not np.all(np.abs(u - t) <= 0.5 + eps):
                bad = 'noise exceeds half a step'
            elif not np.all(np.abs(u[dead]) <= (eps if np.ndim(eps) == 0 else np.broadcast_to(eps, u.shape)[dead])):
                bad = 'a value below half a step survived'
            ctx.probe('judged:noise')
        else:
            want = np.floor(t) if s in ('floor', 3) else np.floor(t + 0.5)
            near = np.abs((t if s in ('floor', 3) else t + 0.5) - np.round(t if s in ('floor', 3) else t + 0.5)) <= (0 if exact else eps)
            if not np.all((np.abs(u - want) <= eps) | (near & (not exact))):
                bad = f'{s} must not depend on draws'
            ctx.probe('judged:deterministic')
        if bad:
            i = np.unravel_index(np.argmax(np.abs(u - t)), u.shape)
            raise Violation('unfair-rounding', f'{what}, {s}, draws {mode}: {bad} (e.g. value {t[i]:.6g} steps became {u[i]:.6g} steps)')

    @staticmethod
    def nearest(ctx, what, conf, x, y, fbw):
        f = np.clip(fbw, *conf['bw_clip'])
        st = 2.0 ** -np.round(f)
        fl = conf['rnd_strategy'] in ('floor', 3)
        want = np.floor(x / st + (0 if fl else 0.5)) * st
        tol = 2.0 ** -16 if what == 'kernel' else 0
        if not np.all(np.abs(want - y) <= tol):
            raise Violation('inference-does-not-round-to-nearest', f'{what}, strategy {conf["rnd_strategy"]}: {first_diff([np.asarray(y)], [np.asarray(want)])}')

    @staticmethod
    def fair(ctx, m, case):
        """Unbiasedness: over draws that fill [0, 1) evenly, the mean equals the value."""
        s = case['aq']['rnd_strategy']
        if s not in ('stochastic_round', 1, 'fast_uniform_noise_injection', 2):
            return
        r = np.random.default_rng(case['seed'] + 1)
        n = 256
        ls = gen.layers(m)
        fbw = np.asarray(ls['a'].paq.fbw, np.float64)
        st, exact = C08.steps(case['aq'], fbw)
        el = int(np.prod(case['shape']))
        v = np.broadcast_to((r.integers(1, 9, case['shape']) + r.integers(1, 16, case['shape']) / 16.0) * st, [1] + case['shape'])
        v32 = v.astype('float32')
        acc = np.zeros([1] + case['shape'])
        seam = RngSeam('zero')
        seq = {'k': 0}

        def uniform(shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
            seq['owned'] = True
            u = np.full(tuple(int(t) for t in np.asarray(shape).reshape(-1)), (seq['k'] + 0.5) / n, 'float32')
            lo, hi = float(minval), 1.0 if maxval is None else float(maxval)
            return tf.constant((lo + u * (hi - lo)).astype('float32'))
        saved = tf.random.uniform
        tf.random.uniform = uniform
        try:
            a = ls['a']
            for k in range(n):
                seq['k'] = k
                acc += np.asarray(a(v32, training=True), np.float64)
        finally:
            tf.random.uniform = saved
        err = np.abs(acc / n - v) / st
        ctx.probe('fairness')
        if np.max(err) > (2.0 / n + 1e-3 if seq.get('owned') else 8 * 0.5 / np.sqrt(n)):
            raise Violation('biased-rounding', f'{s}: over {n} evenly spaced draws the mean is off by {np.max(err):.4f} steps')


# ====================================================================================================== C09
class C09:
    id = 'C09'

    @staticmethod
    def gen(rng, tier):
        det = rng.chance(0.6)
        spec = gen.gen_spec(rng, train=rng.chance(0.75), stochastic=not det, p_bn=0.0 if det else 0.25, p_nested=0.15, p_multi_in=0.2, max_blocks=4)
        if det:
            for n in gen.walk(spec):
                for k in ('paq', 'kq'):
                    if n.get(k):
                        n[k]['exact_q_value'] = True
        if rng.chance(0.08):  # the documented defaults alone
            for n in gen.walk(spec):
                if n['cls'] in gen.HCLS:
                    n.update(kq=None, paq=None, beta=0.)
        kinds = KINDS if spec_trainable(spec) else [k for k in KINDS if k[0] not in ('train', 'fitcb')]
        ops = []
        for _ in range(rng.randint(1, 2)):
            ops += gen_history(rng, spec, 0, 2 if tier == 'quick' else 4, kinds)
            ops.append({'op': 'cost', 'seed': rng.seed32(), 'n': rng.randint(1, 9), 'bsz': rng.randint(1, 5), 'via': rng.pick(['trace', 'callback', 'fit', 'fit']) if spec_trainable(spec) else 'trace', 'rngmode': rng.pick(['half', f'seed:{rng.randrange(99)}']), 'epochs': rng.randint(1, 3)})
        return {'spec': spec, 'ops': ops}

    @staticmethod
    def run(ctx, case):
        S = Session(ctx, case['spec'])
        for op in case['ops']:
            if op['op'] == 'cost':
                C09.check(ctx, S, op)
            else:
                S.do(op)

    @staticmethod
    def free(m):
        cb = HGQ.FreeBOPs()
        cb.set_model(m)
        logs = {}
        cb.on_epoch_end(0, logs)
        return float(logs['bops'])

    @staticmethod
    def check(ctx, S, op):
        spec, m = S.spec, S.model
        xs = gen.data(spec, op['n'], op['seed'])
        single = not isinstance(xs, list)
        if op['via'] == 'fit':
            # a whole fit with the calibrating callback: the logged metric is the cost of the model as it is at the end of the epoch
            compile_(m, 0.02)
            cal = gen.data(spec, 4, op['seed'] + 3) if single else gen.data(spec, 4, op['seed'] + 3)
            n = op['n'] + 2
            xt = gen.data(spec, n, op['seed'] + 1, 1.0 if gen.has(spec, 'Signature') else 2.0)
            cbs = [HGQ.CalibratedBOPs(cal, bsz=3)] if single else [HGQ.FreeBOPs()]
            with RngSeam(op['rngmode']):
                _, h = attempt(ctx, 'fit', lambda: m.fit(xt, targets(m, n, op['seed']), batch_size=2, epochs=op.get('epochs', 1), shuffle=False, verbose=0, callbacks=cbs).history)
            logged = float(h['bops'][-1])
            if single:
                _, total = attempt(ctx, 'cal', lambda: trace(m, cal, 4))
                if abs(logged - float(total)) > 1e-5 * max(1, abs(logged)):
                    raise Violation('callback-logs-other-cost', f'CalibratedBOPs logged {logged}, calibration on the same data gives {float(total)}')
                xs = cal
            else:
                s = sum(float(v.bops) for v in gen.hlayers(m).values())
                if abs(logged - s) > 1e-5 * max(1, s):
                    raise Violation('cost-does-not-add-up', f'FreeBOPs logged {logged}, sum over layers {s}')
                _, total = attempt(ctx, 'cal', lambda: trace(m, xs, op['bsz']))
        elif op['via'] == 'callback' and single:
            def f():
                cb = HGQ.CalibratedBOPs(xs, bsz=op['bsz'])
                cb.set_model(m)
                logs = {}
                cb.on_epoch_end(op.get('epochs', 1) - 1, logs)
                return logs['bops']
            _, total = attempt(ctx, 'cal', f)
        else:
            _, total = attempt(ctx, 'cal', lambda: trace(m, xs, op['bsz']))
        total = float(total)
        per = {n: float(v.bops) for n, v in gen.hlayers(m).items()}
        if abs(sum(per.values()) - total) > 1e-5 * max(1, total):
            raise Violation('cost-does-not-add-up', f'total {total}, sum over layers {sum(per.values())}')
        if abs(C09.free(m) - total) > 1e-5 * max(1, total):
            raise Violation('cost-does-not-add-up', f'total {total}, FreeBOPs after calibration {C09.free(m)}')
        try:
            prm = ref.params(spec, m)
            acc = cover_ranges(spec, prm, ref.ranges(spec, prm, xs), 1.0)
            want = ref.bops_exact(spec, prm, acc)
        except ref.Ambiguous:
            want = None
        if want is not None:
            ctx.probe('exact-cost')
            for n, v in want.items():
                if abs(per[n] - v) > 1e-4 * max(1, v):
                    raise Violation('wrong-cost', f'layer {n}: {per[n]} reported, {v} by definition')
        C09.training(ctx, S, op, xs)
        ctx.event('cost', total)

    @staticmethod
    def training(ctx, S, op, xs):
        """Training-time estimate and loss terms."""
        spec, m = S.spec, S.model
        if not spec_trainable(spec):
            return
        HGQ.ResetMinMax.reset_minmax(m)
        bw = {n: 1 for n in gen.hlayers(m)}
        with RngSeam(op['rngmode']):
            attempt(ctx, 'forward', lambda: gen.as_list(m(xs, training=True)))
            losses = [float(v) for v in m.losses]
        if not np.all(np.isfinite(losses)):
            raise Violation('non-finite-loss', f'{losses}')
        per = {n: float(v.bops) for n, v in gen.hlayers(m).items()}
        want = sum(float(v.beta) * per[n] for n, v in gen.hlayers(m).items())
        reg = 0.0
        for node in gen.walk(spec):
            if node['cls'] not in gen.HCLS:
                continue
            layer = gen.hlayers(m)[node['id']]
            for key, qn in (('paq', 'paq'), ('kq', 'kq')):
                if qn == 'kq' and node['cls'] not in gen.KERNEL:
                    continue
                c = node.get(key)
                l1 = 1e-6 if c is None else c['regularizer'] or 0.0
                reg += l1 * float(np.sum(np.asarray(getattr(layer, qn).fbw)))
        want += reg
        scale = sum(abs(float(v.beta)) * per[n] for n, v in gen.hlayers(m).items()) + abs(reg) + 1e-6
        if abs(sum(losses) - want) > 1e-3 * scale:
            raise Violation('loss-misses-cost', f'regularisation losses sum to {sum(losses)}, beta x cost + width regularisation is {want}')
        ctx.probe('loss-terms')
        det = all((n.get(k) or {}).get('rnd_strategy', 'standard_round') in ('standard_round', 'floor', 0, 3, 'auto') and (n.get(k) or {}).get('exact_q_value', True) for n in gen.walk(spec) for k in ('paq', 'kq'))
        if det and not gen.has(spec, 'BatchNorm', 'Dropout'):
            try:
                prm = ref.params(spec, m)
                # training arithmetic is float32: values near a rounding boundary may fall on either side, so the cost is judged from the ranges actually recorded
                acc = {n: (np.asarray(v.paq._min, np.float64), np.asarray(v.paq._max, np.float64)) for n, v in gen.hlayers(m).items()}
                lo, hi = ref.bops_approx(spec, prm, acc, -1), ref.bops_approx(spec, prm, acc, 1)
            except ref.Ambiguous:
                return
            ctx.probe('training-cost')
            for n in lo:
                if not lo[n] * (1 - 1e-4) - 1e-3 <= per[n] <= hi[n] * (1 + 1e-4) + 1e-3:
                    raise Violation('wrong-training-cost', f'layer {n}: {per[n]} reported, between {lo[n]} and {hi[n]} by definition')


# ====================================================================================================== C11
class C11:
    id = 'C11'

    @staticmethod
    def gen(rng, tier):
        kind = rng.pick(['HDenseBatchNorm', 'HConv1DBatchNorm', 'HConv2DBatchNorm'])
        shape = {'HDenseBatchNorm': [rng.randint(2, 4)], 'HConv1DBatchNorm': [5, 2], 'HConv2DBatchNorm': [4, 3, 1]}[kind]
        if kind == 'HDenseBatchNorm' and rng.chance(0.3):
            shape = [3] + shape
        g = gen.G(rng, {'p_bn': 1.0, 'df': 3, 'rng': 2.0, 'stochastic': False, 'train': True})
        x, s = g.add('HQuantize', ['in0'], shape)
        x, s = g.dense(x, s) if kind == 'HDenseBatchNorm' else g.conv(x, s)
        for n in g.nodes:
            for k in ('paq', 'kq'):
                if n.get(k):
                    n[k]['exact_q_value'] = True
                    n[k]['trainable'] = True
        bn = g.nodes[-1]
        if rng.chance(0.5):
            bn['args']['momentum'] = 0.0
        spec = {'inputs': [shape], 'nodes': g.nodes, 'outputs': [x], 'wseed': rng.seed32(), 'df': 3, 'rng': 2.0, 'bits': [0.0, 4.0]}
        ops = [{'op': rng.weighted([('step', 4), ('infer', 1.5), ('cal', 1), ('convert', 0.5), ('restart', 1), ('interrupt', 1.2)]), 'seed': rng.seed32(), 'n': rng.randint(3, 8), 'lr': rng.pick([0.0, 0.0, 0.02]), 'fmt': rng.pick(['h5', 'keras', 'weights']), 'at': rng.randint(1, 260)} for _ in range(rng.randint(3, 6))]
        return {'spec': spec, 'ops': ops, 'fresh': rng.chance(0.5), 'adapt': rng.chance(0.8), 'graph': rng.chance(0.04)}

    @staticmethod
    def run(ctx, case):
        spec = case['spec']
        node = spec['nodes'][-1]
        bn = node['id']
        node['args']['do_adapt_kernel_bits'] = case['adapt']
        spec['freshbw'] = False
        S = Session(ctx, spec)
        m = S.model
        init = (node['kq'] or {'init_bw': 2})['init_bw']
        if case['fresh']:
            gen.layers(m)[bn].kq.fbw.assign(tf.ones_like(gen.layers(m)[bn].kq.fbw) * float(init))
        # True: must not be adapted any more.  The convolutions adapt their widths once at construction.
        adapted = not case['fresh'] or not case['adapt'] or 'Conv' in node['cls']
        for op in case['ops']:
            m = S.model
            k = op['op']
            layer = gen.layers(m)[bn]
            x = gen.data(spec, op['n'], op['seed'])
            before = C11.stats(layer)
            w0 = weights(m)
            if k in ('infer', 'cal', 'convert', 'restart'):
                if k == 'infer':
                    attempt(ctx, 'predict', lambda: gen.forward(m, x, 2))
                elif k == 'cal':
                    attempt(ctx, 'cal', lambda: trace(m, x, 3))
                elif k == 'convert':
                    try:
                        attempt(ctx, 'convert', lambda: convert(m, {'aggr': True}))
                    except OpFailed as e:
                        if not isinstance(e.__cause__, AssertionError):
                            raise
                else:
                    S.op_restart({'op': 'restart', 'fmt': op['fmt']})
                m = S.model
                d = dict_diff(w0, weights(m))
                if d:
                    raise Violation('statistics-changed-outside-training', f'{k}: {d}')
                continue
            # a training step on batch x
            xin = np.asarray(keras.Model(m.input, gen.layers(m)[spec['nodes'][0]['id']].output)(x, training=False), np.float64)
            want = C11.batch(layer, node, xin)
            fb0 = np.asarray(layer.kq.fbw, np.float64)
            compile_(m, op['lr'] if k == 'step' else 0.0)
            y = targets(m, op['n'], op['seed'])
            fault = {'kind': 'line', 'at': op['at'], 'exc': 'interrupt'} if k == 'interrupt' else None
            lr0 = op['lr'] == 0.0 or k == 'interrupt'
            twin = None
            if fault and not adapted:
                twin = clone(spec, m)  # the same step on the same model, never interrupted
                compile_(twin, 0.0)
                attempt(ctx, 'train', lambda: twin.train_on_batch(x, y))
            how, loss = attempt(ctx, 'train', lambda: m.train_on_batch(x, y), fault)
            layer = gen.layers(m)[bn]
            after = C11.stats(layer)
            C11.judge(ctx, node, before, want, after, how)
            # bit widths: adapted on the first step, exactly once
            clip = (node['kq'] or {'bw_clip': [-23, 23]})['bw_clip']
            see = lambda: np.clip(np.asarray(layer.kq.fbw, np.float64), *clip)
            fb1, fb0 = see(), np.clip(fb0, *clip)
            if how == 'fault':
                if not same([fb0], [fb1]):
                    if adapted:
                        raise Violation('interrupted-step-left-wrong-widths', f'interrupted training step with learning rate 0 changed widths: {first_diff([fb0], [fb1])}')
                    C11.like(twin, bn, clip, fb1, 'after the interruption')
                attempt(ctx, 'train', lambda: m.train_on_batch(x, y))
                if not adapted:
                    C11.like(twin, bn, clip, see(), 'after the repeated step')
                    ctx.probe('adapted-after-interruption')
            elif lr0 and adapted:
                if not same([fb0], [fb1]):
                    raise Violation('widths-adapted-again', f'kernel widths changed in a training step with learning rate 0: {first_diff([fb0], [fb1])}')
                ctx.probe('not-adapted-again')
            elif lr0:
                C11.equal_bits(ctx, layer, node, want, init, fb1, clip)
            adapted = adapted or not np.all(np.asarray(layer.kq.fbw) == init)  # clipped to the initial width: not to be told from a fresh layer
            if how == 'ok' and lr0:
                C11.agreement(ctx, spec, node, m, x)
        if case['graph']:
            C11.graph(ctx, spec, bn, S.model, case)
        ctx.event('bn', [dig(v) for v in C11.stats(gen.layers(S.model)[bn]).values()])

    @staticmethod
    def stats(layer):
        return {k: np.asarray(getattr(layer, k), np.float64) for k in ('moving_mean', 'moving_variance')}

    @staticmethod
    def batch(layer, node, xin):
        """Statistics of the un-normalised output on this batch."""
        a = node['args']
        k = np.asarray(layer.kernel, np.float64)
        if not a['scale']:
            conf = node['kq'] or {'rnd_strategy': 'standard_round', 'bw_clip': [-23, 23]}
            f = np.clip(np.asarray(layer.kq.fbw, np.float64), *conf['bw_clip'])
            kq = ref.q(k, f, conf['rnd_strategy'] in ('floor', 3))
        else:
            kq = k
        z = ref.affine(node, xin, kq)
        ax = tuple(range(z.ndim - 1))
        b = np.asarray(layer.bias, np.float64) if a.get('use_bias', True) else 0.0
        return {'mean': z.mean(ax) + b, 'var': z.var(ax), 'z': z, 'kernel': k}

    @staticmethod
    def judge(ctx, node, before, want, after, how):
        a = node['args']
        mom = a['momentum']
        unscaled_fresh = not a['scale']
        for nm, on, v in (('moving_mean', a['center'] and a.get('use_bias', True), want['mean']), ('moving_variance', a['scale'], want['var'])):
            if not on:
                if not same([before[nm]], [after[nm]]):
                    raise Violation('unused-statistic-changed', nm)
                continue
            t = mom * before[nm] + (1 - mom) * v
            tol = 1e-4 * (1 + np.abs(t))
            good = np.all(np.abs(after[nm] - t) <= tol)
            if how == 'fault':
                good = good or same([before[nm]], [after[nm]])
            if unscaled_fresh and not good and nm == 'moving_mean':
                continue  # the batch statistics are those of the quantized kernel, whose widths may be adapted within this very step
            if not good:
                raise Violation('wrong-moving-statistics', f'{nm}: {before[nm].ravel()[:3]} -> {after[nm].ravel()[:3]}, by the momentum rule {np.ravel(t)[:3]} (momentum {mom})')
            ctx.probe('recursion')

    @staticmethod
    def like(twin, bn, clip, fb, when):
        t = np.clip(np.asarray(gen.layers(twin)[bn].kq.fbw, np.float64), *clip)
        if not np.allclose(t, fb, atol=1e-3):
            raise Violation('interrupted-step-left-wrong-widths', f'{when}: {first_diff([fb], [t])} (never interrupted)')

    @staticmethod
    def equal_bits(ctx, layer, node, want, init, fb, clip):
        """After the adaption the weights of one output channel have the same number of significant bits (of all channels, without scaling)."""
        k = np.abs(want['kernel'])
        with np.errstate(divide='ignore'):
            ax = tuple(d for d in range(k.ndim) if fb.shape[d] == 1)
            b = fb + np.log2(k.max(ax, keepdims=True) if ax else k)
        free = (fb > clip[0] + 1e-6) & (fb < clip[1] - 1e-6) & np.isfinite(b)
        if not node['args']['scale']:
            ctx.probe('adapted')
            if np.any(free) and not np.allclose(b[free], init, atol=1e-3):
                raise Violation('widths-not-adapted', f'significant bits per weight {np.ravel(b[free])[:4]}, configured {init}')
            return
        if fb.shape[-1] == 1:
            return
        for c in range(fb.shape[-1]):
            v = b[..., c][free[..., c]]
            if v.size > 1:
                ctx.probe('adapted')
                if np.ptp(v) > 1e-3:
                    raise Violation('widths-not-adapted', f'channel {c}: significant bits per weight {v[:4]} differ')

    @staticmethod
    def graph(ctx, spec, bn, m, case):
        """The same step compiled to a graph."""
        a, b = clone(spec, m), clone(spec, m)
        x = gen.data(spec, 5, case['spec']['wseed'] % 1000)
        y = targets(m, 5, 3)
        if case['fresh']:
            for t in (a, b):
                kq = gen.layers(t)[bn].kq
                kq.fbw.assign(tf.ones_like(kq.fbw) * float(kq.init_bw))
        compile_(a, 0.0)
        for _ in range(2):
            attempt(ctx, 'train', lambda: a.train_on_batch(x, y))

        def f():
            with graph_mode():
                b.compile(keras.optimizers.SGD(0.0), 'mse', run_eagerly=False)
                for _ in range(2):
                    b.train_on_batch(x, y)
        attempt(ctx, 'train', f)
        ctx.probe('graph')
        wa, wb = weights(a), weights(b)
        for n in wa:
            if n.split('/')[0] == bn and not np.allclose(wa[n], wb[n], rtol=1e-3, atol=1e-3):
                raise Violation('graph-and-eager-training-differ', f'{n}: {first_diff([wa[n]], [wb[n]])}')

    @staticmethod
    def agreement(ctx, spec, node, m, x):
        """If the moving statistics are those of the batch (momentum 0), training and inference forward agree on it."""
        if node['args']['momentum'] != 0.0:
            return
        yt = gen.forward(m, x, training=True)[0]
        yi = gen.forward(m, x)[0]
        xin = np.asarray(keras.Model(m.input, gen.layers(m)[spec['nodes'][0]['id']].output)(x, training=False), np.float64)
        try:
            p = ref.params(spec, m)[node['id']]
            old, ref.TOL = ref.TOL, 3e-5
            try:
                kq, bq = ref.kernel_bias(node, p)
            finally:
                ref.TOL = old
        except ref.Ambiguous:
            ctx.probe('agreement:ambiguous')
            return
        z = ref.affine(node, xin, kq) + (0 if bq is None else bq)
        t = z * 2.0 ** np.round(p['abw']) + (0 if ref.rnd_of(node, p) else 0.5)
        clear = np.abs(t - np.round(t)) > 1e-3 * (1 + np.abs(t))  # training arithmetic is only float32-exact: a value on a rounding boundary may go either way
        ctx.probe('agreement', int(np.sum(clear)))
        bad = clear & ~np.isclose(yt, yi, rtol=1e-5, atol=1e-5)
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            raise Violation('training-and-inference-disagree', f'same batch, same statistics: {int(np.sum(bad))} of {int(np.sum(clear))} elements, first at {list(map(int, i))}: {yt[i]} in training, {yi[i]} in inference')
