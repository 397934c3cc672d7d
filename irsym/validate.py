"""Translator validation: concrete executions of the encoding (constant inputs)
against the compiled library, compared bit for bit."""
import random, time, os, subprocess, sys, json
from . import ta, terms as tm
from .meta import configs, HT_CYCLE


def run(ctx, prop, deadline, count=24):
    from .runner import run_tasks
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 7919 + sum(map(ord, prop)))
    names = list(ctx.api)
    rng.shuffle(names)
    tasks = []
    for n in names[:count]:
        tasks.append({'key': 'validate/' + n, 'f': n, 'seed': rng.random(), 'timeout': 40})
    try:
        ctx.nat.get()
    except Exception as e:
        return {'traces': 0, 'error': 'native build failed: ' + str(e)[:200]}
    os.environ['VERIF_SO'] = ctx.nat.get()
    res = run_tasks(tasks, _M, ctx, min(deadline, time.time() + 60))
    ok = sum(R.reached for _, R in res)
    bad = [R.note for _, R in res if R.status == 'undecided']
    return {'traces': ok, 'functions': len(tasks), 'mismatch': bad[:5], 'not_run': sum(R.status not in ('ok', 'undecided') for _, R in res),
            'what': 'random concrete inputs run through the encoding and through the native library (batch and streaming), outputs compared to 1e-9'}


class _M:
    @staticmethod
    def run(task, ctx, R):
        from . import native
        f = ctx.api[task['f']]
        rng = random.Random(task['seed'])
        c = configs(f)[0]
        L = native.setup(c.json())
        h = ta.H(ctx.lk)
        c.apply(h)
        lb = h.lookback(f, c.opt)
        N = lb + 12
        data = bars(f, N, rng)
        if 'inPeriods' in data:
            data['inPeriods'] = [float(rng.randint(1, 5)) for _ in range(N)]
        vals = [data[nm] for nm, _ in f.ins]
        ins = [h.arr(nm, N, vals=[tm.fc(x) for x in v]) for (nm, _), v in zip(f.ins, vals)]
        hb = h.fork()
        r, b, nb, outs = hb.batch(f, c.opt, ins, 0, N - 1, N)
        nr, nbg, nnb, nouts = native.batch(f, c.opt, vals, 0, N - 1)
        if (r, b, nb) != (nr, nbg, nnb):
            R.status = 'undecided'; R.note = '%s: %r vs native %r' % (f.name, (r, b, nb), (nr, nbg, nnb))
            return
        for (nm, ty), o, no in zip(f.outs, outs, nouts):
            for k in range(nb):
                x = hb.get(o, k, ty)
                x = x.val if isinstance(x, tm.T) else x
                if not native.close(x, no[k], 1e-9):
                    R.status = 'undecided'; R.note = '%s %s[%d]: encoding %r native %r' % (f.name, nm, k, x, no[k])
                    return
        R.reached += 1
        if f.has_state:
            st = native.Stream(f, c.opt)
            rr, hd = h.init_state(f, c.opt)
            s = h.state(hd)
            for i in range(N):
                r1, v1 = st.step([v[i] for v in vals])
                r2, v2 = h.step(f, s, [tm.fc(v[i]) for v in vals])
                if r1 != r2:
                    R.status = 'undecided'; R.note = '%s streaming %d: %r vs native %r' % (f.name, i, r2, r1)
                    return
                if r1 == 0:
                    for x, y in zip(v2, v1):
                        x = x.val if isinstance(x, tm.T) else x
                        if not native.close(x, y, 1e-9):
                            R.status = 'undecided'; R.note = '%s streaming %d: encoding %r native %r' % (f.name, i, x, y)
                            return
            st.free()
            R.reached += 1


def bars(f, N, rng):
    q = [0.0, 0.25, 0.5, 1, 2, 3]
    o = [round(rng.uniform(5, 15)) + rng.choice(q) for _ in range(N)]
    cl = [x + rng.choice([-3, -2, -1, -.5, 0, .5, 1, 2, 3]) for x in o]
    m = {'inOpen': o, 'inClose': cl, 'inHigh': [max(a, b) + rng.choice(q) for a, b in zip(o, cl)], 'inLow': [min(a, b) - rng.choice(q) for a, b in zip(o, cl)]}
    out = {}
    for nm, _ in f.ins:
        out[nm] = m.get(nm) or [rng.uniform(0.05, 0.95) if f.name in ('ACOS', 'ASIN', 'LN', 'LOG10', 'EXP', 'COSH', 'SINH', 'TANH') else rng.uniform(5, 15) for _ in range(N)]
    return out
