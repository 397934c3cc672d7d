"""Runs the tasks of one property: each task in its own child process with a
memory and time limit, results collected, counterexamples replayed on the real
build, evidence written."""
import os, sys, time, json, pickle, signal, resource, select, traceback, tempfile, shutil, subprocess, threading
from . import repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
CPU = min(8, os.cpu_count() or 4)


class Result:
    """what one task reports"""

    def __init__(self):
        self.status = 'ok'          # ok | undecided | unsupported | timeout | memory | crash
        self.note = ''
        self.queries = []           # (label, method, verdict)
        self.cands = []             # candidate violations: dict(site, text, scens=[...])
        self.encoded = set()
        self.steps = 0
        self.states = 0
        self.bounds = ''
        self.solver = {}
        self.time = 0.0
        self.reached = 0            # reachability witnesses satisfied
        self.unreached = []


class Ctx:
    def __init__(self, lk, api, tier):
        self.lk = lk; self.api = api; self.tier = tier


def options(R):
    """counterexamples carry the values of symbolic options along with their inputs"""
    for c in R.cands:
        for s in c['scens']:
            o = getattr(s.get('ins'), 'opts', None)
            if o and 'cfg' in s:
                s['cfg'] = dict(s['cfg'], opt=dict(s['cfg']['opt'], **o))


def child(task, mod, ctx, wfd, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.setrecursionlimit(30000)
    from . import terms as tm, smt, norm
    R = Result()
    t = time.time()
    try:
        tm.reset(); norm.reset()
        for k in smt.STATS:
            smt.STATS[k] = 0
        mod.run(task, ctx, R)
        options(R)
    except MemoryError:
        R.status = 'memory'
    except BaseException as e:
        from .llir import Unsupported
        from .engine import PathAbort
        if isinstance(e, Unsupported):
            R.status = 'unsupported'; R.note = str(e)[:300]
        elif isinstance(e, PathAbort):
            R.status = 'unsupported'; R.note = 'every path aborted: ' + str(e)[:300]
        elif isinstance(e, RecursionError):
            R.status = 'memory'; R.note = 'recursion limit'
        elif 'out of memory' in str(e) or 'overflow encountered' in str(e):
            R.status = 'memory'; R.note = str(e)[:100]
        else:
            R.status = 'crash'; R.note = ''.join(traceback.format_exception(e))[-1500:]
    R.time = time.time() - t
    R.solver = dict(smt.STATS)
    try:
        data = pickle.dumps(R)
    except BaseException:
        R.cands = []
        R.status = 'crash'; R.note += ' (unpicklable result)'
        data = pickle.dumps(R)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_tasks(tasks, mod, ctx, deadline, verbose=False, mem=None):
    """tasks: list of dicts with 'key' and optional 'timeout'. yields (task, Result)"""
    mem = mem or (3 << 30)
    pend = list(tasks)
    live = {}
    out = []
    while pend or live:
        now = time.time()
        while pend and len(live) < CPU and now < deadline:
            t = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    for o in live.values():
                        os.close(o[0])
                    child(t, mod, ctx, w, t.get('mem', mem))
                finally:
                    os._exit(1)
            os.close(w)
            live[pid] = [r, t, min(deadline + 10, now + t.get('timeout', 60)), b'', now]
        if now >= deadline and pend:
            for t in pend:
                R = Result(); R.status = 'timeout'; R.note = 'not started before the deadline of this run'
                out.append((t, R))
            pend = []
        if not live:
            continue
        fds = [v[0] for v in live.values()]
        rd, _, _ = select.select(fds, [], [], 0.2)
        for pid in list(live):
            v = live[pid]
            if v[0] in rd:
                d = os.read(v[0], 1 << 20)
                if d:
                    v[3] += d
                    continue
                os.close(v[0])
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                try:
                    R = pickle.loads(v[3])
                except Exception:
                    R = Result(); R.status = 'memory'; R.note = 'worker ended without a result'
                    R.time = time.time() - v[4]
                out.append((v[1], R))
                if verbose:
                    show(v[1], R)
                del live[pid]
            elif time.time() > v[2]:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(v[0])
                R = Result(); R.status = 'timeout'; R.time = time.time() - v[4]
                out.append((v[1], R))
                if verbose:
                    show(v[1], R)
                del live[pid]
    return out


def show(t, R):
    m = {}
    for q in R.queries:
        k = '%s/%s' % (q[1], q[2]); m[k] = m.get(k, 0) + 1
    print('%-50s %-11s %5.1fs %s %s%s' % (t['key'], R.status, R.time, m, R.note[-400:],
          ''.join('\n    CAND ' + c['site'] + ': ' + c['text'][:300] for c in R.cands)), file=sys.stderr, flush=True)


# ------------------------------------------------------------------ replay
class Native:
    """native builds of /repo's current sources, made on demand"""

    def __init__(self, d):
        self.d = d
        self.lock = threading.Lock()
        self.so = {}
        self.asan = None

    def get(self, kind='plain'):
        with self.lock:
            if kind not in self.so:
                if kind == 'asan':
                    self.so[kind] = repo.build_so(self.d + '/asan', ('-O1', '-fno-omit-frame-pointer', '-fsanitize=address'))
                elif kind in ('fault', 'faultasan'):
                    fl = ('-O1', '-fno-omit-frame-pointer') + (('-fsanitize=address',) if kind == 'faultasan' else ())
                    self.so[kind] = repo.build_so(self.d + '/' + kind, fl + ('-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=fread,--wrap=fwrite',),
                                                  extra=[VERIF + '/irsym/fault.c'])
                elif kind == 'pat':
                    # two builds whose fresh memory (stack and heap) starts with different contents
                    for nm, fl in (('libta.so.zero', ('-ftrivial-auto-var-init=zero', '-DIRSYM_FILL=0')), ('libta.so', ('-ftrivial-auto-var-init=pattern', '-DIRSYM_FILL=0x41'))):
                        self.so[kind] = repo.build_so(self.d + '/pat', ('-O1',) + fl + ('-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=fread,--wrap=fwrite',),
                                                      name=nm, extra=[VERIF + '/irsym/fault.c'])
                elif kind == 'probe':
                    self.so[kind] = repo.build_so(self.d + '/probe', ('-O1',), extra=[VERIF + '/irsym/probe.c'])
                elif kind == 'ref':
                    self.so[kind] = repo.build_so(self.d + '/ref', ('-O2', '-ffp-contract=off', '-DNB=131072'), extra=[VERIF + '/irsym/refs.c', VERIF + '/irsym/refs_cdl.c'])
                elif kind == 'now':
                    self.so[kind] = repo.build_so(self.d + '/now', ('-O1', '-Wl,-z,now'))
                elif kind == 'ubsan':
                    self.so[kind] = repo.build_so(self.d + '/ubsan', ('-O1', '-fsanitize=undefined', '-fno-sanitize=shift', '-static-libubsan', '-fno-sanitize-recover=undefined'))
                else:
                    self.so[kind] = repo.build_so(self.d + '/plain', ('-O2', '-ffp-contract=off'))
            return self.so[kind]

    def replay(self, prop, scen, timeout=60):
        """run one scenario in a subprocess: (violated, text)"""
        kind = scen.get('build', 'plain')
        so = self.get(kind)
        env = dict(os.environ, VERIF_SO=so)
        if kind in ('asan', 'faultasan'):
            p = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=p, PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1')
        f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False, dir=self.d)
        json.dump({'property': prop, 'scenario': scen}, f); f.close()
        try:
            r = subprocess.run([sys.executable, VERIF + '/check.py', '--replay-inner', f.name], capture_output=True, text=True, env=env,
                               timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            if scen.get('hang'):
                return True, 'did not terminate within %d s' % timeout
            return False, 'replay timed out'
        finally:
            os.unlink(f.name)
        tail = (r.stdout + r.stderr)
        if r.returncode == 10:
            return True, r.stdout.strip()[-1500:]
        if r.returncode == 0:
            return False, r.stdout.strip()[-500:]
        if r.returncode == 77 and kind in ('asan', 'faultasan') or r.returncode < 0:
            i = tail.find('ERROR: AddressSanitizer')
            if r.returncode < 0 or i >= 0:
                return True, 'real build: exit %d %s' % (r.returncode, tail[i:i + 600] if i >= 0 else tail[-400:])
        if kind == 'ubsan' and 'runtime error' in tail:
            return True, tail[tail.find('runtime error') - 120:][:500]
        return False, 'replay error (exit %d): %s' % (r.returncode, tail[-600:])


def load_known():
    try:
        return json.load(open(VERIF + '/known_findings.json'))
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def main(prop, mod, tier, only=None, verbose=False, budget=None):
    t0 = time.time()
    budget = budget or (getattr(mod, 'QUICK_BUDGET', 170) if tier == 'quick' else 780)
    tmp = tempfile.mkdtemp(prefix='irsym_%s_' % prop)
    try:
        return _main(prop, mod, tier, only, verbose, budget, tmp, t0)
    finally:
        shutil.rmtree(tmp, True)


def _main(prop, mod, tier, only, verbose, budget, tmp, t0):
    from . import ta, engine
    from .meta import Meta
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nat = Native(tmp)
    bg = threading.Thread(target=lambda: _quiet(nat.get))
    mods = repo.build_ir(tmp + '/ir', extra=getattr(mod, 'EXTRA', ()))
    t_ir = time.time() - t0
    lk = engine.Linker(mods)
    api = ta.parse_api()
    ctx = Ctx(lk, api, tier)
    ctx.meta = Meta(lk, api)
    ctx.nat = nat
    ctx.tmp = tmp
    tasks = mod.tasks(ctx)
    if only:
        tasks = [t for t in tasks if any(o in t['key'] for o in only)]
    pre = getattr(mod, 'prepare', None)
    if pre:
        pre(ctx)
    res = run_tasks(tasks, mod, ctx, t0 + budget * 0.8, verbose)
    # ---- candidates -> replay
    known = load_known()
    kn = {k['site']: k for k in known.get('findings', []) if k['property'] == prop}
    viol = []; undec = []; hit = {}
    cands = []
    for t, R in res:
        for c in R.cands:
            cands.append((t, c))
    seen = {}
    if cands:
        _quiet(nat.get)
        for kind in sorted({s.get('build', 'plain') for _, c in cands for s in c['scens']}):
            _quiet(lambda: nat.get(kind))
    confirmed = set()
    from concurrent.futures import ThreadPoolExecutor

    def rep(tc):
        t, c = tc
        if c['site'] in confirmed or time.time() > t0 + budget:
            return None
        for s in c['scens']:
            ok, text = nat.replay(prop, s)
            if ok:
                confirmed.add(c['site'])
                return (c, s, text)
            c['replay_note'] = text
        return (c, None, c.get('replay_note', 'no concrete input'))
    with ThreadPoolExecutor(CPU) as ex:
        reps = [r for r in ex.map(rep, cands) if r]
    nfile = 0
    for f in os.listdir(EVID) if os.path.isdir(EVID) else []:
        if f.startswith('replay_%s_' % prop):
            os.unlink(EVID + '/' + f)
    done = set()
    for c, s, text in reps:
        site = c['site']
        if s is None:
            undec.append({'site': site, 'what': c['text'][:400], 'replay': text[:300]})
            continue
        if site in done:
            continue
        done.add(site)
        if site in kn:
            hit[site] = text
            continue
        nfile += 1
        path = '%s/replay_%s_%d.json' % (EVID, prop, nfile)
        os.makedirs(EVID, exist_ok=True)
        json.dump({'property': prop, 'site': site, 'what': c['text'], 'scenario': s, 'observed': text}, open(path, 'w'), indent=1)
        viol.append((site, path, c['text'], text))
    # ---- evidence
    enc = set()
    st = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}
    meth = {}
    stat = {}
    steps = states = reached = 0
    unre = []
    for t, R in res:
        enc |= R.encoded
        for k in st:
            st[k] += R.solver.get(k, 0)
        for q in R.queries:
            k = '%s: %s' % (q[1], q[2]); meth[k] = meth.get(k, 0) + 1
        stat[R.status] = stat.get(R.status, 0) + 1
        steps += R.steps; states += R.states; reached += R.reached
        unre += R.unreached
    open_tasks = [{'task': t['key'], 'status': R.status, 'note': R.note[:200]} for t, R in res if R.status != 'ok']
    val = {}
    if hasattr(mod, 'validate') and not only:
        try:
            val = mod.validate(ctx, t0 + budget)
        except Exception as e:
            val = {'error': repr(e)[:300]}
    elif not only:
        from . import validate
        try:
            val = validate.run(ctx, prop, t0 + budget, getattr(mod, 'VALIDATE', 24))
        except Exception as e:
            val = {'error': ''.join(traceback.format_exception(e))[-600:]}
    level = getattr(mod, 'LEVEL', 'model_checking')
    samples = []
    for t, R in res:
        if R.status == 'ok' and R.queries:
            samples.append({'task': t['key'], 'bounds': R.bounds, 'queries': [list(map(str, q)) for q in R.queries[:4]]})
        if len(samples) >= 6:
            break
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': max(states, 1 if steps else 0), 'transitions': steps,
            'traces_validated_against_impl': int(val.get('traces', 0)),
            'samples': samples,
            'tasks': len(res), 'task_status': stat,
            'obligations': sum(meth.values()),
            'discharged': sum(v for k, v in meth.items() if k.endswith(': unsat')),
            'obligations_by_method': meth,
            'solver': {'queries': st['queries'], 'unsat': st['unsat'], 'sat': st['sat'], 'unknown': st['unknown'], 'seconds': round(st['time'], 2)},
            'functions_encoded': len(enc), 'functions': sorted(enc),
            'bounds': getattr(mod, 'BOUNDS', '') + (getattr(mod, 'MORE', '') if any(t['key'].startswith('far/') for t, _ in res) else ''), 'outside': getattr(mod, 'OUTSIDE', ''),
            'reachability_witnesses': reached, 'unreached': unre[:50],
            'undecided': undec[:60], 'open_tasks': open_tasks[:120],
            'translator_validation': val, 'ir_build_s': round(t_ir, 1),
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'site': s, 'replay': p, 'what': w[:300]} for s, p, w, _ in viol],
    }
    os.makedirs(EVID, exist_ok=True)
    if not only:
        json.dump(ev, open('%s/%s.json' % (EVID, prop), 'w'), indent=1)
    for site in sorted(hit):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, site, kn[site]['what'][:200]))
    if verbose and os.environ.get('VERIF_WRITE_SITES'):
        json.dump([{'property': prop, 'site': s, 'what': (w + '; ' + t)[:300]} for s, p, w, t in viol], open(os.environ['VERIF_WRITE_SITES'], 'w'), indent=1)
    for site, path, w, text in viol[:12 if not verbose else 400]:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   %s: %s' % (site, w[:300]))
        print('   %s' % text[:200].replace('\n', '\n   '))
    print('%s %s: %d tasks %s, %d obligations (%d unsat), %d undecided candidates, solver %.1fs, wall %.1fs%s' % (
        prop, tier, len(res), stat, sum(meth.values()), ev['coverage']['discharged'], len(undec), st['time'], time.time() - t0,
        ', translator validation: %s' % {k: v for k, v in val.items() if k != 'samples'}))
    if verbose or os.environ.get("VERIF_NOTES"):
        for u in undec[:40]:
            print('   undecided', u)
    if verbose or os.environ.get("VERIF_NOTES"):
        for o in open_tasks[:20]: print("   open", o)
    if val.get("mismatch"):
        print('translator validation mismatch:', str(val['mismatch'])[:1000])
    return 1 if viol else 0


def _quiet(f):
    try:
        return f()
    except Exception as e:
        print('native build failed:', str(e)[:500], file=sys.stderr)
