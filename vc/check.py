"""Check driver: runs the tasks of one property, decides, writes evidence, prints the verdict."""
import ctypes, importlib, json, multiprocessing as mpz, os, random, re, subprocess, sys, time, traceback
import z3
from . import build, ir, sym, dom, ax
from .dom import Undecided

VERIF = build.VERIF


class Ctx:
    """per worker context collecting obligations and bounded runs"""

    def __init__(self, chk, task):
        self.chk = chk
        self.task = task
        self.results = []
        self.bounded = []
        self.functions = {}
        self.contracts = {}
        self.assumed = set()
        self.samples = []
        self.covers = []
        self.seed = chk.seed
        self.tier = chk.tier
        self.rng = random.Random('%s/%s/%s' % (chk.seed, chk.pid, task))
        self.solver_s = 0.0

    # ------------------------------------------------------------ obligations
    def prove(self, name, pc, goal, fn='', replay=None, timeout=6000, strict=False, nsamp=120, tol='1e-9', extra=(), numeric=True):
        """discharge one obligation; replay(env)->None|str runs the real code on a candidate point"""
        t = time.time()
        if isinstance(goal, (bool, int)):
            goal = z3.BoolVal(bool(goal))
        pc = [z3.BoolVal(bool(c)) if isinstance(c, (bool, int)) else c for c in pc]
        r = dict(name=name, fn=fn, status='undecided', backend=None, detail='')
        try:
            st, be, md = ax.prove(pc, goal, timeout, extra)
        except z3.Z3Exception as e:
            st, be, md = 'unknown', 'z3-error', None
            r['detail'] = str(e)[:200]
        r['backend'] = be
        dt = time.time() - t
        r['secs'] = round(dt, 3)
        self.solver_s += dt
        if st == 'proved':
            r['status'] = 'proved'
        else:
            r['formula'] = str(goal)[:1500]
            r['pc'] = [str(c)[:300] for c in pc[:12]]
            seeds = []
            if md is not None:
                seeds = [ax.model_env(md, ax.consts_of(list(pc) + [goal]))]
            pts, tested = ([], 0)
            if numeric:
                try:
                    pts, tested = ax.refute(pc, goal, self.rng, seeds, n=nsamp, tol=ax.mpf(tol))
                except Exception as e:
                    r['detail'] += ' refute: %r' % e
            elif st == 'sat':
                pts = seeds
            r['tested'] = tested
            if pts:
                r['status'] = 'refuted'
                r['points'] = [{k: str(v) for k, v in p.items()} for p in pts]
                if replay is not None:
                    confirmed = None
                    for p in pts:
                        try:
                            confirmed = replay(p)
                        except Exception as e:
                            r['detail'] += ' replay: %r' % e
                            continue
                        if confirmed:
                            r['status'] = 'violated'
                            r['witness'] = {k: str(v) for k, v in p.items()}
                            r['detail'] = confirmed
                            break
                    if not confirmed and not strict:
                        r['status'] = 'undecided'
                        r['detail'] += ' (real-arithmetic counterexample not reproduced by the real code)'
                elif not strict:
                    r['status'] = 'undecided'
            elif st == 'sat' and strict and not numeric:
                r['status'] = 'refuted'
        self.results.append(r)
        return r['status'] == 'proved'

    def fail_obl(self, name, detail, fn='', status='undecided', **kw):
        self.results.append(dict(name=name, fn=fn, status=status, backend=None, secs=0, detail=detail, **kw))

    def cover(self, name, ok):
        """reachability (vacuity guard): some path satisfies the precondition"""
        self.covers.append((name, bool(ok)))

    def absorb(self, ex):
        for k, v in ex.inlined.items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k, v in ex.called.items():
            self.contracts[k] = self.contracts.get(k, 0) + v
        self.assumed |= set(ex.assumed)
        self.solver_s += ex.solver_time

    def native(self, name, n, failures, rule='', sample=None):
        """a bounded run on the real code"""
        self.bounded.append(dict(name=name, evaluations=n, failures=failures[:5], nfail=len(failures), rule=rule))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)


def _worker(args):
    chk, task = args
    c = Ctx(chk, task[0])
    t = time.time()
    try:
        task[1](c, *task[2:])
    except Undecided as e:
        c.fail_obl(str(task[0]), 'undecided: %s' % e)
    except Exception as e:
        c.fail_obl(str(task[0]), 'machinery: %s' % traceback.format_exc()[-800:])
    return dict(task=str(task[0]), results=c.results, bounded=c.bounded, functions=c.functions, contracts=c.contracts,
                assumed=sorted(c.assumed), samples=c.samples, covers=c.covers, secs=time.time() - t, solver=c.solver_s)


_CHK = None


def _run_idx(i):
    return _worker((_CHK, _CHK.tasks[i]))


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.tasks = []
        self.scratch = build.Scratch()
        self.level = 'proof'
        self.trusted = []
        self.assumptions = []
        self.notes = []
        self.natexe = []
        self.build_failures = []
        self.thorough = self.tier == 'thorough'

    def task(self, name, fn, *a):
        self.tasks.append((name, fn) + a)

    def run(self, jobs=None):
        global _CHK
        _CHK = self
        jobs = jobs or max(2, min(8, os.cpu_count() or 4))
        out = []
        if self.tasks:
            ctx = mpz.get_context('fork')
            tmo = float(os.environ.get('VC_BUDGET', '2400' if self.thorough else '240'))
            with ctx.Pool(jobs, maxtasksperchild=50) as pool:
                rs = [(i, pool.apply_async(_run_idx, (i,))) for i in range(len(self.tasks))]
                end = time.time() + tmo
                for i, r in rs:
                    try:
                        out.append(r.get(max(1.0, end - time.time())))
                    except mpz.TimeoutError:
                        out.append(dict(task=str(self.tasks[i][0]), results=[dict(name=str(self.tasks[i][0]), fn='', status='undecided',
                                   backend=None, secs=0, detail='time budget')], bounded=[], functions={}, contracts={}, assumed=[],
                                   samples=[], covers=[], secs=0, solver=0))
                    except Exception as e:
                        out.append(dict(task=str(self.tasks[i][0]), results=[dict(name=str(self.tasks[i][0]), fn='', status='undecided',
                                   backend=None, secs=0, detail='worker: %r' % e)], bounded=[], functions={}, contracts={}, assumed=[],
                                   samples=[], covers=[], secs=0, solver=0))
                pool.terminate()
        return out

    # ------------------------------------------------------------ verdict
    def finish(self, outs):
        res = [r for o in outs for r in o['results']]
        seen, uniq = set(), []
        for r in res:      # the frame of one function, met in several modules
            if r.get('backend') == 'frame':
                if r['name'] in seen:
                    continue
                seen.add(r['name'])
            uniq.append(r)
        res = uniq
        bnd = [b for o in outs for b in o['bounded']]
        fns, cts, assumed, samples, covers = {}, {}, set(), [], []
        for o in outs:
            for k, v in o['functions'].items():
                fns[k] = fns.get(k, 0) + v
            for k, v in o['contracts'].items():
                cts[k] = cts.get(k, 0) + v
            assumed |= set(o['assumed'])
            samples += o['samples']
            covers += o['covers']
        known = self.load_known()
        proved = [r for r in res if r['status'] == 'proved']
        violated = [r for r in res if r['status'] == 'violated']
        refuted = [r for r in res if r['status'] == 'refuted']
        und = [r for r in res if r['status'] == 'undecided']
        natf = [(b['name'], f) for b in bnd for f in b['failures']]
        lines = []
        exit_code = 0
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        n = 0
        viols = 0
        kf = {}

        def emit(kind, name, payload, nofail):
            nonlocal n, exit_code, viols
            text = name + ' ' + json.dumps(payload, default=str)
            for k in known:
                if re.search(k['match'], text):
                    kf.setdefault(k['id'], k)
                    return
            viols += 1
            exit_code = 1
            if n >= 8:
                return
            n += 1
            p = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
            payload = dict(payload)
            payload.update(property=self.pid, kind=kind, obligation=name, seed=self.seed, tier=self.tier,
                           rerun='cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (self.seed, self.tier, self.pid))
            json.dump(payload, open(p, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (self.pid, p, ' no-failing-input-found' if nofail else ''))
        for r in violated:
            emit('refuted obligation, reproduced on the real code', r['name'], r, False)
        for name, f in natf:
            emit('real code failed on this input', name, f if isinstance(f, dict) else dict(failure=f), False)
        if not lines:
            for r in refuted:
                emit('refuted obligation', r['name'], r, True)
        # vacuity
        vac = [c for c, ok in covers if not ok]
        nob = len(res)
        if os.environ.get('VC_VERBOSE'):
            for r in res:
                if r['status'] != 'proved' or os.environ['VC_VERBOSE'] == '2':
                    print('  [%s] %s %s %s %s' % (r['status'], r['name'], r.get('backend'), r.get('secs'), r.get('detail', '')[:1500]))
                    if r['status'] in ('refuted', 'violated') or r.get('formula'):
                        print('       ', r.get('formula', '')[:600].replace('\n', ' '), r.get('points', '')[:1] if r.get('points') else '')
            for b in bnd:
                if b['nfail']:
                    print('  [native FAIL] %s %s' % (b['name'], b['failures'][:2]))
            for o in sorted(outs, key=lambda o: -o['secs'])[:6]:
                print('  task %-40s %.2fs solver %.2fs' % (o['task'], o['secs'], o['solver']))
            print('  builds', {k: round(v, 1) for k, v in self.scratch.times.items()}, 'fails', self.build_failures)
        slow = sorted(res, key=lambda r: -(r.get('secs') or 0))[:3]
        cov = dict(
            obligations=nob, discharged=len(proved),
            checker_cmd='python3-vt /verif/check %s (VC generator over LLVM IR of /repo, back ends z3 %s)' % (self.pid, z3.get_version_string()),
            trusted_base=['clang-18 front end (C++ -> LLVM IR, -O0)', 'vc/: IR symbolic executor and loop rules', 'z3 ' + z3.get_version_string()] + self.trusted,
            backends={b: sum(1 for r in proved if r['backend'] == b) for b in sorted({r['backend'] for r in proved if r['backend']})},
            solver_seconds=round(sum(o['solver'] for o in outs), 2),
            functions_under_contract=sorted(fns)[:400], functions_executed=len(fns),
            callee_contracts_used=sorted(cts)[:200],
            assumed_external=sorted(assumed),
            vacuity_covers=len(covers), vacuous=vac[:10],
            undischarged=[dict(name=r['name'], status=r['status'], why=r.get('detail', '')[:300]) for r in und + refuted][:60],
            slowest=[(r['name'], r.get('secs')) for r in slow],
            bounded_native=dict(label='bounded supplement on the real code, not counted as proof',
                                evaluations=sum(b['evaluations'] for b in bnd), suites=len(bnd),
                                failures=sum(b['nfail'] for b in bnd), rules=sorted({b['rule'] for b in bnd if b['rule']})[:12]),
            samples=samples[:6], build_failures=self.build_failures[:5], notes=self.notes)
        for k in kf.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions + ['undischarged obligations listed under coverage.undischarged are decided only by the bounded supplement'] if und else self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=viols)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; bounded evaluations %d (%d failing); covers %d (%d vacuous); %.1fs' % (
            self.pid, nob, len(proved), len(und), len(refuted) + len(violated), sum(b['evaluations'] for b in bnd),
            sum(b['nfail'] for b in bnd), len(covers), len(vac), time.time() - self.t0))
        for l in lines:
            print(l)
        self.scratch.close()
        if not exit_code and not nob and not sum(b['evaluations'] for b in bnd):
            print('ERROR: nothing was explored: ' + ' '.join(self.build_failures)[-1500:])
            return 2
        return exit_code

    def load_known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get('property') == self.pid and k.get('status') == 'open']


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else None
    import signal
    mod = importlib.import_module('props.' + pid)
    c = Check(pid, tier)
    try:
        try:
            mod.setup(c)
        except build.BuildError as e:
            c.build_failures.append(str(e)[-1500:])
        outs = c.run()
        return c.finish(outs)
    finally:
        c.scratch.close()
