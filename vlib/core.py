"""Property runner: Hypothesis generates cases, a Jython worker runs the toolkit on them, an oracle judges."""
import collections, hashlib, importlib, json, os, random, subprocess, sys, time, traceback, zlib

from .jy import Worker, WorkerHang, ToolkitError, HarnessError, VERIF, REPO

EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')


KNOWN_SIGS = set()


class Fail(Exception):
    """The toolkit broke the property on this case."""
    def __init__(self, msg, sig=None):
        self.sig = sig
        super().__init__(msg)


class Test:
    def __init__(self, name, strategy, run, quick=400, thorough=20000, weight=1.0, seeds=(), rule=''):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.weight, self.seeds, self.rule = quick, thorough, weight, list(seeds), rule


class Rec:
    """What one test explored."""
    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.known = collections.Counter()
        self._cur = None

    def begin(self):
        self._cur = set()
        self._nt = False
        self._soft = []

    def label(self, name, cond=True):
        if cond and self._cur is not None:
            self._cur.add(name)

    def soft(self, sig, msg):
        """a failure that does not stop the examination of the case (reported when nothing else fails)"""
        self._soft.append((sig, msg))

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def end(self, case, digest):
        self.evaluations += 1
        self.labels.update(self._cur)
        if self._nt:
            if digest not in self.distinct:
                self.distinct.add(digest)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.distinct) in (40, 200)):
                    s = json.dumps(case, ensure_ascii=True)
                    if len(s) < 3000:
                        self.samples.append(case)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest_of(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


class _Stop(Exception):
    pass


def judge(test, w, case, rec):
    """Run one case; raises Fail for any violation."""
    try:
        test.run(w, case, rec)
        if rec._soft:
            known = [x for x in rec._soft if x[0] not in KNOWN_SIGS]
            sig, msg = (known or rec._soft)[0]
            raise Fail(msg, sig=sig)
    except (Fail, HarnessError):
        raise
    except ToolkitError as e:
        raise Fail('unexpected exception %s' % e, sig='exc:' + e.type)
    except WorkerHang:
        raise Fail('an operation did not return within %d s (tried twice)' % w.timeout, sig='hang')
    except (BrokenPipeError, MemoryError, OSError) as e:
        raise HarnessError(repr(e))
    except Exception:
        raise Fail('observation is not of the expected form: ' + traceback.format_exc(limit=-3), sig='shape')


def load_known(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in data if k['property'] == prop and k['status'] == 'known']


def run_test(test, w, seed, max_examples, budget_s, rec, known_sigs, log):
    """Returns None or (case, message)."""
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck, given
    fail = {}
    t_end = time.monotonic() + budget_s
    state = {'first_fail_at': None, 'cut': False}
    failing = {}

    def body(case):
        now = time.monotonic()
        d = digest_of(case)
        if d in failing:
            raise Fail(failing[d])
        if state['first_fail_at'] is None:
            if now > t_end:
                state['cut'] = True
                return
        elif now > state['first_fail_at'] + 75:
            return
        rec.begin()
        try:
            judge(test, w, case, rec)
        except Fail as f:
            if f.sig is not None and f.sig in known_sigs:
                rec.known[f.sig] += 1
                rec.label('known-finding-hit')
                rec.end(case, d)
                return
            if state['first_fail_at'] is None:
                state['first_fail_at'] = now
                log('first failure in %s: %s' % (test.name, str(f)[:600]))
            failing[d] = str(f)
            size = len(canon(case))
            if 'case' not in fail or size <= fail['size']:
                fail.update(case=case, msg=str(f), size=size)
            raise Fail(str(f))
        rec.end(case, d)

    for case in test.seeds:
        rec.begin()
        try:
            judge(test, w, case, rec)
        except Fail as f:
            if f.sig is not None and f.sig in known_sigs:
                rec.known[f.sig] += 1
            else:
                return case, str(f)
        rec.end(case, digest_of(case))

    if max_examples <= 0:
        return None
    sett = settings(max_examples=max_examples, database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example]
                    if hasattr(HealthCheck, 'large_base_example') else [HealthCheck.too_slow, HealthCheck.data_too_large])
    strat = test.strategy() if callable(test.strategy) else test.strategy
    fn = hypothesis.seed(zlib.crc32(('%s/%s' % (seed, test.name)).encode()))(sett(given(strat)(body)))
    try:
        fn()
    except HarnessError:
        raise
    except Fail:
        pass
    except Exception as e:
        if not fail:
            raise HarnessError('generator error in %s: %s' % (test.name, traceback.format_exc(limit=-4)))
    if state['cut']:
        log('%s: time budget reached after %d cases' % (test.name, rec.evaluations))
    if fail:
        return fail['case'], fail['msg']
    return None


# A quick check should take about a minute: share of the quick cases of the slower ones
QUICK_SHARE = {'C04': .5, 'C05': .5, 'C07': .6, 'C08': .5, 'C09': .5, 'C10': .5, 'C11': .6, 'C14': .7, 'C15': .5, 'C18': .4,
               'C23': .4, 'C25': .5}


def shard_main(prop, tier, seed, shard, nshards, budget, out):
    mod = importlib.import_module('props.' + prop)
    known = load_known(prop)
    known_sigs = set(k['sig'] for k in known if k.get('sig'))
    KNOWN_SIGS.update(known_sigs)
    result = {'tests': {}, 'violations': [], 'known': [], 'error': None, 'log': []}
    t0 = time.monotonic()
    w = None

    def log(msg):
        result['log'].append('[%d %.0fs] %s' % (shard, time.monotonic() - t0, msg))
        if os.environ.get('VERIF_VERBOSE'):
            print(result['log'][-1], flush=True)
    try:
        w = Worker(mod.WORKER, tier)
        tests = mod.tests(tier)
        only = os.environ.get('VERIF_ONLY')
        if only:
            tests = [t for t in tests if t.name in only.split(',')]
        log('worker up in %.1f s' % w.startup)
        if shard == 0:
            for k in known:
                t = [t for t in tests if t.name == k['test']]
                if not t:
                    continue
                rec = Rec()
                rec.begin()
                try:
                    judge(t[0], w, k['case'], rec)
                except Fail as f:
                    if f.sig == k.get('sig'):
                        result['known'].append('%s %s' % (k['id'], k['what']))
                    else:
                        result['violations'].append({'test': t[0].name, 'case': k['case'], 'msg': str(f)})
        left_w = sum(t.weight for t in tests)
        t_gen0 = time.monotonic()
        for t in tests:
            left = budget - (time.monotonic() - t_gen0)
            share = max(2.0, left * t.weight / left_w)
            left_w -= t.weight
            rec = Rec()
            n = int(t.quick * QUICK_SHARE.get(prop, 1)) if tier == 'quick' else t.thorough
            n = (n + nshards - 1) // nshards
            if shard != 0:
                t.seeds = []
            ta = time.monotonic()
            bad = run_test(t, w, '%s/%d' % (seed, shard), n, share, rec, known_sigs, log)
            result['tests'][t.name] = {'evaluations': rec.evaluations, 'labels': dict(rec.labels),
                                       'distinct': sorted(rec.distinct), 'samples': rec.samples[:4], 'rule': t.rule,
                                       'known_hits': dict(rec.known), 'wall': time.monotonic() - ta}
            if bad:
                result['violations'].append({'test': t.name, 'case': bad[0], 'msg': bad[1]})
                break
        result['worker_calls'] = w.calls
    except HarnessError as e:
        result['error'] = str(e)
    except Exception:
        result['error'] = traceback.format_exc()
    finally:
        if w is not None:
            w.close()
    tmp = out + '.tmp'
    json.dump(result, open(tmp, 'w'))
    os.rename(tmp, out)
    return 2 if result['error'] else 1 if result['violations'] else 0


def prepare_repo():
    """Bring /repo's generated bindings in step with its schemas (as /opt/vp/build.sh does); drop stale byte code."""
    import glob
    raw = os.path.join(REPO, 'ebu_tt_live/bindings/raw')
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, 'ebu_tt_live/xsd/*.xsd'))):
        h.update(open(p, 'rb').read())
    want = h.hexdigest() + '  -'
    try:
        have = open(os.path.join(raw, '.stamp')).read().strip()
    except OSError:
        have = None
    if have != want or not os.path.exists(os.path.join(raw, '__init__.py')):
        r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError('build failed: ' + r.stdout.decode('utf-8', 'replace')[-2000:])
    for dp, dn, fn in os.walk(os.path.join(REPO, 'ebu_tt_live')):
        if os.path.basename(dp) == 'raw':
            continue
        for f in fn:
            if f.endswith('$py.class'):
                src = os.path.join(dp, f[:-len('$py.class')] + '.py')
                cls = os.path.join(dp, f)
                try:
                    if not os.path.exists(src) or os.path.getmtime(src) >= os.path.getmtime(cls):
                        os.unlink(cls)
                except OSError:
                    pass


def main(prop, tier, replay=None):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('PYTHONHASHSEED', '0')
    mod = importlib.import_module('props.' + prop)
    try:
        prepare_repo()
    except HarnessError as e:
        print('ERROR', e)
        return 2
    if replay:
        data = json.load(open(replay))
        t = [t for t in mod.tests(tier) if t.name == data['test']][0]
        w = Worker(mod.WORKER, tier)
        rec = Rec()
        rec.begin()
        try:
            judge(t, w, data['case'], rec)
        except Fail as f:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            print(str(f))
            return 1
        finally:
            w.close()
        print('replay passes')
        return 0
    nshards = int(os.environ.get('VERIF_SHARDS') or getattr(mod, 'SHARDS', {}).get(tier, 6))
    budget = float(os.environ.get('VERIF_BUDGET') or getattr(mod, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 1500))
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        procs = []
        for i in range(nshards):
            out = os.path.join(tmp, 'shard%d.json' % i)
            env = dict(os.environ, PYTHONHASHSEED='0')
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), prop, tier, '--shard', str(i), str(nshards),
                                  str(budget), out], env=env, start_new_session=True)
            procs.append((p, out))
        limit = time.monotonic() + budget + 300
        grace = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            now = time.monotonic()
            if grace is None and any(p.poll() == 1 for p, _ in procs):
                grace = now + 4
            if now > limit or (grace and now > grace):
                for p, _ in procs:
                    if p.poll() is None:
                        kill_tree(p)
                break
        for p, _ in procs:
            p.wait()
        results = []
        for i, (p, out) in enumerate(procs):
            if os.path.exists(out):
                results.append(json.load(open(out)))
            elif not grace:
                results.append({'error': 'shard %d gave no result (exit %r)' % (i, p.returncode), 'tests': {},
                                'violations': [], 'known': [], 'log': []})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(prop, mod, tier, seed, results, time.monotonic() - t0)


def kill_tree(p):
    """end a shard and its worker (the worker runs in its own session, found by parent pid)"""
    import signal
    kids = []
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                st = open('/proc/%s/stat' % d).read()
                if int(st.rsplit(')', 1)[1].split()[1]) == p.pid:
                    kids.append(int(d))
            except OSError:
                pass
    for k in kids + [p.pid]:
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass


def report(prop, mod, tier, seed, results, wall):
    os.makedirs(EVID, exist_ok=True)
    tests = {}
    violations, known, errors = [], [], []
    for r in results:
        if r['error']:
            errors.append(r['error'])
        violations += r['violations']
        known += r['known']
        for name, t in r['tests'].items():
            a = tests.setdefault(name, {'evaluations': 0, 'labels': collections.Counter(), 'distinct': set(), 'samples': [],
                                        'rule': t['rule'], 'known': collections.Counter()})
            a['evaluations'] += t['evaluations']
            a['labels'].update(t['labels'])
            a['distinct'].update(t['distinct'])
            a['known'].update(t['known_hits'])
            a['samples'] += [s for s in t['samples'] if len(a['samples']) < 2]
    code = 0
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        v = min(violations, key=lambda v: len(canon(v['case'])))
        path = os.path.join(REPLAYS, '%s-%s-%s.json' % (prop, v['test'], digest_of(v['case'])))
        json.dump({'property': prop, 'test': v['test'], 'case': v['case'], 'msg': v['msg']}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  test %s: %s' % (v['test'], v['msg'][:3000]))
        code = 1
    elif errors:
        for e in errors:
            print('ERROR', e)
        code = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': sum(t['evaluations'] for t in tests.values()),
              'distinct_nontrivial': sum(len(t['distinct']) for t in tests.values()),
              'rule': ' | '.join('%s: %s' % (n, t['rule']) for n, t in tests.items() if t['rule']),
              'samples': [{'test': n, 'case': s} for n, t in tests.items() for s in t['samples'][:2]],
              'per_test': {n: {'evaluations': t['evaluations'], 'distinct_nontrivial': len(t['distinct']),
                               'labels': dict(t['labels']), 'known_finding_hits': dict(t['known'])}
                           for n, t in tests.items()},
              'shards': len(results)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 1), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %.0f s -> exit %d' % (
        prop, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], wall, code))
    if os.environ.get('VERIF_VERBOSE'):
        for n, t in tests.items():
            print('  ', n, t['evaluations'], len(t['distinct']), dict(t['labels'].most_common()))
        for r in results:
            for l in r['log']:
                print('   ', l)
    return code
