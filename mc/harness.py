"""Runs the jobs of one check over all cores, collects what was covered, prints violations, writes the evidence file.

A check module (mc/checks/<id>.py) defines
    LEVEL, RULE, ASSUMPTIONS, jobs(tier) -> [(function name, args)]
and functions f(ctx, *args) which explore and call ctx.viol(key, message, case) on every disagreement.
Everything is deterministic: no random choice is made anywhere, so a violation is replayed by re-running its job.
"""
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXV = 4            # violations kept per job
MEM = 3 << 30


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.evals = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.outcomes = {}
        self.notes = {}
        self.caps = []
        self.nviol = 0

    def ev(self, nontrivial=True):
        self.evals += 1
        if nontrivial:
            self.nontrivial += 1

    def outcome(self, k, n=1):
        k = k if isinstance(k, str) else repr(k)
        self.outcomes[k] = self.outcomes.get(k, 0) + n

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def viol(self, key, msg, case=None):
        """key: stable identification of the failing input / call site / history."""
        key, msg = str(key), str(msg)
        self.nviol += 1
        if any(v['key'] == key for v in self.violations):
            return
        if len(self.violations) < MAXV:
            self.violations.append({'key': key, 'msg': msg, 'case': case})

    @property
    def full(self):
        return len(self.violations) >= MAXV

    def cap(self, what):
        self.caps.append(what)


def scratch():
    """A scratch directory of this job only; removed when the job ends."""
    if _state['scratch'] is None:
        _state['scratch'] = tempfile.mkdtemp(prefix='job-', dir=os.environ.get('MC_SCRATCH'))
    return _state['scratch']


_state = {'scratch': None}


def run_job(modname, tier, fn, args):
    ctx = Ctx(tier)
    t = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    try:
        mod = importlib.import_module(modname)
        getattr(mod, fn)(ctx, *args)
    except BaseException as e:
        ctx.violations.append({
            'key': 'job-crash:%s:%s' % (fn, type(e).__name__),
            'msg': 'exploration could not proceed: ' + ''.join(traceback.format_exception(e))[-1500:],
            'case': None,
        })
    finally:
        from . import rt
        rt.disarm()
        if _state['scratch']:
            d = _state['scratch']
            _state['scratch'] = None
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
    ctx.wall = time.time() - t
    return ctx


def known(pid):
    """Keys of the recorded, unrepaired findings of this property."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = line[7:].split(' ', 2)
                if f[0] == 'property=' + pid:
                    assert f[1].startswith('key=')
                    out[f[1][4:]] = f[2]
    return out


def evidence(pid, tier, mod, ctxs, njobs, wall, nviol):
    def total(a):
        return sum(getattr(c, a) for c in ctxs)
    outcomes, notes, caps = {}, {}, []
    for c in ctxs:
        for k, v in c.outcomes.items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in c.notes.items():
            notes[k] = notes.get(k, 0) + v
        caps += c.caps
    samples = []
    for c in ctxs:
        samples += c.samples
    step = max(1, len(samples) // 8)
    cov = {
        'evaluations': total('evals'),
        'distinct_nontrivial': total('nontrivial'),
        'rule': mod.RULE,
        'samples': samples[::step][:8],
        'jobs': njobs,
        'jobs_completed': len(ctxs),
        'exhaustive': not caps and len(ctxs) == njobs,
        'outcomes': dict(sorted(outcomes.items(), key=lambda e: -e[1])[:40]),
        'distinct_outcomes': len(outcomes),
    }
    if mod.LEVEL == 'model_checking':
        cov['states'] = total('states')
        cov['transitions'] = total('transitions')
        cov['traces_validated_against_impl'] = total('traces')
    if notes:
        cov['counts'] = notes
    if caps:
        cov['caps_hit'] = sorted(set(caps))[:20]
    if hasattr(mod, 'BOUNDS'):
        cov['bounds'] = mod.BOUNDS.get(tier) if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    doc = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': mod.LEVEL,
        'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=repr)
        f.write('\n')


def run(pid, tier):
    t0 = time.time()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    top = os.environ['MC_SCRATCH'] = tempfile.mkdtemp(prefix='pywasm-mc-', dir=base)
    modname = 'mc.checks.' + pid
    mod = importlib.import_module(modname)
    jobs = mod.jobs(tier)
    budget = float(os.environ.get('MC_BUDGET', '780' if tier == 'quick' else '40000'))
    ctxs, viols = [], []
    kn = known(pid)
    hit = set()
    mp = multiprocessing.get_context('fork')
    workers = int(os.environ.get('MC_WORKERS', min(8, os.cpu_count() or 1)))
    ex = concurrent.futures.ProcessPoolExecutor(max_workers=workers, mp_context=mp, max_tasks_per_child=None)
    futs = {ex.submit(run_job, modname, tier, fn, args): (fn, args) for fn, args in jobs}
    pending = set(futs)
    stopped = None
    while pending:
        done, pending = concurrent.futures.wait(pending, timeout=5,
                                                return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
            fn, args = futs[f]
            try:
                c = f.result()
            except BaseException as e:
                viols.append(({'key': 'worker-died:%s' % fn, 'msg': 'worker process died: %r' % e, 'case': None},
                              fn, args))
                continue
            ctxs.append(c)
            for v in c.violations:
                if v['key'] in kn:
                    hit.add(v['key'])
                else:
                    viols.append((v, fn, args))
        if len(viols) >= int(os.environ.get('MC_STOP', 12)):
            stopped = 'stopped after %d violations' % len(viols)
        if time.time() - t0 > budget:
            stopped = 'time budget reached'
        if stopped:
            break
    procs = list((getattr(ex, '_processes', None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        p.kill()
    for p in procs:
        p.join(5)
    shutil.rmtree(top, ignore_errors=True)
    wall = time.time() - t0
    if stopped and ctxs:
        ctxs[0].caps.append(stopped)
    evidence(pid, tier, mod, ctxs, len(jobs), wall, len(viols))
    tot = sum(c.evals for c in ctxs)
    print('%s %s: %d jobs, %d evaluations, %d non-trivial, %d states, %d transitions, %.1fs' % (
        pid, tier, len(jobs), tot, sum(c.nontrivial for c in ctxs), sum(c.states for c in ctxs),
        sum(c.transitions for c in ctxs), wall))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    out = []
    for v, fn, args in viols[:20]:
        doc = {'property': pid, 'tier': tier, 'job': fn, 'args': args, 'key': v['key'], 'message': v['msg'],
               'case': v['case'], 'how': 'sh run.sh replay <this file>'}
        h = hashlib.sha1(json.dumps([pid, v['key']], default=repr).encode()).hexdigest()[:12]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (pid, h))
        with open(p, 'w') as f:
            json.dump(doc, f, indent=1, default=repr)
        print('  %s: %s' % (v['key'], v['msg'][:600]))
        out.append('VIOLATION property=%s replay=%s' % (pid, p))
    for e in out:
        print(e)
    sys.stdout.flush()
    os._exit(1 if viols else 0)


def replay(path):
    doc = json.load(open(path))
    modname = 'mc.checks.' + doc['property']
    a = doc['args']
    mod = importlib.import_module(modname)
    for fn, args in mod.jobs(doc['tier']):
        if fn == doc['job'] and json.loads(json.dumps(args, default=repr)) == a:
            c = run_job(modname, doc['tier'], fn, args)
            for v in c.violations:
                print('%s: %s' % (v['key'], v['msg']))
                if v['case'] is not None:
                    print('   case:', json.dumps(v['case'], default=repr)[:2000])
            same = [v for v in c.violations if v['key'] == doc['key']]
            print('reproduced' if same else 'not reproduced')
            sys.exit(1 if same else 0)
    print('no such job')
    sys.exit(2)


def main(argv):
    if argv[0] == 'replay':
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    run(argv[0], tier)


if __name__ == '__main__':
    from mc import harness          # the one instance of this module that the checks see, too
    harness.main(sys.argv[1:])
