"""Driver: python3-vt -m vp.run <property> [quick|thorough]"""
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback
from . import build, llir, native, task as tk

HERE = build.HERE
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'build', 'replays')


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.strip().split('=', 1) for x in l[8:].split(' | ')[0].split(';') if '=' in x)
                d['text'] = l.split(' | ', 1)[1] if ' | ' in l else ''
                out.append(d)
    return out


class Pool:
    """one forked process per task, at most `n` at a time, until the deadline"""

    def __init__(self, n):
        self.n = n
        self.run = {}      # fd -> (pid, task, start, buf)

    def start(self, task, mod, nat, seed):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                res = tk.run_task(task, mod, nat, seed)
                data = pickle.dumps(res)
            except BaseException:
                data = pickle.dumps(dict(name=task.name, status='undecided', why=traceback.format_exc()[-500:]))
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self.run[r] = [pid, task, time.time(), b'']

    def poll(self, t):
        done = []
        if not self.run:
            return done
        rd, _, _ = select.select(list(self.run), [], [], t)
        for fd in rd:
            e = self.run[fd]
            b = os.read(fd, 1 << 20)
            if b:
                e[3] += b
                continue
            os.close(fd)
            del self.run[fd]
            os.waitpid(e[0], 0)
            try:
                res = pickle.loads(e[3])
            except Exception:
                res = dict(name=e[1].name, status='undecided', why='worker ended (memory?)')
            done.append((e[1], res))
        for fd in list(self.run):
            e = self.run[fd]
            if time.time() - e[2] > e[1].timeout + 60:
                self.kill(fd)
                done.append((e[1], dict(name=e[1].name, status='undecided', why='time limit')))
        return done

    def kill(self, fd):
        e = self.run.pop(fd)
        try:
            os.killpg(e[0], signal.SIGKILL)
        except OSError:
            pass
        os.close(fd)
        try:
            os.waitpid(e[0], 0)
        except OSError:
            pass

    def killall(self):
        for fd in list(self.run):
            self.kill(fd)


def undef_free(model):
    return {k: hex(v) for k, v in model.items()}


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('VP_ONLY')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import checks
    prop = checks.PROPS[pid]
    tasks = prop.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t.name]
    budget = float(os.environ.get('VP_BUDGET', prop.budget[tier]))
    workers = int(os.environ.get('VP_WORKERS', os.cpu_count() or 4))
    d = os.path.join(HERE, 'build', '%s-%s' % (pid, tier))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    ents = prop.entries(tier)
    try:
        ll, _ = build.build_ir(d, ents, full=prop.full, inline=prop.inline)
        natp = build.build_native(d, 'dev')
    except build.BuildError as e:
        print('BUILD ERROR', e)
        return 2
    mod = llir.Module(open(ll).read())
    tb = time.time() - t0
    print('%s %s: built and parsed in %.1fs, %d tasks' % (pid, tier, tb, len(tasks)), flush=True)

    pool = Pool(workers)
    results = []
    queue = list(tasks)
    deadline = t0 + budget
    violated = []
    kf = [k for k in known_findings() if k.get('property') == pid]
    while (queue or pool.run):
        now = time.time()
        if now > deadline:
            break
        while queue and len(pool.run) < workers:
            t = queue.pop(0)
            t.timeout = max(5, min(t.timeout, deadline - time.time()))
            pool.start(t, mod, natp, seed)
        for t, r in pool.poll(1.0):
            results.append(r)
            if os.environ.get('VP_VERBOSE') or r['status'] not in ('proved',):
                print('  %-44s %-12s %5.1fs %s' % (r['name'], r['status'], r.get('wall', 0), r.get('why', '')), flush=True)
            if r['status'] == 'violated':
                violated.append(r)
        if violated and not os.environ.get('VP_ALL') and not kf:
            break
    for e in pool.run.values():
        results.append(dict(name=e[1].name, status='undecided', why='budget %ds' % budget))
    pool.killall()
    if not violated:
        for t in queue:
            results.append(dict(name=t.name, status='undecided', why='budget %ds, not started' % budget))

    rc = 0
    # ---- report
    fresh = []
    for r in violated:
        hit = None
        for k in kf:
            if k.get('task') == r['name'] and checks.same_finding(k, r):
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['text']))
        else:
            fresh.append(r)
    if fresh:
        try:
            fast = native.Native(build.build_native(d, 'fast'))
        except Exception:
            fast = None
    for i, r in enumerate(fresh):
        path = os.path.join(REPLAYS, '%s-%s.txt' % (pid, r['name'].replace('/', '_').replace(' ', '_')))
        with open(path, 'w') as f:
            f.write('property %s, task %s\ninput %s\n' % (pid, r['name'], undef_free(r['model'])))
            f.write('solver says: %s\n' % (r['what'],))
            f.write('replay on the real code (debug assertions and overflow checks on):\n')
            for l in r['log']:
                f.write('  ' + l + '\n')
            for b in r['bad']:
                f.write('  WRONG: %s: %s\n' % tuple(b))
            if fast:
                f.write('replay on an optimised build without debug assertions:\n')
                for l in r['log']:
                    req = l.split(' -> ')[0].split('   (')[0]
                    try:
                        a = fast._req(req)
                    except Exception as e:
                        a = e
                    f.write('  %s -> %s\n' % (req, 'PANIC' if a is None else a))
        print(open(path).read())
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        rc = 1
    err = [r for r in results if r['status'] in ('not-reproduced', 'encoding-mismatch')]
    for r in err:
        print('ENCODING PROBLEM %s: %s %s' % (r['name'], r['status'], r.get('why', '')))
        for l in r.get('log', []):
            print('   ', l)
        print('    ', r.get('what'), r.get('model'))
    for r in err:
        r['status'], r['why'] = 'undecided', 'encoding problem (%s) %s' % (r['status'], r.get('why', ''))
    if rc == 0 and not any(r['status'] == 'proved' for r in results):
        rc = 2

    und = [r for r in results if r['status'] == 'undecided']
    ok = [r for r in results if r['status'] == 'proved']
    for r in und:
        print('UNDECIDED %s: %s' % (r['name'], r.get('why', '')))
    funcs = sorted({f for r in results for f in r.get('funcs', [])})

    def tot(k):
        return sum(r.get(k, 0) for r in results)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('blocks'), 'transitions': tot('instrs'), 'traces_validated_against_impl': tot('vectors'),
            'samples': [r['sample'] for r in results if r.get('sample')][:6],
            'states_means': 'basic blocks of the compiled code executed symbolically',
            'transitions_means': 'instructions executed symbolically',
            'traces_means': 'sample inputs on which the encoding and the compiled code agreed in every output field',
            'tasks': len(results), 'tasks_decided': len(ok), 'tasks_undecided': [
                '%s: %s' % (r['name'], r.get('why', '')) for r in und],
            'queries': tot('queries'), 'queries_trivial': tot('trivial'), 'solver_seconds': round(tot('solver_s'), 1),
            'clauses': tot('clauses'), 'panic_obligations': tot('obls'), 'output_requirements': tot('reqs'),
            'merges': tot('merges'), 'exec_seconds': round(tot('exec_s'), 1),
            'reachability': '%d of %d tasks returned from the code on a sample input or witness' % (
                sum(1 for r in results if r.get('reach')), len(results)),
            'bounds': prop.bounds(tier),
            'decided': [{'task': r['name'], 'bound': r.get('bound', ''), 'queries': r['queries'], 'clauses': r['clauses'],
                         's': round(r['wall'], 1)} for r in ok],
            'functions_encoded': funcs, 'build_seconds': round(tb, 1),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(fresh),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d decided, %d undecided, %d violated, %d queries, solver %.0fs, wall %.0fs' % (
        pid, tier, len(ok), len(und), len(fresh), tot('queries'), tot('solver_s'), time.time() - t0), flush=True)
    shutil.rmtree(d, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
