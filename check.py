#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded simulation of /repo.

VERIF_SEED chooses all randomness, VERIF_TIER (quick or thorough) how much is
explored. See DESIGN.md."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import build as builder

QUICK_S, THOROUGH_S = 45, 600
ASSUME = ['the writer keeps to the documented preconditions of DESIGN.md (regular rows, first time block complete and written first)',
          'casacore, libstdc++ and the kernel file system below the intercepted calls are trusted',
          'interleavings are sequentially consistent; compiler and hardware reordering is covered by the data race check only']
COMPONENTS = {
    'real': ['dysco storage manager, encoders, tools (all sources of the library and of dscompress/decompress, compiled from /repo)', 'casacore tables', 'libstdc++ iostreams, threads, mutexes (their system interface is simulated)'],
    'simulated': ['thread scheduler (pthread create/join, mutex, condition variables, atomics, instrumented memory accesses)', 'file system calls (short transfers, EINTR, EIO, ENOSPC, fsync, lost and torn writes)', 'process crash and power loss', 'clock, number of processors, random_device', 'heap (operator new: red zones, poison, failing allocations)'],
    'stub': ['none of the code under test']}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Checker:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = ['--thorough'] if self.tier == 'thorough' else []
        self.seconds = float(os.environ.get('VERIF_SECONDS', QUICK_S if self.tier == 'quick' else THOROUGH_S))
        self.cpus = sorted(os.sched_getaffinity(0))
        self.tmp = tempfile.mkdtemp(prefix='dysco-check-')
        self.t0 = time.time()
        self.known = self.read_known()

    # -- known findings ------------------------------------------------------
    def read_known(self):
        out = []
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', line.strip())
                if m and m.group(1) == self.prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
        return out

    def is_known(self, r):
        for rx, text in self.known:
            if rx.search(r['class'] + ': ' + r['msg']):
                return text
        return None

    # -- running -------------------------------------------------------------
    def sim(self, args, timeout=600):
        return subprocess.run([self.exe] + args, capture_output=True, text=True, timeout=timeout)

    def run_json(self, args, cpu=0):
        r = self.sim(args + ['--cpu', str(self.cpus[cpu % len(self.cpus)])])
        try:
            return json.loads(r.stdout.strip().split('\n')[-1])
        except (ValueError, IndexError):
            return {'violation': 0, 'toolfail': 1, 'class': 'no-output', 'msg': (r.stdout + r.stderr)[-300:], 'hash': '', 'ndev': 0, 'nfired': 0}

    def worker(self, k, n, start, end):
        out, fail, hashes = (os.path.join(self.tmp, '%s%d' % (w, k)) for w in ('out', 'fail', 'hash'))
        results, cur = [], start + k
        while time.time() < end and not self.stop:
            p = subprocess.Popen([self.exe, 'batch', '--prop', self.prop, '--seed', str(self.seed), '--start', str(cur), '--stride', str(n),
                                  '--seconds', '%.1f' % (end - time.time()), '--out', out, '--fail', fail, '--hashes', hashes, '--cpu', str(self.cpus[k % len(self.cpus)])] + self.thorough,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            self.procs.append(p)
            _, err = p.communicate()
            self.procs.remove(p)
            try:
                d = json.load(open(out))
            except (OSError, ValueError):
                if not self.stop:
                    self.errors.append('worker %d: %s' % (k, err[-400:]))
                return results
            results.append(d)
            raw = open(hashes, 'rb').read()
            v = struct.unpack('<%dQ' % (len(raw) // 8), raw)
            z = v.index(0)
            with self.lock:
                self.traces.update(v[:z]); self.scheds.update(v[z + 1:])
            if p.returncode == 3:
                self.errors.append('worker %d: %s' % (k, err[-400:]))
                return results
            if d['violation']:
                r = {'class': d['class'], 'msg': d['msg']}
                text = self.is_known(r)
                if text is None:
                    with self.lock:
                        self.failures.append((d['failSeed'], d['class'], d['msg'], fail))
                        self.stop = True
                        for q in list(self.procs):   # the others may finish their present run
                            q.terminate()
                    return results
                self.found_known.add(text)
                cur = d['failSeed'] - self.seed * 1000003 + n
            else:
                break
        return results

    def search(self):
        self.stop, self.procs, self.errors, self.failures, self.found_known = False, [], [], [], set()
        self.traces, self.scheds, self.lock = set(), set(), threading.Lock()
        n = max(1, len(self.cpus))
        end = time.time() + self.seconds
        t = time.time()
        with ThreadPoolExecutor(n) as ex:
            res = [d for rs in ex.map(lambda k: self.worker(k, n, 0, end), range(n)) for d in rs]
        self.search_s = time.time() - t
        return res

    # -- gate and minimise ---------------------------------------------------------
    def gate(self, plan):
        """The violation must come out the same twice, in fresh processes."""
        a, b = self.run_json(['replay', plan], 0), self.run_json(['replay', plan], 1)
        if not (a['violation'] and b['violation'] and a['class'] == b['class']):
            return None
        if a['hash'] != b['hash'] and a['class'] != 'hang':
            return None
        return a

    def fails(self, lines, cls, k):
        f = os.path.join(self.tmp, 'm%d-%d' % (threading.get_ident(), k))
        with open(f, 'w') as o:
            o.write('\n'.join(lines) + '\n')
        r = self.run_json(['replay', f], k)
        os.unlink(f)
        return bool(r['violation']) and r['class'] == cls

    def ddmin(self, lines, kinds, cls, deadline):
        """Removes lines of these kinds while the violation stays the same."""
        idx = [i for i, l in enumerate(lines) if l.split(' ', 1)[0] in kinds]
        n = 2
        par = len(self.cpus)
        with ThreadPoolExecutor(par) as ex:
            while idx and time.time() < deadline:
                size = max(1, (len(idx) + n - 1) // n)
                parts = [idx[i:i + size] for i in range(0, len(idx), size)]
                ok = None
                for base in range(0, len(parts), par):
                    group = parts[base:base + par]
                    cands = []
                    for g in group:
                        s = set(g)
                        cands.append([l for i, l in enumerate(lines) if i not in s])
                    futs = [ex.submit(self.fails, c, cls, k) for k, c in enumerate(cands)]
                    for g, f in zip(group, futs):
                        if f.result() and ok is None:
                            ok = g
                    if ok or time.time() > deadline:
                        break
                if ok is not None:
                    s = set(ok)
                    lines = [l for i, l in enumerate(lines) if i not in s]
                    idx = [i for i, l in enumerate(lines) if l.split(' ', 1)[0] in kinds]
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(idx), n * 2)
        return lines

    def minimise(self, plan, cls):
        limit = time.time() + (90 if self.tier == 'quick' else 300)
        lines = open(plan).read().split('\n')
        if cls == 'hang':
            return plan     # every try takes too long
        half = time.time() + (limit - time.time()) * 0.5
        lines = self.ddmin(lines, ('op',), cls, half)
        cur = os.path.join(self.tmp, 'min.plan')
        open(cur, 'w').write('\n'.join(lines) + '\n')
        cap = os.path.join(self.tmp, 'cap.plan')
        self.run_json(['replay', cur, '--capture', cap])
        if os.path.exists(cap) and self.gate(cap) and self.gate(cap)['class'] == cls:
            lines = open(cap).read().split('\n')
            lines = self.ddmin(lines, ('fault',), cls, limit)
            lines = self.ddmin(lines, ('dev',), cls, limit)
            lines = self.ddmin(lines, ('op',), cls, limit)
            fin = os.path.join(self.tmp, 'fin.plan')
            open(fin, 'w').write('\n'.join(lines) + '\n')
            g = self.gate(fin)
            if g and g['class'] == cls:
                return fin
            return cap
        g = self.gate(cur)
        return cur if g and g['class'] == cls else plan

    # -- evidence -------------------------------------------------------------------
    def evidence(self, res, violations, determinism):
        tot = lambda k: sum(d[k] for d in res)
        fired = {}
        for d in res:
            for k, v in d['fired'].items():
                fired[k] = fired.get(k, 0) + v
        ops = {}
        for d in res:
            for k, v in d['ops'].items():
                o = ops.setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
        user = [max([d['userMax'][i] for d in res] or [0]) for i in range(64)]
        usum = [sum(d['user'][i] for d in res) for i in range(64)]
        runs, hours = tot('runs'), max(self.search_s, 1e-3) / 3600
        samples = []
        for i in range(3):
            r = self.sim(['gen', self.prop, str(self.seed * 1000003 + i)] + self.thorough)
            ls = [l for l in r.stdout.split('\n') if l.split(' ', 1)[0] in ('seed', 'config', 'rate', 'table', 'op')]
            samples.append({'seed': self.seed * 1000003 + i, 'plan': ' | '.join(ls)[:2500]})
        cov = {
            'evaluations': runs,
            'distinct_nontrivial': len(self.traces),
            'rule': 'A case is one simulated execution; its seed decides table layout, operations, schedule and faults. It is non-trivial if worker threads ran with more than two context switches, a fault fired or a crash happened; it is distinct by the hash of its complete event trace (scheduling decisions, file operations, faults, steps).',
            'samples': samples,
            'runs_per_hour': int(runs / hours), 'seeds_per_hour': int(runs / hours),
            'simulated_time_s': round(tot('simNs') / 1e9, 3),
            'instrumented_steps': tot('steps'), 'scheduling_points': tot('points'), 'context_switches': tot('switches'), 'random_decisions': tot('decisions'),
            'threads_created': tot('threads'), 'file_operations': tot('fileOps'), 'max_runnable_threads': max([d['maxRunnable'] for d in res] or [0]),
            'distinct_interleavings': len(self.scheds),
            'interleaving_measure': 'hash of the sequence of (scheduling point, chosen thread)',
            'faults_fired': {k: v for k, v in fired.items() if v}, 'fault_kinds_never_fired': sorted(k for k, v in fired.items() if not v),
            'operations': {k: {'executed': v[0], 'without_effect': v[1]} for k, v in sorted(ops.items())},
            'runs_with_faults': tot('withFault'), 'runs_with_crash': tot('crashed'), 'runs_ended_by_reported_error': tot('reported'), 'recoveries_checked': tot('second'),
            'runs_with_concurrency': tot('multi'),
            'values_checked': usum[0], 'operations_that_reported_an_error': usum[1],
            'largest_error_over_tolerance_permille': {'row_or_rf': user[10], 'af': user[11], 'weight': user[14]},
            'determinism': determinism,
            'components': COMPONENTS, 'known_findings_seen': sorted(self.found_known),
        }
        if self.prop in ('C10', 'C11'):
            cov['crash'] = {'unsynced_writes_lost': usum[50], 'unsynced_writes_kept': usum[51], 'blocks_required_durable': usum[52], 'files_recovered': usum[53], 'blocks_intact': usum[54], 'blocks_examined': usum[55]}
        if self.prop == 'C13':
            cov['statistics'] = {'samples': usum[20], 'largest_mean_z_permille': user[21], 'largest_correlation_z_permille': user[22]}
        if self.prop == 'C06':
            cov['largest_queue_memory_bytes'] = user[41]
            cov['bytes_in_use_after_sessions'] = user[47]
        if self.prop == 'C21':
            cov['parallelism'] = {'runs_with_waiting_writer': usum[48], 'mean_share_of_threads_that_encode': round(usum[49] / 1000.0 / max(1, usum[48]), 3)}
        if usum[60] + usum[61]:
            cov['columns'] = {'added': usum[60], 'addition_refused': usum[61]}
        if usum[45]:
            cov['opens_for_writing_refused_by_a_read_only_file_system'] = usum[45]
        if usum[46]:
            cov['synchronisations_with_the_disk'] = usum[46]
        if usum[62]:
            cov['rows_refused_for_their_antenna'] = usum[62]
        if self.prop == 'C18':
            cov['truncations'] = usum[30]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov, 'assumptions': ASSUME,
              'wall_s': round(time.time() - self.t0, 1), 'violations': violations}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, self.prop + '.json'))

    def determinism(self):
        n, bad, runs = (3, 0, 0) if self.tier == 'quick' else (25, 0, 0)
        def one(k):
            return self.sim(['twice', self.prop, str(self.seed * 1000003 + 500000 + k * 1000), str(n), '--cpu', str(self.cpus[k % len(self.cpus)])] + self.thorough, timeout=900)
        with ThreadPoolExecutor(len(self.cpus)) as ex:
            rs = list(ex.map(one, range(len(self.cpus))))
        for r in rs:
            runs += len(r.stdout.split('\n')) - 1
            bad += r.stderr.count('not deterministic')
        return {'seeds_run_twice': runs, 'differences': bad}

    def main(self):
        self.exe = builder.build()
        log('built in %.1f s' % (time.time() - self.t0))
        res = self.search()
        runs = sum(d['runs'] for d in res)
        log('%s: %d runs in %.1f s, %d distinct interleavings' % (self.prop, runs, self.search_s, len(self.scheds)))
        if self.failures:
            for seed, cls, msg, plan in sorted(self.failures):
                log('seed %d: %s: %s' % (seed, cls, msg))
                g = self.gate(plan)
                if not g or g['class'] != cls:
                    log('not reproduced by replay: %s' % (g,))
                    self.errors.append('violation of seed %d does not reproduce' % seed)
                    continue
                best = self.minimise(plan, cls)
                g = self.gate(best)
                out = os.path.join(ROOT, 'evidence', 'replay-%s-%d.plan' % (self.prop, seed))
                os.makedirs(os.path.dirname(out), exist_ok=True)
                text = open(best).read()
                with open(out, 'w') as f:
                    f.write(text)
                self.evidence(res, len(self.failures), {'seeds_run_twice': 0, 'differences': 0})
                count = lambda w: sum(1 for l in text.split('\n') if l.startswith(w + ' '))
                print('%s: %s' % (g['class'], g['msg']))
                print('seed %d, minimised to %d operations, %d faults, %d scheduling deviations; reproduce with: python3 %s/replay.py %s' % (seed, count('op'), count('fault'), count('dev'), ROOT, out))
                print('VIOLATION property=%s replay=%s' % (self.prop, out), flush=True)
                return 1
        if self.errors:
            for e in self.errors:
                log('error: ' + e)
            self.evidence(res, 0, {'seeds_run_twice': 0, 'differences': 0})
            return 3
        for text in sorted(self.found_known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        det = self.determinism()
        if det['differences']:
            log('warning: %d of %d seeds differ when run twice' % (det['differences'], det['seeds_run_twice']))
        self.evidence(res, 0, det)
        if not runs:
            log('nothing was explored')
            return 3
        print('%s: no violation in %d simulated runs (%d distinct interleavings)' % (self.prop, runs, len(self.scheds)))
        return 0

if __name__ == '__main__':
    if len(sys.argv) != 2:
        sys.exit('usage: check.py <property>')
    c = Checker(sys.argv[1])
    try:
        rc = c.main()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)
