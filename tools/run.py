#!/usr/bin/env python3
"""Runs the monitors of one property and gives the verdict.

usage: run.py --prop Pxx [--tier quick|thorough] [--seed N]
       run.py --replay build/replay/Pxx-1.json

exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING)
exit 1: "VIOLATION property=<id> replay=<path>" printed
exit 2: the check itself failed (build error, nothing observed); not a verdict
"""
import argparse, concurrent.futures, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as P

VERIF = B.VERIF
SHARED_HEAD = struct.Struct('6q')
DESC = 4096 - 48
NSIG = 1 << 17
SANITIZER = 77

ENV_BASE = {
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
    'LC_ALL': 'C',
}


def asan_options(fill, extra=''):
    return ('exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:'
            'max_malloc_fill_size=1073741824:malloc_fill_byte=%d:detect_stack_use_after_return=0:'
            'handle_abort=0:quarantine_size_mb=64:max_allocation_size_mb=4096%s' % (fill, extra))


def crash_signature(rc, err):
    """A stable name for how a process died."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    frame = ''
    for f in re.finditer(r'#\d+ 0x[0-9a-f]+ in ([^\s(]+)[^\n]*?(/repo/[^\s:]+)', err):
        frame = f.group(1)
        break
    if m:
        return 'asan:%s:%s' % (m.group(1), frame)
    m = re.search(r'([\w/.-]+):\d+:\d+: runtime error: ([^\n]{0,60})', err)
    if m:
        return 'ubsan:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'[0-9a-fx]{6,}|-?\d+', 'N', m.group(2)))
    m = re.search(r"(/usr/include/c\+\+[^\s:]*/([\w.]+)):\d+:[^\n]*Assertion '([^\n]*?)' failed", err)
    if m:
        return 'glibcxx:%s:%s' % (m.group(2), m.group(3))
    m = re.search(r"Assertion `([^\n]*?)' failed", err)
    if m:
        return 'assert:' + m.group(1)
    if rc is not None and rc < 0:
        try:
            return 'signal:' + signal.Signals(-rc).name
        except ValueError:
            return 'signal:%d' % -rc
    return 'exit:%s' % rc


def is_memory(sig):
    """Crashes that say something about memory, whatever else went wrong."""
    return sig.startswith(('asan:', 'ubsan:', 'glibcxx:')) or sig in ('signal:SIGSEGV', 'signal:SIGBUS', 'signal:SIGILL')


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = P.PROPS[prop]
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        os.chmod(self.tmp, 0o755)
        self.viol = []      # dicts: key family case msg
        self.samples = []
        self.sigs = set()
        self.stats = dict(cases=0, checks=0, aborts=0, events=0)
        self.famstat = {}
        self.notes = []
        self.errors = []
        self.hung = set()   # families with a confirmed hang: not run further
        self.deadline = time.time() + (600 if tier == 'quick' else 5 * 3600)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def read_shared(self, path):
        try:
            data = open(path, 'rb').read()
        except OSError:
            return None
        if len(data) < 4096:
            return None
        cur, done, checks, nsig, aborts, events = SHARED_HEAD.unpack_from(data, 0)
        desc = data[48:4096].split(b'\0')[0].decode('latin1')
        return dict(current=cur, done=done, checks=checks, aborts=aborts, events=events, desc=desc, raw=data)

    def spawn(self, h, family, begin, end, tag, fill):
        out, prog = os.path.join(self.tmp, tag + '.out'), os.path.join(self.tmp, tag + '.prog')
        scratch = os.path.join(self.tmp, tag + '.d')
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        env = dict(os.environ)
        env.update(ENV_BASE)
        env['ASAN_OPTIONS'] = asan_options(fill, h.get('asan', ''))
        env.pop('RANDSEED', None)
        if self.prop == 'P02':
            env['VERIF_GUARD'] = '1'
        cmd = h.get('wrap', []) + [h['exe'], '--prop', h.get('owner', self.prop), '--family', family, '--begin', str(begin),
                                   '--end', str(end), '--seed', str(self.seed + h.get('shift', 0)), '--tier', self.tier,
                                   '--out', out, '--progress', prog, '--scratch', scratch,
                                   '--leaks', '1' if h.get('crash_only') and h.get('flavor', 'asan') == 'asan' else '0']
        errf = open(os.path.join(self.tmp, tag + '.err'), 'wb')
        p = subprocess.Popen(cmd, stdout=errf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env, cwd=scratch, start_new_session=True)
        last, t_last = None, time.time()
        hung = False
        limit = h.get('stall', 40) * (2 if tag.endswith('.again') else 1)
        delay = 0.005
        while True:
            try:
                p.wait(timeout=delay)
                break
            except subprocess.TimeoutExpired:
                delay = min(0.2, delay * 1.5)
            try:
                with open(prog, 'rb') as f:
                    now = f.read(32)
            except OSError:
                now = None
            if now != last:
                last, t_last = now, time.time()
            elif time.time() - t_last > limit:
                hung = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        errf.close()
        err = open(errf.name, 'rb').read()[:60000].decode('latin1')
        sh = self.read_shared(prog)
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        shutil.rmtree(scratch, ignore_errors=True)
        for x in (out, prog, errf.name):
            if os.path.exists(x):
                os.unlink(x)
        return p.returncode, hung, err, sh, lines

    def run_slice(self, h, family, begin, end, tag, fill):
        """Runs cases begin..end-1, restarting after a crash."""
        viol, samples, sigs = [], [], set()
        st = dict(cases=0, checks=0, aborts=0, events=0)
        errors = []
        crashes = 0
        while begin < end:
            if family in self.hung or time.time() > self.deadline:
                self.notes.append('not run: %s cases %d..%d' % (family, begin, end))
                break
            rc, hung, err, sh, lines = self.spawn(h, family, begin, end, tag, fill)
            for l in lines:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d['t'] == 'violation':
                    if h.get('crash_only') and not d['key'].endswith(':leak'):
                        continue  # judged by the property that owns the workload
                    d['fill'] = fill
                    viol.append(d)
                elif d['t'] == 'sample':
                    samples.append(d)
            if sh:
                st['cases'] += sh['done']
                for k in ('checks', 'aborts', 'events'):
                    st[k] += sh[k]
                raw = sh['raw']
                for (x,) in struct.iter_unpack('Q', raw[4096:4096 + 8 * NSIG]):
                    if x:
                        sigs.add(x)
            if rc == 0 and not hung:
                break
            if rc in (98, 99) or sh is None or sh['current'] < 0:
                errors.append('%s/%s: harness ended with %s outside a case: %s' % (self.prop, family, rc, err[-600:]))
                break
            cur = sh['current']
            crashes += 1
            if hung and family in self.hung:
                break
            if hung and h.get('crash_only'):
                self.hung.add(family)
                self.notes.append('%s case %d hung (not judged here)' % (family, cur))
            elif hung:
                rc2, hung2, err2, sh2, _ = self.spawn(h, family, cur, cur + 1, tag + '.again', fill)
                if hung2:
                    self.hung.add(family)
                    viol.append(dict(key=family + ':hang', family=family, case=cur, fill=fill,
                                     msg='no progress (twice)', input=sh['desc']))
                else:
                    self.notes.append('inconclusive: %s case %d was slow once' % (family, cur))
            elif rc == -9:
                errors.append('%s/%s case %d: the process was killed (memory?)' % (self.prop, family, cur))
            else:
                sig = crash_signature(rc, err)
                if h.get('crash_only') and not is_memory(sig):
                    self.notes.append('%s case %d ended by %s (not judged here)' % (family, cur, sig))
                    st['cases'] += 1
                    begin = cur + 1
                    if crashes >= 40:
                        break
                    continue
                viol.append(dict(key='%s:crash:%s' % (family, sig), family=family, case=cur, fill=fill,
                                 msg=err[:3000], input=sh['desc']))
                st['cases'] += 1
            begin = cur + 1
            if crashes >= 15:
                break
        return viol, samples, sigs, st, errors, family

    def run(self, only=None):
        """only: (harness, family, case, fill) for a replay."""
        hs = []
        flavors = {}
        for h in self.conf['harness']:
            if h.get('tier') and h['tier'] != self.tier and not only:
                continue
            hs.append(h)
            flavors.setdefault(h.get('flavor', 'asan'), []).append(h['name'])
        dirs = {}
        for fl, names in flavors.items():
            dirs[fl] = B.build(fl, sorted(set(names)))
        jobs = []
        ncpu = os.cpu_count() or 8
        for h in hs:
            h = dict(h)
            h['exe'] = os.path.join(dirs[h.get('flavor', 'asan')], h['name'])
            env = dict(os.environ); env.update(ENV_BASE); env['ASAN_OPTIONS'] = asan_options(255)
            r = subprocess.run([h['exe'], '--list'], stdout=subprocess.PIPE, text=True, env=env)
            if r.returncode != 0:
                raise RuntimeError('cannot list ' + h['exe'])
            for line in r.stdout.split('\n'):
                w = line.split()
                if len(w) != 4 or (w[0] not in h['workloads_of'] if 'workloads_of' in h else w[0] != self.prop):
                    continue
                if 'workloads_of' in h:
                    h = dict(h, owner=w[0])
                fam, n = w[1], int(w[2] if self.tier == 'quick' else w[3])
                if 'families' in h and fam not in h['families']:
                    continue
                if self.tier == 'quick' and 'workloads_of' not in h:
                    n *= P.QUICK_FACTOR.get(self.prop, 1)
                if 'scale' in h:
                    n = max(1, int(n * h['scale']))
                if only:
                    if only[0] == h['name'] and only[1] == fam and only[4] in (None, h.get('owner')) and only[5] == h.get('flavor', 'asan'):
                        jobs.append((h, fam, only[2], only[2] + 1, only[3]))
                    continue
                nch = min(n, ncpu if self.tier == 'quick' else 4 * ncpu)
                nch = max(nch, (n + 49999) // 50000)
                for k in range(nch):
                    a, b = n * k // nch, n * (k + 1) // nch
                    if a < b:
                        jobs.append((h, fam, a, b, (255, 0x4b, 255, 0xa3)[k % 4]))
                self.famstat.setdefault(h['name'] + '/' + fam + ('' if h.get('flavor', 'asan') == 'asan' else ' (%s)' % h.get('label', h['flavor'])), n)
        if not jobs:
            raise RuntimeError('no families for ' + self.prop)
        with concurrent.futures.ThreadPoolExecutor(ncpu) as ex:
            futs = []
            for i, (h, fam, a, b, fill) in enumerate(jobs):
                futs.append((h, ex.submit(self.run_slice, h, fam, a, b, 'j%d' % i, fill)))
            for h, f in futs:
                viol, samples, sigs, st, errors, fam = f.result()
                for v in viol:
                    v['harness'] = h['name']
                    v['flavor'] = h.get('flavor', 'asan')
                    v['owner'] = h.get('owner')
                self.viol += viol
                self.samples += samples
                self.sigs |= sigs
                self.errors += errors
                for k in st:
                    self.stats[k] += st[k]


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'finding':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    only = None
    if a.replay:
        d = json.load(open(a.replay))
        a.prop, a.tier, a.seed = d['property'], d['tier'], d['seed']
        only = (d['harness'], d['family'], d['case'], d['fill'], d.get('owner'), d.get('flavor', 'asan'))
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    rn = Runner(a.prop, a.tier, a.seed)
    try:
        rn.run(only)
    except (Exception, SystemExit) as e:
        print('ERROR %s: %s' % (a.prop, e))
        rn.close()
        return 2
    rn.close()
    known = load_known(a.prop)
    hits, fresh = {}, {}
    for v in rn.viol:
        k = next((k for k in known if v['key'] == k['key']), None)
        if k is not None:
            hits.setdefault(k['key'], (k, 0))
            hits[k['key']] = (k, hits[k['key']][1] + 1)
        else:
            fresh.setdefault(v['key'], []).append(v)
    if only:
        for v in rn.viol:
            print(v['key'], '|', v.get('input'), '\n', v['msg'])
    # every listed finding is announced, and says whether this run met it
    for k in known:
        n = hits.get(k['key'], (k, 0))[1]
        print('KNOWN-FINDING: property=%s %s [met %d times in this run]' % (a.prop, k['what'], n))
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    n = 0
    for key, vs in sorted(fresh.items())[:24]:
        n += 1
        v = vs[0]
        path = os.path.join(rdir, '%s-%d.json' % (a.prop, n))
        json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, harness=v['harness'], family=v['family'],
                       case=v['case'], fill=v['fill'], owner=v['owner'], flavor=v['flavor'], key=key, input=v.get('input'), message=v['msg']),
                  open(path, 'w'), indent=1)
        print('%s (%d cases) input: %s' % (key, len(vs), str(v.get('input'))[:400]))
        print('   ' + v['msg'][:1500].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    wall = time.time() - t0
    samples = [dict(family=s['family'], case=s['case'], input=s['text']) for s in rn.samples]
    samples = samples[::max(1, len(samples) // 12)][:16]
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=rn.conf.get('level', 'exploration'),
              coverage=dict(evaluations=rn.stats['cases'], distinct_nontrivial=len(rn.sigs), rule=rn.conf['rule'],
                            samples=samples or ['(none)'], oracle_checks=rn.stats['checks'],
                            child_processes_judged=rn.stats['aborts'], events_observed=rn.stats['events'],
                            families=rn.famstat),
              assumptions=P.ASSUMPTIONS + rn.conf.get('assumptions', []),
              wall_s=round(wall, 2), violations=sum(len(v) for v in fresh.values()),
              known_findings_met={k: v[1] for k, v in hits.items()}, notes=rn.notes[:20])
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d oracle checks, %d distinct, %d children, %d events, %d violations, %.1f s' %
          (a.prop, a.tier, rn.stats['cases'], rn.stats['checks'], len(rn.sigs), rn.stats['aborts'],
           rn.stats['events'], len(rn.viol), wall))
    if fresh:
        return 1
    if rn.errors:
        print('ERROR ' + '\n'.join(rn.errors[:5]))
        return 2
    if not only and (rn.stats['cases'] < 1 or rn.stats['checks'] < 1 or not rn.sigs):
        print('ERROR %s: nothing was observed' % a.prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
