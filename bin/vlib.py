"""Shared machinery of the checks: build the harness, run it, run TLC, judge."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

GOENV = dict(os.environ)
GOENV.update(PATH='/opt/veriftools/go1.23.12/bin:' + os.environ.get('PATH', ''), HOME=os.environ.get('HOME', '/root'),
             GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOFLAGS='-mod=readonly -buildvcs=false',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'))


class CheckError(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vchk.')
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.viols, self.known, self.samples, self.parts = [], {}, [], []
        self.bins = {}
        self.relevant = 0
        self.blocked = 0

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def log(self, *a):
        print('#', '%.1fs' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- building
    def build(self, name='driver', tags='', race=False, overlay=None, src=None):
        with self.lock:
            key = (name, tags, race, overlay)
            if key in self.bins:
                return self.bins[key]
            out = os.path.join(self.tmp, 'bin-%s%s%s%s' % (name, tags, '-race' if race else '', '-ov' if overlay else ''))
            cmd = ['go', 'build', '-o', out]
            if tags:
                cmd += ['-tags', tags]
            if race:
                cmd += ['-race']
            if overlay:
                cmd += ['-overlay', overlay]
            env = dict(GOENV)
            if race:
                env['CGO_ENABLED'] = '1'
            p = subprocess.run(cmd + ['./cmd/' + name], cwd=HARNESS, env=env, capture_output=True, text=True, timeout=800)
            if p.returncode:
                raise CheckError('harness does not build: ' + p.stderr[-3000:])
            self.bins[key] = out
            self.log('built', os.path.basename(out))
            return out

    # ---- running the code under test
    def drive(self, binary, args, out, env=None, timeout=400):
        """Runs the driver; its trace is in out. Returns the exit status."""
        e = dict(GOENV)
        e.update(env or {})
        e.setdefault('GOMAXPROCS', '4')
        cmd = [binary] + args + ['-out', out]

        def once(extra):
            try:
                p = subprocess.run(cmd + extra, env=e, capture_output=True, text=True, timeout=timeout)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                return 124, '', 'timeout'
        rc, so, se = once([])
        if rc == 0:
            return 0
        if rc == 4:
            self.log('a call did not return:', so.strip())
            return 4
        if rc == 2 and 'driver:' in se:
            raise CheckError('driver: ' + se[-2000:])
        # the process died (fatal error, out of memory, deadlock): find out in which call
        rc2, so, se2 = once(['-flush'])
        cur = out + '.cur'
        if rc2 == 0 or not os.path.exists(cur) or os.path.getsize(cur) == 0:
            raise CheckError('driver ended with %s: %s' % (rc, se[-2000:]))
        if rc2 == 4:
            return 4
        ev = json.load(open(cur))
        m = re.search(r'(fatal error: .*|runtime: .*|panic: .*)', se2)
        ev.setdefault('h', 0)
        ev['r'] = {'ok': False, 'panic': (m.group(1) if m else 'process ended with %s' % rc2)[:200]}
        ev['obs'] = False
        with open(out, 'a') as f:
            f.write(json.dumps(ev) + '\n')
        self.log('the process died in a call:', ev['r']['panic'])
        return 5

    # ---- concurrent calls
    def instrumented(self, extra=()):
        """The driver built against the library with every statement a scheduling point.
        Returns (binary, cooperative?)."""
        with self.lock:
            if 'instr' in self.bins:
                return self.bins['instr']
        ib = self.build('instr')
        sync = os.path.join(HARNESS, 'verifsync', 'verifsync.go')

        def make(name, args):
            d = os.path.join(self.tmp, name)
            os.makedirs(d, exist_ok=True)
            p = subprocess.run([ib, '-repo', REPO, '-out', d, '-verifsync', sync] + args, capture_output=True, text=True, cwd=HARNESS, env=GOENV)
            if p.returncode:
                raise CheckError('instr: ' + p.stderr[-2000:])
            return os.path.join(d, 'overlay.json'), p.stdout.strip()
        ov, said = make('overlay', [])
        if said.startswith('COOP'):
            r = (self.build(tags='coop', overlay=ov), True)
        else:
            self.log('schedules cannot be enumerated (%s): real threads instead' % said)
            ov, _ = make('overlay-stress', ['-stress'])
            r = (self.build(tags='jolt', overlay=ov), False)
        with self.lock:
            self.bins['instr'] = r
        return r

    def concurrent(self, args, module, label, seed, heap='3g'):
        """Explores schedules, then has TLC look for an order that explains each history."""
        b, coop = self.instrumented()
        with self.lock:
            self.nconc = getattr(self, 'nconc', 0) + 1
            out = os.path.join(self.tmp, 'conc-%d.ndjson' % self.nconc)
        env = dict(GOENV)
        env['GOMAXPROCS'] = '1' if coop else '4'
        cmd = [b, '-seed', str(seed), '-out', out] + args
        if not coop:
            cmd += ['-flush']
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            raise CheckError('driver timed out on ' + label)
        crash = None
        if p.returncode:
            m = re.search(r'(fatal error: .*|panic: .*|runtime: .*)', p.stderr)
            if 'driver:' in p.stderr or not m:
                raise CheckError('driver: %s %s' % (p.returncode, p.stderr[-2000:]))
            crash = m.group(1)
        lines = open(out).read().splitlines()
        if crash and lines and not lines[-1].endswith('}'):
            lines.pop()
        m = re.search(r'CONC scenarios=(\d+) of (\d+) schedules=(\d+)', p.stdout)
        scen, sched = (int(m.group(1)), int(m.group(3))) if m else (0, 0)
        hist = [json.loads(l) for l in lines]
        for h in hist:
            for c in h['calls']:
                c.setdefault('ret', 0)
        bad = []
        for n, h in enumerate(hist):
            if h['stuck']:
                kind = 'panic' if 'panic' in h['stuck'] and 'never returns' not in h['stuck'] else 'stuck'
                if self.prop == 'X04' or kind == 'panic':
                    bad.append((n, 'a call panicked' if kind == 'panic' else 'a call never returns: ' + h['stuck'][:160], h))
        if crash:
            bad.append((len(hist), 'the process died: ' + crash[:200], {'op': 'hist', 'calls': [], 'stuck': crash}))
        good = [n for n, h in enumerate(hist) if not h['stuck']]
        placed = 0
        if good and self.prop != 'X05':
            path = out + '.lin'
            with open(path, 'w') as f:
                for h in hist:
                    f.write(json.dumps(h) + '\n')
            rc, so, gen, dist = self.tlc(module, 'Trace', {'TRACE': path, 'PROP': self.prop}, heap=heap)
            if rc != 0 or 'No error has been found' not in so:
                raise CheckError('TLC could not judge %s with %s:\n%s' % (label, module, so[-3000:]))
            ok = {int(x) - 1 for x in re.findall(r'<<"LIN", (\d+)>>', so)}
            placed = gen
            with self.lock:
                self.states += dist
                self.transitions += gen
            if self.prop != 'X04':
                for n in good:
                    if n not in ok:
                        bad.append((n, 'no order of the calls explains the history', hist[n]))
            os.unlink(path)
        with self.lock:
            self.traces += len(hist)
            self.events += sum(len(h['calls']) for h in hist)
            self.schedules = getattr(self, 'schedules', 0) + sched
            self.scenarios = getattr(self, 'scenarios', 0) + scen
            self.extra = {'schedules_run': self.schedules, 'scenarios': self.scenarios, 'schedules_enumerated': coop}
            self.parts.append({'trace': label, 'spec': module, 'scenarios': scen, 'schedules': sched, 'distinct_histories': len(hist),
                               'orders_tried': placed, 'schedules_enumerated': coop})
            if len(self.samples) < 3 and hist:
                self.samples.append({'spec': module, 'from': label, 'first_events': hist[:2]})
            for n, why, h in sorted(bad, key=lambda x: x[0]):
                self.viols.append({'spec': module, 'from': label, 'line': n + 1, 'why': why, 'history': [h]})
        os.unlink(out)
        self.log(label, scen, 'scenarios', sched, 'schedules', len(hist), 'histories')

    def access_build(self):
        """The driver built against the library with every access to shared memory reporting itself;
        (binary, sites file), or (binary with the race detector, None) when that cannot be built."""
        ib = self.build('instr')
        sync = os.path.join(HARNESS, 'verifsync', 'verifsync.go')
        d = os.path.join(self.tmp, 'overlay-access')
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([ib, '-access', '-repo', REPO, '-out', d, '-verifsync', sync], capture_output=True, text=True, cwd=HARNESS, env=GOENV)
        why = p.stdout.strip() + p.stderr[-500:]
        if p.returncode == 0 and why.startswith('COOP'):
            try:
                return self.build(tags='coop', overlay=os.path.join(d, 'overlay.json')), os.path.join(d, 'sites.json')
            except CheckError as e:
                why = str(e)
        self.log('accesses cannot be recorded (%s): the race detector reports them instead' % why[:600])
        d = os.path.join(self.tmp, 'overlay-stress')
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([ib, '-stress', '-repo', REPO, '-out', d, '-verifsync', sync], capture_output=True, text=True, cwd=HARNESS, env=GOENV)
        if p.returncode:
            raise CheckError('instr: ' + p.stderr[-2000:])
        return self.build(tags='jolt', race=True, overlay=os.path.join(d, 'overlay.json')), None

    def accesses(self, binary, sites, args, label, seed):
        with self.lock:
            self.nconc = getattr(self, 'nconc', 0) + 1
            out = os.path.join(self.tmp, 'acc-%d.ndjson' % self.nconc)
        env = dict(GOENV)
        env['GOMAXPROCS'] = '1' if sites else '4'
        env['GORACE'] = 'halt_on_error=1 exitcode=66'
        try:
            p = subprocess.run([binary, '-seed', str(seed), '-out', out, '-sites', sites or 'none'] + args, env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            raise CheckError('driver timed out on ' + label)
        m = re.search(r'CONC scenarios=(\d+) of (\d+) schedules=(\d+) judged=(\d+)', p.stdout)
        bad = []
        if p.returncode == 66 or 'fatal error: concurrent map' in p.stderr:
            at = p.stderr.find('WARNING: DATA RACE')
            bad.append((0, 'race detector: ' + p.stderr[max(at, 0):max(at, 0) + 1500], {'op': 'acc', 'calls': [], 'report': p.stderr[max(at, 0):max(at, 0) + 4000]}))
        elif p.returncode or not m:
            raise CheckError('driver: %s %s' % (p.returncode, p.stderr[-2000:]))
        lines = open(out).read().splitlines() if sites else []
        if lines:
            rc, so, gen, dist = self.tlc('Race', 'Trace', {'TRACE': out, 'PROP': self.prop})
            if rc != 0 or 'No error has been found' not in so:
                raise CheckError('TLC could not judge %s with Race:\n%s' % (label, so[-3000:]))
            hist = [json.loads(l) for l in lines]
            want = sum(len(h['ev']) + 1 for h in hist)
            if dist != want:
                raise CheckError('TLC judged %d of %d events of %s' % (dist, want, label))
            seen = set()
            for x in re.finditer(r'<<"RACE", (\d+), (\d+), (.*?)>>\n', so + '\n', re.S):
                n = int(x.group(1)) - 1
                if n in seen:
                    continue
                seen.add(n)
                h = hist[n]
                cells = [int(c) for c in re.findall(r'\d+', x.group(3))]
                where = [h['where'][c - 1] for c in cells[:3]]
                bad.append((n, 'access not ordered after an earlier one: %s' % json.dumps(where), h))
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.traces += len(hist)
                self.events += want
                if len(self.samples) < 3:
                    self.samples.append({'spec': 'Race', 'from': label, 'first_events': hist[:1]})
        sched = int(m.group(3)) if m else 0
        with self.lock:
            self.schedules = getattr(self, 'schedules', 0) + sched
            self.scenarios = getattr(self, 'scenarios', 0) + (int(m.group(1)) if m else 0)
            self.extra = {'schedules_run': self.schedules, 'scenarios': self.scenarios, 'accesses_recorded': bool(sites)}
            self.parts.append({'trace': label, 'spec': 'Race', 'schedules': sched, 'distinct_access_logs': len(lines), 'accesses_recorded': bool(sites)})
            for n, why, h in sorted(bad, key=lambda x: x[0]):
                self.viols.append({'spec': 'Race', 'from': label, 'line': n + 1, 'why': why, 'history': [h]})
        if os.path.exists(out):
            os.unlink(out)
        self.log(label, sched, 'schedules', len(lines), 'distinct logs')

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=2, heap='3g', extra=(), timeout=800):
        d = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', d, '-noGenerateSpecTE', '-config', cfg + '.cfg', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out = p.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return p.returncode, out, gen, dist

    def mc(self, module, cfg=None, env=None, workers=2, heap='3g', timeout=800, extra=(), what='', expect=None):
        """Model checks a specification on its own; an error there is an error of the check.
        With expect, the specification describes a wrong design and TLC must report that."""
        rc, out, gen, dist = self.tlc(module, cfg or module, env, workers, heap, extra, timeout)
        if expect:
            if expect not in out:
                raise CheckError('%s does not show "%s":\n%s' % (cfg or module, expect, out[-3000:]))
            with self.lock:
                self.parts.append({'model': cfg or module, 'states': dist, 'transitions': gen, 'shows': expect})
            self.log('model', cfg or module, 'shows', expect)
            return out
        if rc != 0 or 'No error has been found' not in out and 'simulation' not in str(extra) :
            raise CheckError('model checking %s failed:\n%s' % (cfg or module, out[-3000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.parts.append({'model': cfg or module, 'states': dist, 'transitions': gen})
        self.log('model', cfg or module, dist, 'states', gen, 'transitions')
        return out

    def judge(self, module, trace, workers=2, env=None, heap='3g', label=''):
        """Has TLC judge a recorded trace; collects violations."""
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            return
        e = {'TRACE': trace, 'PROP': self.prop}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, 'Trace', e, workers, heap)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('TLC could not judge %s with %s:\n%s' % (label, module, out[-3000:]))
        if dist != len(lines):
            raise CheckError('TLC judged %d of %d lines of %s' % (dist, len(lines), label))
        news = sum(1 for l in lines if '"op":"new"' in l or '"op": "new"' in l)
        vi = []
        rel = 0
        for m in re.finditer(r'<<"(VIOL|KNOWN)", "(\w+)", (\d+), (.*?)>>\n', out + '\n', re.S):
            n = int(m.group(3))
            if m.group(1) == 'KNOWN':
                tag = m.group(4).split(',')[0].strip().strip('"')
                with self.lock:
                    self.known.setdefault(tag, (module, lines[n - 1]))
            else:
                vi.append((n, m.group(4).replace('\n', ' ')))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += news
            self.events += len(lines)
            self.relevant += rel
            self.parts.append({'trace': label, 'spec': module, 'events': len(lines), 'histories': news})
            if len(self.samples) < 3:
                s = []
                for l in lines[:6]:
                    if len(l) < 4000:
                        s.append(json.loads(l))
                self.samples.append({'spec': module, 'from': label, 'first_events': s})
            for n, why in sorted(vi):
                a = n
                while a > 1 and json.loads(lines[a - 1]).get('op') != 'new':
                    a -= 1
                self.viols.append({'spec': module, 'from': label, 'line': n, 'why': why,
                                   'history': [json.loads(l) for l in lines[a - 1:n]]})

    # ---- scripts from model behaviours
    def edges(self, module, cfg=None, env=None):
        e = {'EMIT': '1'}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, cfg or module, e, workers=2)
        if rc != 0:
            raise CheckError('generating behaviours from %s failed:\n%s' % (module, out[-2000:]))
        ed = []
        for m in re.finditer(r'<<"EDGE", "(.*)">>', out):
            ed.append(json.loads(m.group(1).encode().decode('unicode_escape')))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.parts.append({'model': (cfg or module), 'states': dist, 'transitions': gen, 'transitions_replayed': len(ed)})
        return ed

    # ---- verdict
    def finish(self, level='model_checking', assumptions=(), extra=None):
        listed = {}
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'known: property=(\w+) tag=(\S+) (.*)', l)
                if m and m.group(1) == self.prop:
                    listed[m.group(2)] = m.group(3)
        for tag, (module, line) in self.known.items():
            if tag in listed:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, listed[tag]))
            else:
                self.viols.append({'spec': module, 'from': 'unlisted deviation ' + tag, 'line': 0, 'why': tag, 'history': [json.loads(line)]})
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'parts': self.parts[:200], 'samples': self.samples or [{'note': 'none'}]}
        cov.update(extra or {})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viols)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not self.viols:
            print('OK property=%s histories=%d events=%d states=%d wall=%.1fs' % (self.prop, self.traces, self.events, self.states, time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for k, v in enumerate(self.viols[:5]):
            path = os.path.join(rd, '%s-%d.json' % (self.prop, k))
            v = dict(v, property=self.prop, seed=self.seed, tier=self.tier)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s line %s: %s; last call %s' % (v['spec'], v['line'], v['why'], json.dumps(v['history'][-1].get('calls', v['history'][-1]))[:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if len(self.viols) > 5:
            print('  (%d violations in all)' % len(self.viols))
        return 1

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def pmap(fn, items, n=4):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(fn, *i) for i in items]]


def tours(edges, wanted, limit=400):
    """Walks over a transition graph that take every wanted transition.
    edges: [{from,to,e}]; returns a list of walks, each a list of calls."""
    from collections import deque, defaultdict
    key = lambda s: json.dumps(s, sort_keys=True)
    out = defaultdict(list)
    for x in edges:
        out[key(x['from'])].append((key(x['to']), x['e'], wanted(x['e'])))
    init = key(edges[0]['from'])
    todo = {s: [i for i, x in enumerate(v) if x[2]] for s, v in out.items()}
    n = sum(map(len, todo.values()))
    walks, cur, walk = [], init, []
    while n:
        if todo.get(cur):
            # calls that stay here first
            here = todo[cur]
            k = next((j for j, i in enumerate(here) if out[cur][i][0] == cur), len(here) - 1)
            i = here.pop(k)
            n -= 1
            walk.append(out[cur][i][1])
            cur = out[cur][i][0]
        else:
            # nearest state with something left
            seen, q, hit = {cur: None}, deque([cur]), None
            while q:
                s = q.popleft()
                if todo.get(s):
                    hit = s
                    break
                for t, e, _ in out[s]:
                    if t not in seen:
                        seen[t] = (s, e)
                        q.append(t)
            if hit is None:
                if cur == init:
                    break
                walks.append(walk)
                walk, cur = [], init
                continue
            path = []
            s = hit
            while seen[s] is not None:
                path.append(seen[s][1])
                s = seen[s][0]
            walk += path[::-1]
            cur = hit
        if len(walk) >= limit:
            walks.append(walk)
            walk, cur = [], init
    if walk:
        walks.append(walk)
    return walks
