"""Shared machinery: running TLC, walking the state graph it prints, recording
violations, known findings and evidence.  Nothing here knows about metku."""
import atexit
import collections
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The checker itself failed (never a verdict on the code)."""


class Timeout(Exception):
    pass


class time_limit:
    """Bound one call into the code under test; a hang becomes an observation."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Timeout(f'no answer within {self.seconds} s')
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def key(v):
    return json.dumps(v, sort_keys=True)


def tla(v):
    """Python value -> TLA+ literal (for generated constant definitions)."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {tla(x)}' for k, x in v.items()) + ']'
    if v is None:
        return '"none"'
    raise MachineryError(f'no TLA+ literal for {v!r}')


class TLCRun:
    def __init__(self, states, distinct, lines, raw, invariant=None):
        self.states, self.distinct = states, distinct
        self.lines, self.raw, self.invariant = lines, raw, invariant


class Graph:
    """Labelled transition system printed by TLC (lines {s,a,t} and {init})."""

    def __init__(self, lines):
        self.inits, self.out, self.n = [], collections.defaultdict(list), 0
        seen = set()
        self.states = {}
        for ln in lines:
            if 'init' in ln:
                k = key(ln['init'])
                if k not in self.states or k not in self.inits:
                    self.inits.append(k)
                self.states[k] = ln['init']
                continue
            if 's' not in ln or 't' not in ln:
                continue
            ks, kt, ka = key(ln['s']), key(ln['t']), key(ln['a'])
            self.states[ks], self.states[kt] = ln['s'], ln['t']
            if (ks, ka, kt) in seen:
                continue
            seen.add((ks, ka, kt))
            self.out[ks].append((ln['a'], kt))
            self.n += 1
        self.inits = list(dict.fromkeys(self.inits))
        for ks in self.out:       # deterministic whatever TLC's worker order was
            self.out[ks].sort(key=lambda e: (key(e[0]), e[1]))
        self.inits.sort()

    def tours(self, rng, max_len=120, edge_budget=None, shuffle=True):
        """Paths from initial states that together take every edge.
        Yields (init_state, [(action, target_state), ...])."""
        todo = {ks: list(range(len(es))) for ks, es in self.out.items()}
        if shuffle:
            for l in todo.values():
                rng.shuffle(l)
        left = sum(len(v) for v in todo.values())
        if edge_budget is not None:
            left = min(left, edge_budget)
        # parents for reaching states from an init
        while left > 0:
            progressed = False
            order = list(self.inits)
            if shuffle:
                rng.shuffle(order)
            for init in order:
                path, cur = [], init
                while len(path) < max_len:
                    if todo.get(cur):
                        i = todo[cur].pop()
                        left -= 1
                        progressed = True
                        a, t = self.out[cur][i]
                        path.append((a, t))
                        cur = t
                        continue
                    hop = self._nearest(cur, todo, max_len if not path else 12)
                    if hop is None:
                        break
                    for a, t in hop:
                        path.append((a, t))
                    cur = path[-1][1] if path else cur
                if path:
                    yield self.states[init], [(a, self.states[t]) for a, t in path]
                if left <= 0:
                    return
            if not progressed:
                return

    def _nearest(self, start, todo, limit):
        seen = {start: None}
        q = collections.deque([(start, 0)])
        while q:
            u, d = q.popleft()
            if d and todo.get(u):
                path = []
                while seen[u] is not None:
                    p, a = seen[u]
                    path.append((a, u))
                    u = p
                return path[::-1]
            if d >= limit:
                continue
            for a, t in self.out.get(u, ()):
                if t not in seen:
                    seen[t] = (u, a)
                    q.append((t, d + 1))
        return None

    def walks(self, rng, n, length):
        """Random walks from random initial states."""
        for _ in range(n):
            cur = rng.choice(self.inits)
            init, path = cur, []
            for _ in range(length):
                es = self.out.get(cur)
                if not es:
                    break
                a, cur = rng.choice(es)
                path.append((a, cur))
            if path:
                yield self.states[init], [(a, self.states[t]) for a, t in path]


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED') or 1)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.distinct = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = collections.OrderedDict()
        self.known_hits = collections.OrderedDict()
        self.known = load_known(pid)
        self.tmp = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        atexit.register(shutil.rmtree, self.tmp, True)
        self.spec_runs = []

    quick = property(lambda self: self.tier != 'thorough')

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, defs=None, constants=None, init='Init', next='Next', view='View',
            emit='Emit', invariants=(), properties=(), constraint=None, workers=4, timeout=600,
            files=None, extra=(), postcondition=None, spec=None, allow_violation=False,
            heap='4g'):
        """Model-check spec/<module>.tla.  `defs` adds definitions (a generated
        module extends the spec and overrides CONSTANTS by substitution)."""
        d = tempfile.mkdtemp(dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(content)
        defs = dict(defs or {})
        self._alias(os.path.join(d, module + '.tla'), defs)
        top = 'MC_' + module
        body = [f'---- MODULE {top} ----', f'EXTENDS {module}']
        cfg = []
        for k, v in (defs or {}).items():
            body.append(f'{k}_def == {v}')
            cfg.append(f'CONSTANT {k}_c <- {k}_def')
        for k, v in (constants or {}).items():
            cfg.append(f'CONSTANT {k} = {v}')
        body.append('====')
        with open(os.path.join(d, top + '.tla'), 'w') as fh:
            fh.write('\n'.join(body) + '\n')
        if spec:
            cfg.append(f'SPECIFICATION {spec}')
        else:
            cfg += [f'INIT {init}', f'NEXT {next}']
        if view:
            cfg.append(f'VIEW {view}')
        if emit:
            cfg.append(f'ACTION_CONSTRAINT {emit}')
        if constraint:
            cfg.append(f'CONSTRAINT {constraint}')
        for i in invariants:
            cfg.append(f'INVARIANT {i}')
        for p in properties:
            cfg.append(f'PROPERTY {p}')
        if postcondition:
            cfg.append(f'POSTCONDITION {postcondition}')
        cfg.append('CHECK_DEADLOCK FALSE')
        with open(os.path.join(d, top + '.cfg'), 'w') as fh:
            fh.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m', '-cp', TLA_JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-seed', str(self.seed),
               '-noGenerateSpecTE', *extra, '-config', top + '.cfg', top + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC on {module} exceeded {timeout} s')
        out = p.stdout
        lines = []
        for ln in out.splitlines():
            if ln.startswith('"{') or ln.startswith('"['):
                try:
                    lines.append(json.loads(json.loads(ln)))
                except ValueError:
                    raise MachineryError(f'unreadable TLC line: {ln[:200]}')
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        inv = None
        mi = re.search(r'Error: (Invariant|Action property|Temporal properties|Property) ?(\w*)', out)
        if mi:
            inv = mi.group(0)
        ok = 'Model checking completed. No error has been found' in out
        if not ok and not (allow_violation and inv):
            tail = '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-4000:]
            raise MachineryError(f'TLC on {module} failed (design error or bad spec):\n{tail}\n{p.stderr[-500:]}')
        st = int(m.group(1)) if m else 0
        di = int(m.group(2)) if m else 0
        self.states += di
        self.transitions += st
        self.spec_runs.append({'module': module, 'states_generated': st, 'distinct_states': di})
        shutil.rmtree(d, ignore_errors=True)
        return TLCRun(st, di, lines, out, inv)

    def graph(self, module, **kw):
        r = self.tlc(module, **kw)
        g = Graph(r.lines)
        if not g.n:
            raise MachineryError(f'{module}: TLC printed no transition')
        return g

    @staticmethod
    def _alias(path, defs):
        """TLC evaluates a substituted CONSTANT anew at every use but caches a
        constant-level definition: in the copy that is run, constant X becomes
        X_c and X is defined as its value.  (All CONSTANTS of the copy.)"""
        text = open(path).read()
        m = re.search(r'^CONSTANTS?\b.*?(?=^\s*$|^VARIABLE|^\w+(\(.*\))? ==|^RECURSIVE)', text, re.M | re.S)
        if not m:
            if defs:
                raise MachineryError(f'{path}: no CONSTANTS for {list(defs)}')
            return
        blk = re.sub(r'\\\*.*', '', m.group(0))
        names = re.findall(r'\w+', blk.split(None, 1)[1])
        if set(names) != set(defs):
            raise MachineryError(f'{path}: constants {sorted(names)} but definitions {sorted(defs)}')
        new = 'CONSTANTS ' + ', '.join(n + '_c' for n in names) + '\n' + \
              ''.join(f'{n} == {n}_c\n' for n in names) + '\n'
        with open(path, 'w') as fh:
            fh.write(text[:m.start()] + new + text[m.end():])

    # -- conformance by replay --------------------------------------------
    def replay(self, make, paths, label, limit=30, stop_after=8):
        """Step the real code through spec behaviours.

        make(init_state) -> adapter with .apply(action)->observation (compared
        with action['out'] when present) and .project() (compared with the
        spec state); .compare_state(spec state), where defined, raises on
        disagreement.  Exceptions of the code under test are observations."""
        bad = 0
        for init, path in paths:
            done = []
            try:
                with time_limit(limit):
                    ad = make(init)
                    self._cmp(ad, label, init, done, None, None, init)
                    for a, t in path:
                        done.append(a)
                        obs = ad.apply(a)
                        self.steps += 1
                        if not self._cmp(ad, label, init, done, a, obs, t):
                            bad += 1
                            break
            except MachineryError:
                raise
            except Exception as e:      # raised by the code under test
                bad += 1
                last = done[-1] if done else {'op': 'init'}
                self.violation(f'{label}/{last.get("op")}/{type(e).__name__}',
                               {'what': f'{type(e).__name__}: {e} at {last}', 'init': init,
                                'actions': done, 'trace': traceback.format_exc()[-1500:]})
            self.traces += 1
            if len(self.samples) < 3 and len(path) > 1:
                self.samples.append({'spec': label, 'init': init, 'actions': [a for a, _ in path[:6]],
                                     'final': path[min(len(path), 6) - 1][1]})
            if bad >= stop_after:
                break

    def _cmp(self, ad, label, init, done, a, obs, t):
        ok = True
        if a is not None and 'out' in a and not same(a['out'], obs):
            self.violation(f'{label}/{a.get("op")}/result', {
                'what': f'after {len(done)} steps, {a.get("op")} gave {short(obs)}; specification: {short(a["out"])}',
                'init': init, 'actions': list(done), 'expected': a['out'], 'observed': plain(obs)})
            ok = False
        if hasattr(ad, 'compare_state'):        # adapters that evaluate the specification's state themselves
            ad.compare_state(t)
        got = ad.project()
        for k in got:
            if k in t and not same(t[k], got[k]):
                op = a.get('op') if a else 'init'
                self.violation(f'{label}/{op}/{k}', {
                    'what': f'after {op}, {k} is {short(got[k])}; specification: {short(t[k])}',
                    'init': init, 'actions': list(done), 'expected': t[k], 'observed': plain(got[k])})
                ok = False
        return ok

    # -- verdicts -----------------------------------------------------------
    def violation(self, vkey, detail):
        vkey = re.sub(r'\s+', '_', vkey)
        for k, text in self.known:
            if vkey == k:
                self.known_hits.setdefault(k, text)
                return
        if vkey in self.violations:
            self.violations[vkey]['count'] += 1
            return
        detail = dict(detail)
        detail.update(property=self.pid, key=vkey, count=1, seed=self.seed, tier=self.tier)
        self.violations[vkey] = detail

    def expect(self, cond, vkey, what, **detail):
        if not cond:
            self.violation(vkey, dict(what=what, **detail))
        return cond

    def guard(self, vkey, fn, *args, limit=60, detail=None, **kw):
        """Call the code under test; an exception or hang is a violation."""
        try:
            with time_limit(limit):
                return True, fn(*args, **kw)
        except MachineryError:
            raise
        except Exception as e:
            self.violation(f'{vkey}/{type(e).__name__}',
                           dict(what=f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-1500:],
                                **(detail or {})))
            return False, None

    def finish(self, level='model_checking', **cov):
        shutil.rmtree(self.tmp, ignore_errors=True)
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        rep = []
        rdir = os.path.join(evdir, 'replays')
        for n, (k, d) in enumerate(self.violations.items()):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.pid}-{n}.json')
            with open(path, 'w') as fh:
                json.dump(plain(d), fh, indent=1)
            rep.append((k, d, path))
        coverage = {'states': self.states, 'transitions': self.transitions,
                    'traces_validated_against_impl': self.traces,
                    'samples': plain(self.samples) or ['none'],
                    'impl_steps': self.steps, 'spec_runs': self.spec_runs,
                    'known_findings_seen': list(self.known_hits)}
        coverage.update(plain(self.notes))
        coverage.update(plain(cov))
        ev = {'property': self.pid, 'tier': 'thorough' if self.tier == 'thorough' else 'quick',
              'seed': self.seed, 'level': level, 'coverage': coverage,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': [{'key': k, 'what': d.get('what', ''), 'count': d['count'], 'replay': p}
                             for k, d, p in rep]}
        with open(os.path.join(evdir, f'{self.pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k, text in self.known_hits.items():
            print(f'KNOWN-FINDING: property={self.pid} {text}')
        for k, d, p in rep:
            print(f'VIOLATION property={self.pid} replay={p}')
            print(f'  {k} (x{d["count"]}): {d.get("what", "")[:600]}')
        if not rep:
            print(f'OK property={self.pid} tier={self.tier} states={self.states} transitions={self.transitions} '
                  f'traces={self.traces} steps={self.steps} wall={ev["wall_s"]}s')
        return 1 if rep else 0


def load_known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <text>' lines suppress
    exactly that key; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def plain(v):
    """JSON-able copy."""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, Fraction):
        return f'{v.numerator}/{v.denominator}'
    try:
        return float(v)
    except Exception:
        return repr(v)


def short(v, n=300):
    s = json.dumps(plain(v))
    return s if len(s) <= n else s[:n] + '...'


def num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def same(a, b, tol=1e-7):
    """Spec value vs observed value; numbers up to rounding."""
    if hasattr(b, 'tolist'):
        b = b.tolist()
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if num(a) and num(b):
        return a == b or abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, dict)) and isinstance(b, (list, dict)) and not a and not b:
        return True
    return a == b
