"""Common machinery of the checks: builds the harness, runs TLC, replays, writes evidence."""
import json, os, re, subprocess, sys, time, shutil, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')

class ToolError(Exception):
    pass

def known_findings(pid):
    """Lines `known: property=<id> key=<key> <text>` suppress exactly one keyed violation."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, 'run', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known = known_findings(pid)
        self.hit = {}

    def note(self, s):
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, s), flush=True)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s if isinstance(s, str) else json.dumps(s)[:600])

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- building -------------------------------------------------------------
    def build(self, seq=False):
        target = os.path.join(HARNESS, 'target-seq' if seq else 'target')
        cmd = ['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', target]
        if seq:
            cmd += ['--no-default-features']
        r = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError('harness does not build:\n' + r.stdout[-6000:])
        self.note('harness built' + (' (sequential)' if seq else ''))
        return os.path.join(target, 'release', 'cth')

    def cth(self, *args, seq=False, timeout=800, env=None):
        b = os.path.join(HARNESS, 'target-seq' if seq else 'target', 'release', 'cth')
        e = dict(os.environ, **(env or {}))
        r = subprocess.run([b] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        if r.returncode != 0:
            raise ToolError('cth %s: exit %d\n%s' % (' '.join(map(str, args)), r.returncode, r.stdout[-4000:]))
        return r.stdout

    # -- TLC ------------------------------------------------------------------
    def tlc(self, spec, cfg, simulate=None, depth=100, workers=8, timeout=800, env=None, check=False, seed=None):
        """Runs TLC. Returns the printed behaviours. With check=True a violated invariant or property is
        returned as text in self.tlc_error instead of ending the run."""
        name = os.path.splitext(os.path.basename(cfg))[0]
        meta = self.path('tlc_' + name)
        cmd = ['tlc', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % max(1, simulate // workers), '-depth', str(depth), '-seed', str(seed or self.seed)]
        cmd += [os.path.join(SPEC, spec)]
        out = self.path('tlc_%s.out' % name)
        e = dict(os.environ, **(env or {}))
        with open(out, 'w') as f:
            try:
                r = subprocess.run(cmd, cwd=self.dir, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                raise ToolError('TLC timed out on ' + cfg)
        shutil.rmtree(meta, ignore_errors=True)
        behaviours, rest = [], []
        with open(out) as f:
            for l in f:
                if l.startswith('"@@'):
                    behaviours.append(json.loads(l)[2:])
                else:
                    rest.append(l)
        text = ''.join(rest)
        os.unlink(out)
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', text)
        if m:
            g, d = (int(x.replace(',', '')) for x in m[-1])
            self.count('states', d); self.count('transitions', g)
        else:
            m = re.findall(r'The number of states generated: (\d+)', text)
            if m:
                self.count('states', int(m[-1])); self.count('transitions', int(m[-1]))
        self.tlc_error = None
        if r.returncode != 0:
            if check and r.returncode in (10, 11, 12, 13):
                self.tlc_error = text
            else:
                raise ToolError('TLC failed (%d) on %s:\n%s' % (r.returncode, cfg, text[-4000:]))
        self.note('TLC %s: %d behaviours' % (cfg, len(behaviours)))
        return behaviours

    def write(self, name, lines):
        p = self.path(name)
        with open(p, 'w') as f:
            for l in lines:
                f.write((l if isinstance(l, str) else json.dumps(l)) + '\n')
        return p

    def read(self, name):
        with open(self.path(name)) as f:
            return [json.loads(l) for l in f if l.strip()]

    def subset(self, items, n):
        """At most n items, deterministically chosen by the seed."""
        if len(items) <= n:
            return items
        r = random.Random(self.seed)
        return [items[i] for i in sorted(r.sample(range(len(items)), n))]

    def tool_error(self, s):
        return ToolError(s)

    # -- verdicts -------------------------------------------------------------
    def violation(self, what, replay, key=None):
        if key is not None and key in self.known:
            self.hit[key] = what
            return
        p = self.path('violation_%d.json' % (len(self.violations) + 1))
        if len(self.violations) < 50:
            with open(p, 'w') as f:
                json.dump(dict(property=self.pid, what=what, replay=replay), f, indent=1)
        self.violations.append((what, p))

    def finish(self):
        for k, w in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for w, p in self.violations[:20]:
            print('  ' + w[:400])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if not self.cov['samples']:
            self.cov['samples'] = ['none']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.note('done: %d violations' % len(self.violations))
        return 1 if self.violations else 0

def main(checks):
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    run = Run(pid, tier)
    try:
        checks[pid](run)
        rc = run.finish()
    except ToolError as e:
        print('TOOL ERROR: %s' % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('TOOL ERROR: timeout %s' % e)
        rc = 2
    sys.exit(rc)
