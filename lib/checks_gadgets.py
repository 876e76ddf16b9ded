import json, random

def cases(run, curves):
    r = random.Random(run.seed)
    big = not run.quick
    out = {}
    def add(p, c, nin):
        out.setdefault(p, []).append(dict(c, f=p, nin=nin))
    for p, cv in curves.items():
        pts = cv['points']
        A, B = cv['a'], cv['b']
        rp = lambda: r.choice(pts)
        for k in range(1, 4 if p == 7 else 3 if p <= 13 else 2):
            add(p, dict(g='select', k=k), k + 1)
        for k in (1, 2, 3, 4, 5, 6, 8) if p < 31 or big else (3, 7):
            xs = [r.randrange(p) for _ in range(k)]
            if k > 2:
                xs[-1] = xs[0]
            add(p, dict(g='select', k=k, const=xs), 1)
            add(p, dict(g='select', k=k, const=[r.randrange(1, p) for _ in range(k - 1)] + [0]), 1)
        add(p, dict(g='isbit'), 1)
        for _ in range(6 if big else 3):
            add(p, dict(g='lookup', table=[[r.randrange(p), r.randrange(p)] for _ in range(8)]), 2)
        add(p, dict(g='lookup', table=[[i % p, (3 * i + 1) % p] for i in range(8)]), 2)
        n = 0
        while n == 0 or 2 ** (n - 1) < p:
            add(p, dict(g='range', n=n), 1)
            n += 1
        ab = [(A, B), (0, 1), (1, 0), (0, 0), (p - 1, 1)] + [(r.randrange(p), r.randrange(p)) for _ in range(8 if big else 3)]
        for a, b in (ab if p < 31 or big else ab[:1] + ab[5:7]):
            add(p, dict(g='curve', a=a, b=b), 2)
        if p <= 13:
            grid = [[x, y] for x in range(p) for y in range(p)]
            for l in (grid if p == 7 and big else r.sample(grid, {7: 12, 11: 3, 13: 2}[p] * (3 if big else 1))):
                add(p, dict(g='add', l=l), 4)
                add(p, dict(g='cadd', l=l), 4)
            for l in (pts if big else r.sample(pts, 3 if p == 7 else 1)):
                add(p, dict(g='addh', l=l), 4)
                add(p, dict(g='caddh', l=l), 4)
        # a table as wide as the windows, from random points; every eighth position may repeat
        tab = lambda: [[rp() for _ in range(8)] for _ in range(cv['m'])]
        if p <= 13 or p == 43:
            for _ in range({7: 24, 11: 16, 13: 12, 43: 3}[p] * (6 if big else 1)):
                add(p, {'g': 'rerand', 'tables': tab(), 'in': rp()}, 2)
        if p == 31:
            for s in r.sample(cv['std'], min(len(cv['std']), 12 if big else 1)):
                for _ in range(3 if big else 1):
                    add(p, {'g': 'rerand', 'tables': s['t'], 'in': rp()}, 2)
        if p <= 13:
            for _ in range({7: 24, 11: 16, 13: 8}[p] * (5 if big else 1)):
                t, d = tab(), rp()
                k = r.choice([1, 2, 3, 4])
                xs = [r.choice([rp()[0], r.randrange(p), 0]) for _ in range(k)]
                add(p, dict(g='single', k=k, const=xs, tables=t, delta=d, out=r.choice([rp(), rp(), rp(), [], [d[0], (p - d[1]) % p]]), a=A, b=B), 0)
            for _ in range({7: 3, 11: 1, 13: 0}[p] * (4 if big else 1)):
                add(p, {'g': 'single', 'k': 2, 'try': [rp()[0], rp()[0]], 'tables': tab(), 'delta': rp(), 'out': rp(), 'a': A, 'b': B}, 2)
            for _ in range({7: 12, 11: 5, 13: 2}[p] * (5 if big else 1)):
                k = 2 * r.choice([1, 2])
                xs = [r.choice([rp()[0], rp()[0], r.randrange(p), 0]) for _ in range(k)]
                add(p, dict(g='batch', k=k, const=xs, tables=tab(), delta=rp(), out=r.choice([rp(), rp(), []]), a=A, b=B), 0)
    return out

C10 = ('select', 'isbit', 'lookup', 'range', 'curve', 'add', 'cadd', 'addh', 'caddh')

def gadgets(run, kinds):
    run.cth('curve-points', run.path('curves'))
    curves = {c['p']: c for c in run.read('curves')}
    for p, cs in sorted(cases(run, curves).items()):
        cs = [c for c in cs if (c['g'] in C10) == (kinds == 'C10')]
        if not cs:
            continue
        src = run.write('cases%d.jsonl' % p, cs)
        run.cth('gadgets', src, run.path('rec%d.jsonl' % p))
        recs = run.read('rec%d.jsonl' % p)
        bad = run.tlc('Gadget.tla', 'Gadget.cfg', env=dict(RECORDS=run.path('rec%d.jsonl' % p)))
        run.count('traces_validated_against_impl', len(recs))
        run.count('constraint_systems', len(recs))
        run.count('own_assignments', sum(len(r['honest']) for r in recs))
        for b in bad:
            b = json.loads(b)
            c = recs[b['k'] - 1]['case']
            run.violation('%s over F_%d: %s' % (c['g'], p, json.dumps(b)[:300]), dict(kind='gadget', case=c, finding=b))
        run.note('F_%d: %d systems, %d assignments of the gadgets' % (p, len(recs), sum(len(r['honest']) for r in recs)))
        run.sample(dict(case=recs[0]['case'], items=recs[0]['items'][:6]))

def runs(run):
    """Real provers and verifiers of the gadgets on the real curves."""
    cases = [json.loads(b) for b in run.tlc('GadgetRuns.tla', 'GadgetRuns.cfg' if run.quick else 'GadgetRuns_all.cfg')]
    if run.quick:
        few = [c for c in cases if c['g'] in ('curve', 'addition', 'lookup')]
        cases = few + run.subset([c for c in cases if c['g'] not in ('curve', 'addition', 'lookup')], 900)
    src = run.write('runs.jsonl', cases)
    run.cth('gadget-runs', src, run.path('runs.out'), env=dict(CTH_GENS='2048'))
    for r in run.read('runs.out'):
        run.count('traces_validated_against_impl')
        if r['got']['ok'] != r['case']['exp']:
            run.violation('%s: %s, specified %s' % (json.dumps(r['case']), json.dumps(r['got']), r['case']['exp']), dict(kind='gadget-run', case=r['case'], got=r['got']))
    run.note('%d proofs over the gadgets' % len(cases))
    run.sample(cases[0])

def windows(run):
    """The standard tables and the accumulation on real curves."""
    run.cth('tables', run.path('tables'), env=dict(CTH_GENS='2048'))
    run.tlc('Windows.tla', 'Windows_all.cfg', env=dict(RECORDS=run.path('tables')), check=True)
    if run.tlc_error:
        run.violation('re-randomization tables: ' + run.tlc_error[-1500:], dict(kind='tables', records=run.read('tables')))
    cases = [json.loads(b) for b in run.tlc('Windows.tla', 'Scalars.cfg')]
    if run.quick:
        cases = run.subset(cases, 300)
    src = run.write('scalars.jsonl', cases)
    run.cth('scalars', src, run.path('scalars.out'), env=dict(CTH_GENS='2048'))
    for r in run.read('scalars.out'):
        for curve, g in r['got'].items():
            if 'zero' in g:
                continue
            run.count('traces_validated_against_impl')
            if g != dict(sum=True, holds=True, opposite=False, x=False, child=False):
                run.violation('re-randomization by %s on %s: %s' % (json.dumps(r['case']), curve, g), dict(kind='scalar', case=r['case'], curve=curve, got=g))
    run.sample(dict(scalar=cases[0]))

def jumps(run):
    """Dishonest provers: the accumulator is moved to a point of their choosing at one window."""
    run.cth('jump', run.path('jump'), env=dict(CTH_GENS='2048'))
    honest = 0
    for r in run.read('jump'):
        run.count('forgery_attempts', 2)
        for side in ('even', 'odd'):
            if r['at'] and r[side]:
                run.violation('an unrelated point is accepted as a re-randomization: %s' % json.dumps(r), dict(kind='jump', case=r))
            honest += (not r['at'] and r['tied'] and r[side])
    run.note('forged accumulators: %d honest baselines accepted' % honest)
    run.count('forgery_baselines_accepted', honest)

def c10(run):
    run.build()
    gadgets(run, 'C10')
    runs(run)

def c11(run):
    run.build()
    gadgets(run, 'C11')
    windows(run)
    jumps(run)
