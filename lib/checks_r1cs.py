import json

def replay_sessions(run, behaviours, name, classes):
    """Replays behaviours of R1csSession and reports disagreements of the given classes."""
    src = run.write(name + '.jsonl', behaviours)
    run.cth('r1cs', src, run.path(name + '.out'))
    run.count('traces_validated_against_impl', len(behaviours))
    other = 0
    for r in run.read(name + '.out'):
        for cls, msg in r['bad']:
            if cls in classes:
                run.violation('%s: %s' % (name, msg), dict(kind='r1cs', behaviour=json.loads(behaviours[r['i']]), cls=cls, message=msg))
            else:
                other += 1
    if other:
        run.count('disagreements_of_other_properties', other)
    run.note('%s: replayed %d' % (name, len(behaviours)))

def c01(run):
    run.build()
    q = run.quick
    plan = [('ex2', None, None), ('long', 800 if q else 12000, None), ('huge', 80 if q else 1200, None),
            ('vecs', 400 if q else 6000, None), ('vecs17', 120 if q else 1600, None)]
    if q:
        plan.append(('ex3', None, 1500))
    else:
        plan += [('ex3', None, None), ('ex4', None, 40000)]
    for cfg, sim, cap in plan:
        b = run.tlc('R1csSession.tla', 'R1csSession_%s.cfg' % cfg, simulate=sim)
        if cap:
            b = run.subset(b, cap)
        run.sample(b[0])
        replay_sessions(run, b, cfg, {'complete', 'observe', 'error'})
    run.assume('witness values are small integers; blindings are random')

def c02(run):
    run.build()
    q = run.quick
    plan = [('dev1', None, None), ('dev2', None, None), ('dev', 2400 if q else 24000, None)]
    plan.append(('dev3', None, 2500 if q else 60000))
    for cfg, sim, cap in plan:
        b = run.tlc('R1csSession.tla', 'R1csSession_%s.cfg' % cfg, simulate=sim)
        if cap:
            b = run.subset(b, cap)
        run.sample(b[0])
        replay_sessions(run, b, cfg, {'sound'})
    # the degree layout of the real verifier, and every cross product it would let through
    lay = run.path('layouts.jsonl')
    run.cth('layout', lay)
    if run.read('layouts.jsonl'):
        att = run.tlc('Degrees.tla', 'Degrees.cfg', env=dict(LAYOUTS=lay))
        src = run.write('attempts.jsonl', att)
        run.cth('forge', lay, src, run.path('forged.jsonl'))
        run.count('forgery_attempts', len(att))
        run.count('layouts', len(run.read('layouts.jsonl')))
        run.count('independent_prover_accepted', sum(l['honest'] for l in run.read('layouts.jsonl')))
        for r in run.read('forged.jsonl'):
            if r['accepted']:
                run.violation('a proof of 2*3=7 is accepted: %s' % r, dict(kind='forge', attempt=r))
    run.assume('the discrete logarithm problem is hard and the hash behaves like a random oracle')

def diverse_sessions(run, n, cfgs=('ex3', 'long', 'vecs')):
    """Accepted honest sessions with as many different shapes as possible."""
    pool = []
    for c in cfgs:
        pool += run.tlc('R1csSession.tla', 'R1csSession_%s.cfg' % c, simulate=None if c.startswith('ex') else 160)
    by = {}
    for b in pool:
        p = json.loads(b)
        f = p[-1]
        if f['exp']['v'] != 'accept' or f['exp']['p'] != 'ok':
            continue
        ops = [o['op'] for o in p]
        kinds = [o['a']['kind'] for o in p if o['op'] == 'defer']
        key = (ops.count('commit_vec'), f['exp']['padded'], bool(kinds), any(k in ('zmul', 'zgate', 'zalloc') for k in kinds), min(2, ops.count('commit')))
        by.setdefault(key, []).append(b)
    keys = sorted(by)
    if len(keys) > n:   # spread over the sorted shapes
        keys = [keys[i * len(keys) // n] for i in range(n)]
    return [by[k][0] for k in keys]

def c04(run):
    run.build()
    q = run.quick
    base = diverse_sessions(run, 18 if q else 60)
    src = run.write('base.jsonl', base)
    run.cth('wire-layout', src, run.path('layouts.jsonl'))
    lays = run.read('layouts.jsonl')
    good = []
    for l in lays:
        if 'unreadable' in l:
            run.violation('the encoding of a proof does not have the documented layout', dict(kind='wire', layout=l))
            continue
        for b in l['bad']:
            run.violation('round trip: ' + b, dict(kind='wire', layout=l))
        good.append(l)
    run.count('proofs', len(good))
    lay = run.write('good.jsonl', good)
    small = run.write('tokens.jsonl', [dict(k=i, tokens=l['tokens']) for i, l in enumerate(good)])
    for cfg, sim, cap in (('one', None, None), ('two', 40 if q else 800, 12000 if q else 150000)) + (() if q else (('three', 800, 150000),)):
        muts = run.tlc('ProofWire.tla', 'ProofWire_%s.cfg' % cfg, simulate=sim, depth=6, env=dict(LAYOUTS=small))
        muts = run.subset(sorted(set(muts)), cap or 10**9)
        run.sample(muts[len(muts) // 2])
        m = run.write('muts.jsonl', muts)
        run.cth('wire', lay, m, run.path('wire.out'))
        run.count('traces_validated_against_impl', len(muts))
        for r in run.read('wire.out'):
            mu = json.loads(muts[r['i']])
            run.violation('altered proof %s: %s, expected %s' % (mu['muts'], r['verdict'], mu['exp']), dict(kind='wire', mutation=mu, layout=good[mu['k']]))
        run.note('%s: %d altered proofs' % (cfg, len(muts)))
    run.assume('alterations are applied to whole components; components are points or scalars of the Pallas curve')

def c05(run):
    run.build()
    q = run.quick
    for cfg, sim, cap in (('one', None, None), ('two', None, None if not q else 6000), ('pair2', None, None), ('three', None, 5000 if q else None),
                          ('many', 6000 if q else 60000, 4000 if q else 60000), ('honest', 2000 if q else 8000, 1500 if q else 20000)):
        b = run.tlc('Batch.tla', 'Batch_%s.cfg' % cfg, simulate=sim, depth=12)
        b = sorted(set(b))
        if cap and len(b) > cap:   # keep the batches whose errors cancel without weights
            c = [x for x in b if '"cancel":true' in x]
            b = run.subset(c, cap // 2) + run.subset([x for x in b if '"cancel":true' not in x], cap // 2)
        run.sample(b[len(b) // 2])
        src = run.write(cfg + '.jsonl', b)
        run.cth('batch', src, run.path(cfg + '.out'))
        run.count('traces_validated_against_impl', len(b))
        run.count('cancelling_batches', sum('"cancel":true' in x for x in b))
        for r in run.read(cfg + '.out'):
            if 'member' in r:
                run.violation('member %s: %s' % (r['member'], r['verdict']), dict(kind='batch', **r))
            else:
                m = json.loads(b[r['i']])
                run.violation('batch %s: %s, expected %s' % (json.dumps(m['m']), r['verdict'], r['expected']), dict(kind='batch', batch=m, **r))
        run.note('%s: %d batches' % (cfg, len(b)))
    pats = run.tlc('BatchWeights.tla', 'BatchWeights.cfg')
    runs = 400 if q else 4000
    src = run.write('patterns.jsonl', pats)
    run.cth('batch-weights', src, runs, run.path('hits.jsonl'))
    run.count('weight_trials', runs * len(pats))
    for r in run.read('hits.jsonl'):
        p = json.loads(pats[r['i']])
        frac, hits = p['acc'] / p['tot'], r['hits']
        # the number of hits of an honest implementation is binomial: 15 sigma beyond the mean is not chance
        if p['acc'] == p['tot']:
            bad = hits != runs
        else:
            bad = hits > runs * frac + 15 * (runs * frac) ** .5 + 15
        if bad:
            run.violation('errors %s are accepted in %d of %d batches, %d of %d weight choices collect them' % (p['c'], hits, runs, p['acc'], p['tot']),
                          dict(kind='weights', pattern=p, hits=hits, runs=runs))
    run.assume('weights are observed through acceptance rates on a curve of 43 points; 15 standard deviations are taken as a deviation')

def all_accepted(run, cfgs):
    out = []
    for c, n in cfgs:
        b = run.tlc('R1csSession.tla', 'R1csSession_%s.cfg' % c, simulate=None if c.startswith('ex') else n)
        b = [x for x in b if json.loads(x)[-1]['exp']['v'] == 'accept' and json.loads(x)[-1]['exp']['p'] == 'ok']
        out += run.subset(b, n)
    return out

def c17(run):
    run.build()
    q = run.quick
    base = diverse_sessions(run, 60 if q else 400) + all_accepted(run, (('ex2', 10**6), ('huge', 24 if q else 200), ('vecs17', 16 if q else 100), ('long', 60 if q else 1500), ('ex3', 200 if q else 4000)))
    base = list(dict.fromkeys(base))
    src = run.write('sessions.jsonl', base)
    skipped = int(run.cth('equation', src, run.path('records.jsonl')).split()[-1])
    n = len(run.read('records.jsonl'))
    run.count('traces_validated_against_impl', n)
    run.count('sessions_without_record', skipped)
    if skipped:
        run.violation('%d of %d honest sessions could not be recorded' % (skipped, len(base)), dict(kind='equation', sessions=base[:3]))
    convs, fails = {}, {}
    for c in ('lr+', 'rl+', 'lr-', 'rl-'):   # the constraints of a gate may be numbered and signed either way
        convs[c] = [json.loads(x) for x in run.tlc('VerifEq.tla', 'VerifEq.cfg', env=dict(RECORDS=run.path('records.jsonl'), CONV=c))]
        fails[c] = sum(bool(o['bad']) for o in convs[c])
        if fails[c] == 0:
            break
    best = min(fails, key=lambda c: fails[c])
    run.note('records with deviations by convention: %s' % fails)
    for o in convs[best]:
        if o['bad']:
            run.violation('equation of session %d: %s' % (o['k'], o['bad'][:4]), dict(kind='equation', session=json.loads(base[o['k']]), bad=o['bad']))
    run.sample(base[len(base) // 2])
    run.assume('coefficients are compared on two curves over 16-bit fields (a two-cycle); the code is generic in the curve')

def c03(run):
    run.build()
    q = run.quick
    base = diverse_sessions(run, 60 if q else 400) + all_accepted(run, (('ex2', 400 if q else 10**6), ('huge', 16 if q else 200), ('vecs17', 16 if q else 100), ('long', 60 if q else 1500), ('ex3', 300 if q else 6000)))
    base = list(dict.fromkeys(base))
    src = run.write('sessions.jsonl', base)
    run.cth('transcript', src, run.path('traces.jsonl'))
    traces = run.read('traces.jsonl')
    run.count('traces_validated_against_impl', 2 * len(traces))
    if len(traces) < len(base):
        run.violation('%d of %d honest sessions fail' % (len(base) - len(traces), len(base)), dict(kind='transcript', sessions=base[:3]))
    out = [json.loads(x) for x in run.tlc('Transcript.tla', 'Transcript.cfg', env=dict(TRACES=run.path('traces.jsonl')))]
    if len(out) != 2 * len(traces):
        raise run.tool_error('only %d of %d recordings were stepped through' % (len(out), 2 * len(traces)))
    for o in out:
        if o['bad']:
            run.violation('session %d, %s: %s' % (o['k'], dict(p='prover', v='verifier')[o['side']], o['bad'][:4]), dict(kind='transcript', session=json.loads(base[o['k']]), bad=o['bad']))
    run.sample(base[len(base) // 2])
    run.assume('elements are recognised in the absorbed data by their encodings')

def c15(run):
    run.build()
    q = run.quick
    dumps = []
    for cfg, sim, cap in (('ex', None, 3000 if q else None), ('grid', None, 2500 if q else None), ('sim', 600 if q else 12000, 3000 if q else 40000), ('big', 40 if q else 800, 60 if q else 1200)):
        b = sorted(set(run.tlc('Generators.tla', 'Generators_%s.cfg' % cfg, simulate=sim)))
        if cap:
            b = run.subset(b, cap)
        run.sample(b[len(b) // 2])
        src = run.write(cfg + '.jsonl', b)
        run.cth('gens', src, run.path(cfg + '.out'), run.path(cfg + '.dump'))
        run.count('traces_validated_against_impl', len(b))
        for r in run.read(cfg + '.out'):
            run.violation('%s: %s' % (r['curve'], r['bad'][:3]), dict(kind='gens', history=json.loads(b[r['i']]) if r['i'] >= 0 else None, bad=r['bad']))
        dumps.append({(d['curve'], d['name']): d['point'] for d in run.read(cfg + '.dump')})
        run.note('%s: %d histories' % (cfg, len(b)))
    # every run above was its own process: names must be bound to the same points in all of them
    for i, d in enumerate(dumps[1:]):
        diff = [k for k in d if k in dumps[0] and dumps[0][k] != d[k]]
        if diff:
            run.violation('generators %s differ between processes' % diff[:4], dict(kind='gens', differ=diff[:50]))
    run.count('generators_named', len(set().union(*[set(d) for d in dumps])))
    for cfg, sim, cap in (('caps1', None, None), ('caps2', None, 1200 if q else None), ('caps', 400 if q else 6000, 1200 if q else 20000)):
        b = run.tlc('R1csSession.tla', 'R1csSession_%s.cfg' % cfg, simulate=sim)
        if cap:
            b = run.subset(b, cap)
        replay_sessions(run, b, cfg, {'error', 'complete', 'sound'})
    run.assume('generators are named by kind, party and position; their derivation is not prescribed')
