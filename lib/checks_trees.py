import json

def c06(run):
    run.build()
    q = run.quick
    for cfg, sim, cap in (('one', None, 1200 if q else None), ('two', None, 1200 if q else None), ('m3', None, 600 if q else None),
                          ('sim', 400 if q else 6000, 600 if q else 8000), ('big', None, 36 if q else None)):
        b = run.tlc('TreeBuild.tla', 'TreeBuild_%s.cfg' % cfg, simulate=sim)
        b = run.subset(sorted(set(b)), cap or 10 ** 9)
        run.sample(b[len(b) // 3][:600])
        src = run.write(cfg + '.jsonl', b)
        run.cth('trees', src, run.path(cfg + '.out'))
        run.count('traces_validated_against_impl', len(b))
        for r in run.read(cfg + '.out'):
            run.violation('%s: %s' % (r['cycle'], r['bad'][:3]), dict(kind='trees', behaviour=json.loads(b[r['i']]) if r['i'] >= 0 else None, bad=r['bad']))
        run.note('%s: %d behaviours' % (cfg, len(b)))
    run.assume('leaves differ in their shifted x-coordinate; a leaf and its mirror image share a commitment')

def _key(r):
    other = 'same' if (r['vset'], r['vwant']) == (r['set'], r['want']) else '%s/%s' % (len(r['vset']) - len(r['set']), r['vwant'] - r['want'])
    return (r['exp'], r['strat'], r['alt']['k'], r['alt']['c'], other, r['api'], r['M'], r['L'], r['h'])

def stratified(run, items, n, key):
    """About n items, every group represented; ordered by group."""
    groups = {}
    for x in items:
        groups.setdefault(key(json.loads(x)), []).append(x)
    if len(groups) > n:
        groups = {k: groups[k] for k in run.subset(sorted(groups, key=str), n)}
    out, left = [], n
    for i, k in enumerate(sorted(groups, key=lambda k: len(groups[k]))):
        take = run.subset(groups[k], max(1, left // (len(groups) - i)))
        out += [(k, x) for x in take]
        left -= len(take)
    return [x for k, x in sorted(out, key=lambda p: (str(p[0]), p[1]))]

def members(run, plan):
    """plan: (cfg, how many on small curves, how many also on real ones)"""
    run.build()
    for cfg, cap, real in plan:
        b = run.tlc('Member.tla', 'Member_%s.cfg' % cfg)
        total = len(b)
        b = stratified(run, sorted(set(b)), cap or 10 ** 9, _key)
        run.sample(b[len(b) // 2][:900])
        src = run.write(cfg + '.jsonl', b)
        log = run.cth('paths', src, run.path(cfg + '.out'), real)
        run.count('traces_validated_against_impl', len(b))
        run.count('on_real_curves', min(real, len(b)))
        for r in run.read(cfg + '.out'):
            run.violation('%s: %s' % (r['cycle'], r['bad'][:2]), dict(kind='paths', behaviour=json.loads(b[r['i']]), bad=r['bad'], cycle=r['cycle']))
        run.note('%s: %d of %d behaviours; %s' % (cfg, len(b), total, log.strip().replace('\n', '; ')))
    run.assume('discrete logarithms are hard on the real curves; differences seen on the small curves count when they recur on real ones')
    run.assume('a selected leaf is determined up to the mirror image -P-2*Delta, which the prover cannot open')

def c07(run):
    q = run.quick
    members(run, [('paths', 3000 if q else None, 24 if q else 400), ('batch2', 800 if q else 3000, 8 if q else 100)])

def c08(run):
    q = run.quick
    members(run, [('attack', 900 if q else None, 10 if q else 300), ('alter', 900 if q else None, 14 if q else 300)])

def c09(run):
    q = run.quick
    members(run, [('batch2', 1200 if q else None, 6 if q else 100), ('batch3', 500 if q else None, 6 if q else 100),
                  ('battack', 450 if q else None, 6 if q else 150), ('balter', 450 if q else 6000, 6 if q else 200)])
