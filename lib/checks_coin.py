import json
from checks_trees import stratified

def _wrap(x):
    return 'neg' if x[0] < 0 or (x[0] == 0 and x[1] < 0) else 'wide' if x[0] > 2 or (x[0] == 2 and x[1] >= 0) else 'edge' if abs(x[1]) < 3 and x[0] else 'mid' if x[0] else 'low'

def _fits(x, w):
    return 0 <= (x[0] << 63) + x[1] < 1 << w

def _history_key(b):
    k = []
    for e in b['hist']:
        if e['op'] == 'pour':
            w = (e['w0'], _fits(e['x0'], e['w0']) and _fits(e['x1'], e['w1'])) if e['w0'] == e['w1'] else ('mixed', e['w0'], e['w1'], _fits(e['x0'], e['w0']) and _fits(e['x1'], e['w1'])) if 64 in (e['w0'], e['w1']) else 'mixed'
            f, g = (e['f'], e['g']) if 'own' in (e['f'], e['g']) else ('two', 'forms')
            k.append((e['exp'], e['dup'], f, g, w) + ((e['bal'], _wrap(e['x0'])) if not e['raw'] else ()))
        elif e['op'] == 'mint':
            k.append((e['exp'], e['w'], _wrap(e['x']), _fits(e['x'], e['w'])))
    return tuple(k)

def _coarse(b):
    return tuple((e['exp'], e['dup'], e['f'] if e['f'] != 'own' else e['g'], e['raw']) for e in b['hist'] if e['op'] == 'pour')

def ledger(run, plan):
    """plan: (cfg, simulated behaviours or None, how many to replay, grouping)"""
    run.build()
    for cfg, sim, cap, key in plan:
        b = run.tlc('Ledger.tla', 'Ledger_%s.cfg' % cfg, simulate=sim, depth=40)
        total = len(b)
        b = stratified(run, sorted(set(b)), cap or 10 ** 9, key)
        run.sample(b[len(b) // 2][:900])
        src = run.write(cfg + '.jsonl', b)
        log = run.cth('ledger', src, run.path(cfg + '.out'))
        run.count('traces_validated_against_impl', len(b))
        for r in run.read(cfg + '.out'):
            run.violation('%s: %s' % (r['cycle'], r['bad'][:2]), dict(kind='ledger', behaviour=json.loads(b[r['i']]), bad=r['bad'], cycle=r['cycle']))
        run.note('%s: %d of %d histories; %s' % (cfg, len(b), total, log.strip().replace('\n', '; ')))

def c12(run):
    q = run.quick
    ledger(run, [('mint', None, 200 if q else 3000, _history_key), ('sums', None, 44 if q else 3000, _history_key), ('raw', None, 40 if q else 1500, _history_key),
                 ('wide', None, 6 if q else 200, _history_key), ('sim', 200 if q else 2000, 7 if q else 500, _coarse)])
    run.assume('the keys named by accepted payments are remembered by the ledger, which refuses a key named before')
    run.assume('histories are replayed on real curves with 64-bit amounts around 0, 2^63 and 2^64')

def alterations(run, layouts, cfg, cap, verify, sim=None):
    good = []
    for l in layouts:
        for b in l['bad']:
            run.violation('encodings of shape %s: %s' % (l['shape'], b), dict(kind='tx', layout=l))
        if 'tokens' in l:
            good.append(l)
    if not good:
        return
    lay = run.write('layouts_%s.jsonl' % cfg, good)
    toks = run.write('tokens_%s.jsonl' % cfg, [dict(k=i, kind=l['kind'], tokens=l['tokens']) for i, l in enumerate(good)])
    b = run.tlc('TxWire.tla', 'TxWire_%s.cfg' % cfg, simulate=sim, depth=8, env=dict(LAYOUTS=toks))
    total = len(b)
    def key(m):
        t = good[m['k']]
        i = m['muts'][0]['i'] if m['muts'] else -1
        tok = t['tokens'][i] if 0 <= i < len(t['tokens']) else dict(t='', c='')
        return (t['kind'], tok['t'], tok['c'], tuple(x['op'] for x in m['muts']), m['signer'], m['ctx'], m['dec'], m['exp'])
    b = stratified(run, sorted(set(b)), cap or 10 ** 9, key)
    run.sample(b[len(b) // 2][:600])
    src = run.write('alter_%s.jsonl' % cfg, b)
    run.cth('tx', lay, src, run.path(cfg + '.out'), 1 if verify else 0)
    run.count('traces_validated_against_impl', len(b))
    for r in run.read(cfg + '.out'):
        m = json.loads(b[r['i']])
        run.violation('%s altered by %s, signed by %s, context %s: %s' % (good[m['k']]['kind'], m['muts'], m['signer'], m['ctx'], r['bad'][:2]), dict(kind='tx', alteration=m, layout=good[m['k']], bad=r['bad']))
    run.note('%s: %d of %d alterations' % (cfg, len(b), total))

def c13(run):
    q = run.quick
    ledger(run, [('forms', None, 96 if q else 4000, _history_key), ('simforms', 160 if q else 2000, 24 if q else 800, _coarse)])
    run.cth('tx-layout', run.seed, 2 if q else 6, run.path('lay.out'))
    lays = [l for l in run.read('lay.out') if l.get('kind', 'tx') == 'tx' and l.get('mode', 0) == 0]
    alterations(run, lays, 'tx', 1500 if q else 40000, True)
    if not q:
        alterations(run, lays, 'tx2', 20000, True, sim=3000)
    run.assume('discrete logarithms are hard; signatures can not be forged without the secret key')
    run.assume('a payer may sign any payment of their own again, with bytes after the payment that no decoder reads')

def c14(run):
    run.build()
    q = run.quick
    run.cth('tx-layout', run.seed, 4 if q else 6, run.path('lay.out'))
    lays = run.read('lay.out')
    lays = [l for l in lays if l.get('kind') != 'tx' or l['mode'] == 0]
    if q:
        lays = [l for l in lays if 'tokens' not in l or l['shape'] < 2 or l['kind'] in ('path', 'pour')]
    alterations(run, lays, 'codec', 9000 if q else None, False)
    alterations(run, [l for l in lays if 'tokens' in l and l['shape'] < 2], 'codec2', 3000 if q else 60000, False, sim=24 if q else 2000)
    run.assume('bytes following a complete encoding are not looked at by decoders')
