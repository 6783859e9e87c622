"""What each property's check runs."""
import sys
import engine, profiles

def jobs(pid, seed, quick, only=None):
    """TLC jobs of a property: its profiles, split over several seeds"""
    out = []
    for k, p in enumerate(profiles.PROFILES[pid]()):
        if only and only not in p['name']: continue
        if p.get('mc'):
            q = dict(p, mc=dict(p['mc'], depth=p['qdepth'] if quick and p.get('qdepth') else p['mc']['depth']))
            out.append(dict(name=p['name'], module='CapyMC', profile=q, seed=seed))
        if p.get('fns'):
            n = p.get('jvms', 3) if quick else p.get('jvms', 3) * 2
            num = p.get('num', 150) if quick else p.get('num', 150) * 12
            for j in range(n):
                out.append(dict(name='%s-%d' % (p['name'], j), module='CapyGen', profile=p, seed=seed * 1000 + k * 100 + j, num=num))
    return out

def run(pid, tier, seed, work, rep):
    s = engine.Session(pid, tier, seed, work, rep)
    try:
        if pid in SPECIAL: SPECIAL[pid](s)
        else: s.explore(jobs(pid, seed, s.quick), budget=100 if s.quick else 700)
    finally: s.close()
    return rep.finish()
def writes(s):
    """P11: refused writes through the common machinery, then faults on real writes"""
    import fswrite
    s.explore(jobs('P11', s.seed, s.quick, 'refused'), budget=60 if s.quick else 300)
    docs = []
    for j in jobs('P11', s.seed, s.quick, 'docs')[:1 if s.quick else 3]:
        for h in s.histories(dict(j, num=30)):
            if any(e['c']['f'] == 'generator_write' and e['rc'] == 0 for e in h): docs.append(h)
    docs.sort(key=lambda h: -sum(1 for e in h if e['c']['f'] in ('generator_embed_file', 'generator_add_image', 'generator_load_font')))
    n = 5 if s.quick else 15
    docs = docs[:n // 2] + docs[-(n - n // 2):]
    fswrite.check(s, docs)
def repeat(s):
    """P23: every history is made again, in other surroundings and without the other documents"""
    import extra
    opts = dict(extra='again', so2=s.so('pattern'), locale=extra.mklocale(s.work))
    s.explore(jobs('P23', s.seed, s.quick), opts=opts, budget=100 if s.quick else 700)
    s.rep.cov['locale_with_comma'] = 1 if opts['locale'] else 0
def edges(s):
    """P14: arguments at the edges of their domains, on a library that checks its memory accesses"""
    s.explore(jobs('P14', s.seed, s.quick), variant='asan', opts=dict(destroy=True, timeout=120), budget=100 if s.quick else 700)
SPECIAL = {'P14': edges, 'P23': repeat, 'P11': writes}
