"""C03 on concrete circuits."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, r.choice(['numpy', 'numpy', 'pytorch']), n=r.choice([1, 2, 2, 3, 4]),
                    max_extra=3, loops=True)
    # parallel elements and elements used on two edges
    if r.random() < 0.4 and len(s['edges']) > 1:
        caps = [k for k, e in enumerate(s['elements']) if e['kind'] == 'C']
        e = r.choice(s['edges'])
        k = r.choice(caps)
        if k not in e[1]:
            e[1].append(k)
    if r.random() < 0.4:
        e = r.choice(s['edges'])
        s['elements'].append({'kind': 'C', 'unit': 'fF', 'value': rnd(r, 0.5, 60)})
        e[1].insert(r.randint(0, len(e[1])), len(s['elements']) - 1)
    s['mseed'] = r.randint(0, 10 ** 6)
    return s


def full_C(b):
    return npop(b.cir.C), npop(b.cir.L), npop(b.cir.W)


def rows(W):
    """Rows up to sign, sorted."""
    out = []
    for w in np.asarray(W, float):
        nz = [x for x in w if x != 0]
        out.append(tuple(w if nz and nz[0] > 0 else -w))
    return sorted(tuple(float(x) + 0.0 for x in w) for w in out)


def matrices(t, s):
    b = Built(s)
    C, L, W = full_C(b)
    rC, rL, rW = ref_matrices(s)
    t.close('capacitance matrix', C, rC, rtol=1e-10)
    t.close('susceptance matrix', L, rL, rtol=1e-10)
    t.equal('number of incidence rows', len(W), len(rW))
    if len(rW):
        t.equal('incidence rows', rows(W), rows(rW))
    # every entry small or large matters: compare entrywise too
    nz = np.abs(rC) > 0
    t.true('capacitance entries', np.all(np.abs(C - rC)[nz] <= 1e-9 * np.max(np.abs(rC))))
    # relabelling, reordering, flipping
    r = random.Random(s['mseed'])
    n = C.shape[0]
    perm = list(range(1, n + 1))
    r.shuffle(perm)
    mp = dict(zip(range(1, n + 1), perm))
    mp[0] = 0
    s2 = json.loads(json.dumps(s))
    s2['edges'] = [[[mp[x] for x in (e if r.random() < 0.5 else e[::-1])],
                    r.sample(ids, len(ids))] for e, ids in s['edges']]
    r.shuffle(s2['edges'])
    b2 = Built(s2)
    C2, L2, _ = full_C(b2)
    ix = [mp[k] - 1 for k in range(1, n + 1)]
    t.close('relabelled capacitance', C2[np.ix_(ix, ix)], C, rtol=1e-10)
    t.close('relabelled susceptance', L2[np.ix_(ix, ix)], L, rtol=1e-10)


CONTRACTS = {'matrices': matrices}


def run(t):
    t.loop('matrices', gen, matrices, 250 if t.tier == 'quick' else 3000)
