"""C24 on concrete circuits."""
import contextlib
import io
import re

from .lib import *

NAMES = ['x', 'left_arm', 'a_rather_long_name', 'L1', 'Q', 'coupler', 'b2', 'shunt7']


def gen(r, i):
    s = gen_circuit(r, 'pytorch' if r.random() < 0.3 else 'numpy', max_extra=2)
    for k, e in enumerate(s['elements']):
        if r.random() < 0.7:
            e['kw'] = {'id_str': f'{r.choice(NAMES)}_{k}'}
    s['names'] = [f'{r.choice(NAMES)}-{k}' if r.random() < 0.7 else None
                  for k in range(len(s['loops']))]
    return s


def quiet(f, *a):
    """The text a table function gives, and that it prints the same."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a)
    return r, out.getvalue()


def default_name(e):
    return f"{dict(C='C', L='L', J='JJ')[e['kind']]}_{e['value']}_{e['unit']}"


def built(s):
    b = Built(s)
    for l, x in zip(b.loops, s['names']):
        if x is not None:
            l.id_str = x
    return b


def elements(t, s):
    b = built(s)
    txt, printed = quiet(b.cir.element_description, True)
    t.equal('printed table', printed.strip(), txt.strip())
    rows = [x for x in txt.split('\n') if x.strip()]
    want = []
    for e, ids in s['edges']:
        want.append(('edge', tuple(e)))
        want += [('el', s['elements'][i]) for i in ids]
    t.equal('number of lines', len(rows), len(want))
    for row, (what, x) in zip(rows, want):
        if what == 'edge':
            t.equal('edge', [int(y) for y in re.findall(r'\d+', row)], list(x))
            continue
        m = re.fullmatch(r'\s*(\w+) = (\S+) (\w+)', row)
        if m is None:
            t.equal('line of an element', row, '<kind> = <value> <unit>')
            continue
        t.equal('kind', m.group(1), dict(C='C', L='L', J='JJ')[x['kind']])
        t.equal('unit', m.group(3), dict(C='F', L='H', J='Hz')[x['kind']])
        t.equal('digits of the value', bool(re.fullmatch(r'\d\.\d{3}e[+-]\d+', m.group(2))), True)
        want_ = float(element_value(x))
        t.close('value', float(m.group(2)), want_, rtol=5.1e-4, scale=want_)


def shares(t, s):
    if not s['loops']:
        t.skip()
    b = built(s)
    txt, printed = quiet(b.cir.loop_description, True)
    t.equal('printed table', printed.strip(), txt.strip())
    rows = [x for x in txt.split('\n') if x.strip()]
    where = [next(k for k, x in enumerate(b.loops) if x is l) for l in b.cir.loops]
    t.equal('loops of the header', rows[0].split(), [s['names'][k] or 'loop' for k in where])
    ids = [s['elements'][i] for _, x in s['edges'] for i in x if s['elements'][i]['kind'] != 'C']
    rows = rows[2:]
    t.equal('number of rows', len(rows), len(ids))
    B = np.abs(np.asarray(npop(b.cir.B), float))
    for i, (row, e) in enumerate(zip(rows, ids)):
        name, _, rest = row.partition(f', b{i + 1}:')
        t.equal('name', name.strip(), e.get('kw', {}).get('id_str', default_name(e)))
        t.close('shares', np.array([float(x) for x in rest.split()]), B[i], rtol=0.00501, scale=1)


CONTRACTS = {'elements': elements, 'shares': shares}


def run(t):
    n = 60 if t.tier == 'quick' else 600
    t.loop('elements', gen, elements, n)
    t.loop('shares', gen, shares, n)
