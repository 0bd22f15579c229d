"""C19 on concrete circuits."""
from .lib import *


def gen(r, i):
    s = gen_circuit(r, 'pytorch', max_extra=2)
    s['pseed'] = r.randint(0, 10 ** 6)
    s['derived'] = r.random() < 0.3
    return s


def expected(b, cir, needs):
    """Objects of the circuit that need gradients, without repetition."""
    out = []
    for els in cir.elements.values():
        for el in els:
            for o in ([el.cap] if hasattr(el, 'cap') else []) + [el] + list(getattr(el, 'loops', [])):
                if id(o) in needs and not any(o is x for x in out):
                    out.append(o)
    return out


def params(t, s):
    r = random.Random(s['pseed'])
    ps = params_of(s)
    grad = set(r.sample(ps, r.randint(0, len(ps))))
    b = Built(s, grad)
    cir = b.cir
    if s['derived'] and ps:
        # one value computed from another tensor
        free = [p for p in ps if p not in grad and p[0] == 'el']
        if free:
            p = r.choice(free)
            el = element_of(b, p)
            base = el.internal_value.detach().clone().requires_grad_(True)
            el.internal_value = 1.0 * base
            grad.add(p)
            cir.update()
    needs = {id(element_of(b, p)): p for p in grad}
    want = expected(b, cir, needs)
    got = list(cir.parameters_elems)
    t.equal('number of parameters', len(got), len(want))
    for o in want:
        t.equal('occurrences of a parameter', sum(o is x for x in got), 1)
    vals = cir.parameters
    t.equal('number of values', len(vals), len(got))
    for o, v in zip(got, vals):
        t.close('value of a parameter', float(npop(v)), float(npop(o.internal_value)), rtol=0)
        t.true('value is the tensor of the element', v is o.internal_value)
    t.equal('types', [x for x in cir.get_params_type()], [type(x) for x in got])
    d = cir.parameters_dict
    t.true('dictionary', len(d) == len(got) and all(x is y for x, y in zip(d, got)))
    if not got:
        return
    cir.update()
    t.true('order after an update', [id(x) for x in cir.parameters_elems] == [id(x) for x in got])
    # short list rejected
    before = [float(npop(o.internal_value)) for o in got]
    t.raises('short parameter list',
             lambda: setattr(cir, 'parameters', [torch.as_tensor(v * 1.1) for v in before][:-1]))
    t.close('values after a rejected list', [float(npop(o.internal_value)) for o in got], before, rtol=0)
    # assignment
    H = None
    tr = choose_trunc(r, cir, 30)
    cir.set_trunc_nums(tr)
    newv = [v * r.uniform(0.7, 1.3) if v else 0.3 for v in before]
    others = [(o, float(npop(o.internal_value))) for els in cir.elements.values() for o in els
              if not any(o is x for x in got)]
    leaf = [torch.tensor(v, dtype=torch.float64, requires_grad=True) for v in newv]
    cir.parameters = leaf
    for o, v in zip(got, newv):
        t.close('assigned value', float(npop(o.internal_value)), v, rtol=1e-14)
    for o, v in others:
        t.close('other value', float(npop(o.internal_value)), v, rtol=0)
    t.true('order after assignment', [id(x) for x in cir.parameters_elems] == [id(x) for x in got])
    cur = json.loads(json.dumps(s))
    for o, v in zip(got, newv):
        k, i = needs[id(o)]
        if k == 'loop':
            cur['loops'][i] = v / 2 / np.pi
        elif k == 'cap':
            cur['elements'][i]['cap'] = [v, 'F']
        else:
            e = cur['elements'][i]
            e['value'] = v if e['kind'] != 'J' else v / 2 / np.pi
            e['unit'] = {'C': 'F', 'L': 'H', 'J': 'Hz'}[e['kind']]
    if s['flux_dist'] == 'all' or True:
        f = Built(cur)
        f.cir.set_trunc_nums(tr)
        Ha, Hf = npop(cir.hamiltonian()), npop(f.cir.hamiltonian())
        t.close('spectrum after assignment', np.linalg.eigvalsh(Ha), np.linalg.eigvalsh(Hf), rtol=1e-7)
    # gradients in order, clearing
    c = [r.uniform(0.5, 2) for _ in got]
    loss = sum(x * v for x, v in zip(c, cir.parameters))
    cir.zero_grad()
    loss.backward()
    t.close('gradients in order', npop(cir.parameters_grad), c, rtol=1e-12)
    cir.zero_grad()
    t.true('cleared gradients', all(v.grad is None for v in cir.parameters))
    t.true('reported cleared gradients', all(g is None for g in cir.parameters_grad))


CONTRACTS = {'parameters': params}


def run(t):
    t.loop('parameters', gen, params, 120 if t.tier == 'quick' else 1200)
