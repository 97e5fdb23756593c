"""Contract objects.  A contract names its target (a real function of /repo), builds its inputs under the stated
precondition, and gives the postcondition as an executable index-level specification.  The same specification is used
symbolically (proof for all sizes and values) and concretely (replay on the real code)."""

REGISTRY = []


# largest sizes used when an undischarged contract is replayed at unusual sizes ('*': any other size)
STRESS = {'raw_to_central': {'*': 150}, 'central_to_raw': {'*': 150}, 'generate_graded': {'*': 150}, 'gram_and_hankel': {'*': 24}, 'moment_filter_nd': {'_arr': 13, 'T': 12, '*': 0}, 'moment_filter': {'_arr': 13, 'n': 6, '*': 21}, 'moment_quadrature_nd': {'*': 0}, 'moment_quadrature': {'n': 7},
          'saddle_point': {'*': 5}, 'nd_cartesian_prod': {'d': 4, 'n': 9, 'R': 30, 'm': 9}, 'central_moments_mvn_kan': {'*': 4}, 'raw_moments_mvn_kan': {'*': 4},
          'brute_force': {'_arr': 13, 'n': 21, 'T': 12, 'steps': 30}, 'sde_cond': {'N': 4, 'm': 12, 'r': 12, 'z': 9, '*': 3}, 'gaussian_expectation': {'T': 12, '*': 3},
          'kf': {'*': 8, '_arr': 60}, 'rts': {'*': 8, '_arr': 60}, 'ek': {'*': 8, '_arr': 60}, 'sgp': {'*': 8, '_arr': 60}, 'cd_': {'*': 8, '_arr': 60}, 'utils_': False, 'prey': {'*': 12}, 'benes': {'*': 6}, 'well': {'*': 6}}

# sizes at which integers leave 64 bits: the engine's integers are mathematical
EXTRA = {'raw_to_central': [{'s': 36}], 'central_to_raw': [{'s': 36}], 'central_moment_of_normal': [{'p': 36}, {'p': 40}],
         'raw_moment_of_normal': [{'p': 68}], 'truncated_cumulant_generating_function': [{'s': 24}], 'saddle_point': [{'n': 11}],
         'generate_graded_lexico_multi_indices': [{'d': 2, 'e': 132, 'l': 0}], 'gram_and_hankel_indices_graded_lexico': [{'N': 12, 'd': 2}]}


class Contract:
    def __init__(self, id, prop, target, inputs, spec, call=None, cases=None, callee=None, raises=None, post=None,
                 lemmas=None, recursive=False, inline=(), setup=None, trials=6, rtol=1e-7, atol=1e-9, conc_cases=None,
                 prove=True, conc=True, compare=None, jit=True, conc_post=None, note='', conc_inputs=None,
                 real_call=None, also=(), lean=(), modes=('opaque',), abs=None, stress=True, optional=False, extra=()):
        self.id, self.prop, self.target = id, prop, target
        self.inputs, self.spec = inputs, spec
        self.call = call or (lambda inp, **case: (list(inp.values()), {}))
        self.cases = cases or [{}]
        self.conc_cases = conc_cases or self.cases
        self.callee, self.raises, self.post, self.lemmas = callee, raises, post, lemmas
        self.recursive, self.inline, self.setup = recursive, set(inline), setup
        self.trials, self.rtol, self.atol = trials, rtol, atol
        self.prove, self.conc, self.compare, self.jit = prove, conc, compare, jit
        self.conc_post = conc_post
        self.conc_inputs = conc_inputs
        self.real_call = real_call
        if stress is True:
            stress = next((v for k, v in STRESS.items() if id.startswith(k)), True)
        self.note, self.stress, self.optional = note, stress, optional
        self.modes, self.abs = tuple(modes), abs
        if abs is not None and self.modes == ('opaque',):
            self.modes = ('opaque', 'inline')
        self.extra = list(extra) or EXTRA.get(id, [])      # sizes every replay includes
        if abs is not None and callee is None:
            self.callee = abs.callee
        self.also, self.lean = tuple(also), tuple(lean)
        # a private helper may be changed freely together with its callers: it is judged through them
        self.private = any(p.startswith('_') and not p.startswith('__') for p in target.split(':')[1].split('.'))
        if self.private:
            self.conc = False
        REGISTRY.append(self)


class Abs:
    """A helper function with a contract, usable opaquely by its callers.

    name     head of the opaque results
    target   the real helper function
    params   [(parameter name, kind)]; kind: 'a' array or scalar, 's' symmetric matrix (precondition checked at the
             call), ('f', k) function of arrays shaped like the arguments numbered in k, 'sg' sigma-point rule
    shapes   f(args) -> tuple of result shapes
    defn     f(M, *args) -> results (the postcondition)
    symm     indices of the results that are symmetric matrices (a lemma of the helper's contract)
    """

    def __init__(self, name, target, params, shapes, defn, symm=(), dt='f'):
        self.name, self.target, self.params, self.shapes, self.defn, self.symm = name, target, params, shapes, defn, symm
        self.dt = dt

    def __call__(self, M, *args):
        if M.conc or M.mode == 'inline':
            return self.defn(M, *args)
        return self.opaque(M, list(args))

    def callee(self, M, env):
        return self.opaque(M, [env[p] for p, _ in self.params])

    def enc(self, M, args, k):
        from engine.terms import mk, flam, fresh, sel
        from engine.values import Tensor, Instance, numT, tab
        from engine import nf as NF
        v, kind = args[k], self.params[k][1]
        m = M.ip.models
        if kind in ('a', 's'):
            t = m.arr(M.ip, v)
            if t.ndim == 0:
                return NF.canon(numT(v))
            L = NF.canon(t.lam())
            if kind == 's' and not NF.lam_symmetric(L):
                raise NF.Undecided(f'precondition of {self.target}: {self.params[k][0]} is not shown to be symmetric')
            return L
        if kind == 'k':
            return v
        if kind == 'sg':
            return mk('tup', tuple(NF.canon(v.fields[f].lam()) for f in ('w', 'xi')), 'L')
        if kind == 'b':
            return mk('tup', (NF.canon(numT(1 if M.ip.truth(v) else 0)),), 'L')
        _, like = kind
        syms, vals = [], []
        for a in (like(args) if callable(like) else [args[j] for j in like]):
            X, Xv = m.fn_symbol_arg(a, M.ip)
            syms.append(X)
            vals.append(Xv)
        out = M.ip.local(set(syms), [], lambda: M.ip.call(v, vals))
        leaves = []

        def walk(o):
            if isinstance(o, (tuple, list)):
                for x in o:
                    walk(x)
            else:
                t = m.arr(M.ip, o)
                leaves.append(t.at() if t.ndim == 0 else t.lam())
        walk(out)
        return NF.canon(flam(tuple(syms), mk('tup', tuple(leaves), 'L')))

    def opaque(self, M, args):
        from engine.terms import app
        from engine.values import tab, lift
        from engine.solver import Sym_info
        enc = [self.enc(M, args, k) for k in range(len(args))]
        res, so = [], 'I' if self.dt == 'i' else 'R'
        shp = self.shapes(*args)
        for r, s in enumerate(shp):
            h = f'{self.name}.{r}'
            if r in self.symm:
                Sym_info.symm.add(h)
            res.append(tab(tuple(lift(x) for x in s), lambda *i, h=h: app(h, *enc, *i, sort=so), self.dt) if s else app(h, *enc, sort=so))
        return tuple(res) if len(res) > 1 else res[0]
