"""Exhaustive handling of documented option values (C16) and lattice tables
(C17)."""

import ast
import random

from .project import Project, Func, AnalysisError
from .constprop import (Interpreter, Seq, Map, Ref, Term, Closure, TOP, Top,
    Budget, Raise, option, OStr, is_num, is_const)

# names of smearing functions accepted by PWscf (read_namelists, input docs)
SMEARING = {
    'gaussian': ('gaussian', 'gauss', 'Gaussian', 'Gauss'),
    'methfessel-paxton': ('methfessel-paxton', 'm-p', 'mp', 'Methfessel-Paxton',
        'M-P', 'MP'),
    'marzari-vanderbilt': ('marzari-vanderbilt', 'cold', 'm-v', 'mv',
        'Marzari-Vanderbilt', 'M-V', 'MV'),
    'fermi-dirac': ('fermi-dirac', 'f-d', 'fd', 'Fermi-Dirac', 'F-D', 'FD'),
    'lorentzian': ('lorentzian', 'lorentz', 'Lorentzian', 'Lorentz'),
    'heaviside': ('heaviside', 'Heaviside'),
}

NEEDED = ('delta', 'delta_prime', 'entropy')

# the entropy of the Lorentzian diverges and is not defined
WITHOUT = {('lorentzian', 'entropy')}

FAMILIES = ('fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton',
    'double_fermi_dirac', 'two_fermi_dirac', 'lorentz', 'heaviside',
    'fermi_dirac_matsubara')

IBRAV = (0, 1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12, 13,
    -13, 14)

ANGLES = (60, 90, 120)

class Options:
    def __init__(self, root):
        self.project = Project(root)
        self.findings = {}
        self.undecided = []
        self.done = {}

    def report(self, rule, func, construct, message):
        self.findings.setdefault((rule, func, construct), dict(rule=rule,
            func=func, construct=construct, message=message))

    def count(self, what, n=1):
        self.done[what] = self.done.get(what, 0) + n

    # --- broadening functions ---

    def attributes(self, module):
        """Attributes assigned to functions: (function, attr) -> value."""
        out, exact = {}, True
        for n in ast.walk(module.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'setattr':
                exact = False
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    targets = [t]
                    values = [n.value]
                    if isinstance(t, ast.Tuple) and isinstance(n.value,
                            ast.Tuple) and len(t.elts) == len(n.value.elts):
                        targets, values = t.elts, n.value.elts
                    for t, v in zip(targets, values):
                        if isinstance(t, ast.Attribute) and isinstance(t.value,
                                ast.Name):
                            if t.value.id in module.functions:
                                out[t.value.id, t.attr] = v
                            elif t.attr in NEEDED:
                                exact = False
        for f in module.functions.values():
            if f.node.decorator_list:
                exact = False
        return out, exact

    def smearing(self):
        func = self.project.function('occupations.smearing')
        if func is None:
            raise AnalysisError('occupations.smearing not found')
        a = func.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if not names:
            raise AnalysisError('occupations.smearing has no parameter')
        param = names[0]
        owner = {}
        attrs, exact = self.attributes(func.module)
        chosen = {}
        for family, spellings in SMEARING.items():
            for name in spellings:
                it = Interpreter(self.project)
                try:
                    outs = it.function(func, {param: option(name)})
                except Budget:
                    self.undecided.append('smearing %s' % name)
                    continue
                self.count('broadening names')
                values = [o.value for o in outs if o.kind in ('return',
                    'end')]
                if not values or any(v is None for v in values):
                    self.report('unhandled-value', func.qualname, name,
                        'documented broadening function %r selects no '
                        'function' % name)
                    continue
                refs = {v.target for v in values if isinstance(v, Ref)
                    and isinstance(v.target, Func)}
                if len(refs) != 1 or len(values) != sum(isinstance(v, Ref)
                        for v in values):
                    self.undecided.append('smearing %s' % name)
                    continue
                chosen.setdefault(family, {}).setdefault(refs.pop(),
                    []).append(name)
        for family, selected in chosen.items():
            if len(selected) > 1:
                self.report('different-implementations', func.qualname, family,
                    'spellings of %r select different functions: %s' % (family,
                    '; '.join('%s -> %s' % (', '.join(v), k.qualname)
                    for k, v in selected.items())))
            for f, spellings in selected.items():
                if f in owner and owner[f] != family:
                    self.report('shared-implementation', func.qualname, family,
                        '%r and %r select the same function %s' % (owner[f],
                        family, f.qualname))
                owner[f] = family
                if exact:
                    for attr in NEEDED:
                        if (family, attr) in WITHOUT:
                            continue
                        self.count('broadening attributes')
                        if (f.name, attr) not in attrs:
                            self.report('incomplete-implementation',
                                f.qualname, attr, '%s, selected by %r, has no '
                                'attribute %s' % (f.qualname, spellings[0],
                                attr))
        if exact:
            used = {}
            for (name, attr), v in attrs.items():
                if attr not in NEEDED:
                    continue
                self.count('attribute assignments')
                if isinstance(v, ast.Name) and v.id in func.module.functions:
                    if v.id in used and used[v.id] != (name, attr):
                        self.report('shared-implementation', 'occupations.%s'
                            % name, attr, '%s.%s and %s.%s are the same '
                            'function %s' % (*used[v.id], name, attr, v.id))
                    used[v.id] = name, attr
                    for other in sorted(FAMILIES, key=len, reverse=True):
                        if v.id.startswith(other + '_') and v.id[len(other)
                                + 1:] in NEEDED:
                            if (other, v.id[len(other) + 1:]) != (name, attr) \
                                    and name in FAMILIES:
                                self.report('wrong-implementation',
                                    'occupations.%s' % name, attr, '%s.%s is '
                                    '%s' % (name, attr, v.id))
                            break
            for name in FAMILIES:
                if name in func.module.functions:
                    for attr in NEEDED[:2]:
                        if (name, attr) not in attrs:
                            self.report('incomplete-implementation',
                                'occupations.%s' % name, attr,
                                'broadening function %s has no attribute %s'
                                % (name, attr))

    def smearing_defaults(self):
        """Names given as default must be translated before they are used."""
        known = {n.lower() for v in SMEARING.values() for n in v}
        for f in self.project.all_functions():
            a = f.args
            pairs = list(zip(reversed(a.posonlyargs + a.args),
                reversed(a.defaults))) + list(zip(a.kwonlyargs,
                a.kw_defaults))
            bound = {p.arg: option(d.value) for p, d in pairs
                if isinstance(d, ast.Constant) and isinstance(d.value, str)
                and d.value.lower() in known}
            if not bound:
                continue
            for p, d in pairs:
                bound.setdefault(p.arg, TOP)
            it = Interpreter(self.project)
            self.count('routines with default broadening')
            try:
                it.function(f, bound)
            except Budget:
                self.undecided.append(f.qualname)
            except RecursionError:
                self.undecided.append(f.qualname)
            for node, v in it.calls:
                if isinstance(v, OStr):
                    self.report('untranslated-name', f.qualname, ast.unparse(
                        node)[:60], 'name %r of broadening function is used '
                        'like a function: %s' % (str(v), ast.unparse(node)[
                        :60]))

    # --- options in general ---

    def angles(self):
        for f in self.project.all_functions():
            a = f.args
            if 'angle' not in [x.arg for x in a.posonlyargs + a.args
                    + a.kwonlyargs]:
                continue
            if not any(isinstance(n, (ast.Compare, ast.Subscript, ast.Dict,
                    ast.Call)) for n in ast.walk(f.node)):
                continue
            self.values(f, 'angle', ANGLES)

    def values(self, f, param, values, **bound):
        results = {}
        for v in values:
            it = Interpreter(self.project)
            try:
                outs = it.function(f, dict(bound, **{param: option(v)}))
            except (Budget, RecursionError):
                self.undecided.append('%s(%s=%r)' % (f.qualname, param, v))
                results[v] = it, None
                continue
            results[v] = it, outs
        self.count('values of %s' % param, len(values))
        ok = {v: outs is not None and any(o.kind in ('return', 'end')
            for o in outs) for v, (it, outs) in results.items()}
        bound_somewhere = set()
        for it, outs in results.values():
            for i, flags in it.names.items():
                if any(flags):
                    bound_somewhere.add(i)
        for v, (it, outs) in results.items():
            for i, flags in it.names.items():
                if not any(flags) and i in bound_somewhere:
                    n = it.nodes[i]
                    self.report('undefined-for-value', f.qualname, '%s=%r: %s'
                        % (param, v, n.id), 'variable %s is not defined when '
                        '%s is %r' % (n.id, param, v))
            for n in it.chains:
                self.report('unhandled-value', f.qualname, '%s=%r' % (param,
                    v), 'no alternative is selected when %s is %r: if %s' % (
                    param, v, ast.unparse(n.test)))
            for n, k in it.missing:
                if isinstance(k, type(option(v))) and k == v:
                    self.report('unhandled-value', f.qualname, '%s=%r' % (
                        param, v), 'no entry for %s = %r: %s' % (param, v,
                        ast.unparse(n)[:60]))
            if outs is None:
                continue
            if not ok[v]:
                if any(ok.values()):
                    self.report('unhandled-value', f.qualname, '%s=%r' % (
                        param, v), 'every path ends in an error when %s is %r'
                        % (param, v))
                continue
            ends = [o for o in outs if o.kind == 'end' or o.kind == 'return'
                and o.value is None]
            rest = [o for o in outs if o.kind == 'return' and o.value is not
                None]
            if ends and not rest and any(o.kind == 'return' and o.value is not
                    None for w, (_, os) in results.items() if os for o in os):
                self.report('unhandled-value', f.qualname, '%s=%r' % (param,
                    v), 'nothing is returned when %s is %r' % (param, v))

    def lattices(self):
        f = self.project.function('bravais.primitives')
        if f is None:
            raise AnalysisError('bravais.primitives not found')
        for ibrav in IBRAV:
            for form in forms(ibrav):
                outs = self.lattice(f, ibrav, form)
                if outs is None:
                    continue
                self.count('lattices')
                good = [o for o in outs if o.kind == 'return' and o.value is
                    not None]
                if not good:
                    self.report('unhandled-value', f.qualname, 'ibrav=%d'
                        % ibrav, 'documented Bravais lattice %d yields no '
                        'lattice vectors' % ibrav)

    def lattice(self, f, ibrav, form):
        names = [x.arg for x in f.args.args]
        if not {'ibrav', 'a', 'b', 'c', 'celldm'} <= set(names):
            self.undecided.append('signature of primitives')
            return None
        it = Interpreter(self.project)
        try:
            return it.function(f, dict(form, ibrav=option(ibrav)))
        except (Budget, RecursionError):
            self.undecided.append('ibrav=%d' % ibrav)
            return None

    def varargs(self):
        """Documented numbers of positional arguments do not end in errors."""
        for f in self.project.all_functions():
            va = f.args.vararg
            if va is None:
                continue
            counts = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) \
                        and ast.unparse(n.left) == 'len(%s)' % va.arg \
                        and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) \
                        and isinstance(n.comparators[0], ast.Constant) \
                        and isinstance(n.comparators[0].value, int):
                    counts.add(n.comparators[0].value)
            if not counts:
                continue
            argv = any(isinstance(n, ast.Attribute) and n.attr == 'argv'
                for n in ast.walk(f.node))
            for c in sorted(counts):
                it = NoArgv(self.project)
                try:
                    outs = it.function(f, {'*': Seq([TOP] * c, 'tuple')})
                except (Budget, RecursionError):
                    continue
                self.count('numbers of arguments')
                if not any(o.kind in ('return', 'end') for o in outs):
                    self.report('unhandled-value', f.qualname, 'len(%s)=%d'
                        % (va.arg, c), 'a call with %d arguments ends in an '
                        'error' % c)

    def mixed_conditions(self):
        """Conditions that are a comparison or a number by precedence."""
        for f in self.project.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.While, ast.If)) and isinstance(n.test,
                        ast.IfExp):
                    arms = n.test.body, n.test.orelse
                    kinds = [isinstance(x, ast.Compare) for x in arms]
                    if any(kinds) and not all(kinds):
                        other = arms[kinds.index(False)]
                        if isinstance(other, ast.BinOp) or isinstance(other,
                                ast.Attribute) and other.attr in ('ndim',
                                'size') or isinstance(other, ast.Call) \
                                and isinstance(other.func, ast.Name) \
                                and other.func.id == 'len':
                            self.report('mixed-condition', f.qualname,
                                ast.unparse(n.test)[:80], 'condition is a '
                                'comparison or the number %s depending on %s'
                                % (ast.unparse(other), ast.unparse(
                                n.test.test)))

class NoArgv(Interpreter):
    """The process was not started with the arguments on the command line."""
    def call(self, e, f, args, kwargs, known, s, module, scope):
        if isinstance(e.func, ast.Name) and e.func.id == 'len' and e.args \
                and ast.unparse(e.args[0]).endswith('sys.argv'):
            return [(1, s)]
        return super().call(e, f, args, kwargs, known, s, module, scope)

def sym(name):
    return Term('sym', name)

def forms(ibrav):
    """Argument forms: conventional constants and celldm, both units."""
    out = []
    for bohr in False, True:
        conv = {n: sym(n) for n in ('a', 'b', 'c', 'cosbc', 'cosac',
            'cosab')}
        conv['bohr'] = bohr
        celldm = {'celldm': Seq([sym('celldm%d' % i) for i in range(1, 7)],
            'list'), 'bohr': bohr}
        if ibrav == 0:
            for units in 'alat', 'bohr', 'angstrom':
                r = Seq([Seq([sym('r%d%d' % (i, j)) for j in range(3)],
                    'list') for i in range(3)], 'list')
                for form in conv, celldm:
                    out.append(dict(form, r_cell=r, cell_units=units))
        else:
            out += [conv, celldm]
    return out

def check(root):
    o = Options(root)
    o.smearing()
    o.smearing_defaults()
    o.angles()
    o.lattices()
    o.varargs()
    o.mixed_conditions()
    return list(o.findings.values()), dict(values_analysed=o.done,
        undecided=sorted(set(o.undecided)))
