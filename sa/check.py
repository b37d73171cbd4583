"""Obligations, their outcomes and reports of them."""
import ast
import contextlib
import json
import os
import resource
import signal
import time
import traceback

from . import compare, domain, engine, val
from .program import ModuleInfo
from .val import B, FALSE, TRUE, mk, phi

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))

HELD, VIOLATED, UNDECIDED, KNOWN = 'held', 'violated', 'undecided', 'known'


class Broken(Exception):
    """The analysis can not find what it is about."""


class Outcome:
    def __init__(self, rule, construct, verdict, details=(), key=None):
        self.rule, self.construct, self.verdict = rule, construct, verdict
        self.details = list(details)
        self.key = key or f'{rule} @ {construct}'

    def lines(self):
        return [f'{self.verdict.upper()}: {self.rule}',
                f'  at {self.construct}'] + ['    ' + d
                                             for d in self.details]


class Context:
    def __init__(self, property_, tier='quick', root=None):
        self.property, self.tier = property_, tier
        self.root = root or engine.REPO
        self.outcomes = []
        self.analysed = {}
        self.assumptions = []
        self._it = None
        self.functions = set()

    # --- the program

    @property
    def it(self):
        if self._it is None:
            self._it = engine.load(self.root)
        return self._it

    def fresh(self):
        self._it = None
        domain.disable_parameters()
        return self.it

    def spec(self, name):
        """Reference definitions, interpreted by the very same engine."""
        path = os.path.join(ROOT, 'spec', name + '.py')
        module = 'spec_' + name
        if module not in self.it.modules:
            with open(path, encoding='utf-8') as f:
                info = ModuleInfo(module, path, ast.parse(f.read(), path))
            info.is_package = False
            self.it.modules[module] = info
        return lambda dotted: self.it.global_(module, dotted)

    def code(self, module, dotted):
        try:
            self.it.module('paradigm._core.' + module)
            r = self.it.global_('paradigm._core.' + module, dotted)
        except (KeyError, LookupError) as error:
            raise Broken(f'{module}:{dotted} is not found ({error!r})')
        if r is None or r.op == 'unk':
            raise Broken(f'{module}:{dotted} is not found')
        return r

    def where(self, v):
        """File and position of a function or class."""
        if v.op == 'dispatch':
            v = v.args[0].func
        info = v.args[0] if v.args else None
        node = getattr(info, 'node', None)
        module = getattr(info, 'module', None)
        if node is None or module is None:
            return val.show(v, 2)
        path = os.path.relpath(module.path, self.root)
        name = getattr(info, 'qualname', getattr(node, 'name', '?'))
        return f'{path}:{node.lineno} {name}'

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    # --- outcomes

    def outcome(self, f, args, kwargs=None, kwstars=(), alive=TRUE):
        """What a call may result in, exceptions included."""
        it = self.it
        it.escapes, it.alive, it.lost, it.effects = [], alive, [], []
        r = it.call_value(f, list(args), dict(kwargs or {}), list(kwstars))
        r = it.resolve(r)
        out = phi([(it.alive, r)]
                  + [(g, mk('raise', exception_class(x)))
                     for g, x in it.escapes])
        it.escapes, it.alive = [], TRUE
        if it.lost:
            out = val.unk(f'change is not followed: {it.lost[0]}')
        self.functions.update(f'{m}:{n}' if isinstance(m, str) else str(m)
                              for m, n in map(split_key,
                                              it.functions_analysed))
        return out

    def record(self, rule, construct, verdict, details=(), key=None):
        self.outcomes.append(Outcome(rule, construct, verdict, details, key))

    def hold(self, rule, construct, condition, details=()):
        self.record(rule, construct, HELD if condition else VIOLATED,
                    () if condition else details)

    def same(self, rule, construct, code, spec, facts=None, care=TRUE):
        """Values of the program should be the specified ones."""
        self.record(rule, construct, *self.compared(code, spec, facts, care))

    def compared(self, code, spec, facts=None, care=TRUE):
        c = compare.Comparison(facts)
        c.values(code, spec, care)
        self.count('value graph nodes compared',
                   len(set(val.nodes_in(code)) | set(val.nodes_in(spec))))
        if c.undecided:
            return UNDECIDED, c.undecided[:3]
        if not c.mismatches:
            return HELD, ()
        known = spec_nodes(spec)
        doubts = []
        for m in c.mismatches:
            d = doubt(m, known)
            if d is None:
                return VIOLATED, describe(m, c.facts)
            doubts.append(d)
        return UNDECIDED, doubts[:3]

    def attempt(self, rule, function, *args, seconds=300):
        """Analysis which might be not up to the code."""
        left = signal.alarm(seconds)
        started = time.time()
        try:
            function(self, *args)
        except (Exception, MemoryError) as error:
            val.B.ite_cache.clear()
            frames = traceback.extract_tb(error.__traceback__)[-3:]
            self.record(rule, 'paradigm', UNDECIDED,
                        [f'analysis is incomplete: {error!r}'[:300]]
                        + [f'{os.path.basename(f.filename)}:{f.lineno} '
                           f'{f.name}' for f in frames])
        finally:
            signal.alarm(max(1, left - int(time.time() - started))
                         if left else 0)


def split_key(key):
    return key.partition(':')[::2] if isinstance(key, str) else key


def exception_class(x):
    """Exceptions are told apart by their classes only."""
    if x.op == 'phi':
        return phi([(g, exception_class(y)) for g, y in val.leaves(x)])
    if x.op == 'exc':
        return x.args[0] if isinstance(x.args[0], val.V) else x
    if x.op == 'call':
        return x.args[0]
    if x.op == 'new':
        return mk('cls', x.args[0])
    return x


def spec_nodes(spec):
    return set(val.nodes_in(spec))


RISKY = {'@lt0', 'count', 'rank', 'sel', 'lastsel', 'at', 'prev', 'slice'}


def doubt(m, known):
    """Why a difference may be an artefact of the analysis."""
    nodes = set()
    for a in B.support(m.guard):
        nodes |= set(val.nodes_in(a))
    for v in (m.left, m.right):
        if isinstance(v, val.V):
            nodes |= set(val.nodes_in(v))
        elif v is not None:
            for a in B.support(v.b):
                nodes |= set(val.nodes_in(a))
    for n in nodes:
        if n.op == 'unk':
            return f'value is not understood: {val.show(n, 4)}'
    for n in nodes:
        if n in known or n in domain.UNDERSTOOD:
            continue
        if n.op == '@lt0' and domain.index_bound(n) is not None:
            continue
        if n.op in RISKY:
            if n.op == 'rank' and any(n in val.nodes_in(u)
                                      for u in domain.UNDERSTOOD):
                continue
            if n.op == 'count' and any(n in val.nodes_in(u)
                                       for u in domain.UNDERSTOOD):
                continue
            return f'arithmetic is not understood: {val.show(n, 6)[:200]}'
    return None


def describe(m, facts):
    lines = [f'{m.why} at {"/".join(map(str, m.path)) or "the result"}',
             f'program: {cut(m.left)}', f'expected: {cut(m.right)}']
    try:
        w = compare.feasible(m.guard, facts)
    except compare.TooHard:
        w = None
    if w is not None:
        lines.append('when:')
        lines += ['  ' + cut(x) for x in compare.witness(w)[:12]]
    return lines


def cut(v, n=300):
    s = v if isinstance(v, str) else (
        val.show(v, 6) if isinstance(v, val.V) else val.show_guard(v.b)
        if v is not None else '-')
    return s if len(s) <= n else s[:n] + '...'


# --- entry point

LIMITS = {'quick': 600, 'thorough': 840}
MEMORY = 12 << 30


class TimeOut(Exception):
    pass


@contextlib.contextmanager
def limits(seconds):
    def stop(*_):
        raise TimeOut(f'no answer in {seconds} s')

    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > MEMORY:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


def known_findings():
    result = {}
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property='):
                    head, key, what = line.split(' | ', 2)
                    result[head.split('=', 1)[1].strip(), key.strip()] = what
    return result


def run(property_, rule_module, tier):
    started = time.time()
    ctx = Context(property_, tier)
    try:
        with limits(LIMITS[tier]):
            rule_module.check(ctx)
    except Broken as error:
        ctx.record('the code is found where it is expected', 'paradigm',
                   UNDECIDED, [f'analysis is incomplete: {error}'])
    except (Exception, MemoryError) as error:
        val.B.ite_cache.clear()
        frames = traceback.extract_tb(error.__traceback__)[-3:]
        ctx.record('the code is understood', 'paradigm', UNDECIDED,
                   [f'analysis is incomplete: {error!r}'[:300]]
                   + [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'
                      for f in frames])
    known = known_findings()
    for o in ctx.outcomes:
        if o.verdict == VIOLATED and (property_, o.key) in known:
            o.verdict = KNOWN
    groups = {v: [o for o in ctx.outcomes if o.verdict == v]
              for v in (HELD, VIOLATED, UNDECIDED, KNOWN)}
    total = len(ctx.outcomes)
    minimum = getattr(rule_module, 'MINIMUM', 1)
    for o in groups[UNDECIDED] + groups[VIOLATED]:
        print('\n'.join(o.lines()))
    for o in groups[KNOWN]:
        print(f'KNOWN-FINDING: property={property_} '
              f'{known[property_, o.key]}')
    write_evidence(ctx, rule_module, groups, time.time() - started)
    print(f'{property_}: {len(groups[HELD])} of {total} obligations hold, '
          f'{len(groups[VIOLATED])} violated, '
          f'{len(groups[UNDECIDED])} undecided, '
          f'{len(groups[KNOWN])} known findings '
          f'({time.time() - started:.1f} s)')
    if groups[VIOLATED]:
        path = os.path.join(EVIDENCE, f'{property_}.violation.txt')
        with open(path, 'w', encoding='utf-8') as f:
            for o in groups[VIOLATED]:
                f.write('\n'.join(o.lines()) + '\n\n')
        path = os.path.relpath(path, ROOT)
        print(f'VIOLATION property={property_} replay={path}')
        return 1
    if total < minimum:
        print(f'ANALYSIS INCOMPLETE: {total} obligations, '
              f'at least {minimum} were expected')
    return 0


def write_evidence(ctx, rule_module, groups, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    total = sum(map(len, groups.values()))
    samples = [f'{o.verdict}: {o.rule} @ {o.construct}'
               for v in (VIOLATED, UNDECIDED, KNOWN, HELD)
               for o in groups[v]][:40]
    coverage = {
        'explanation': ' '.join((rule_module.__doc__ or '').split()),
        'obligations': total,
        'discharged': len(groups[HELD]),
        'undecided': len(groups[UNDECIDED]),
        'known_findings': len(groups[KNOWN]),
        'analysed': ctx.analysed,
        'functions_interpreted': sorted(ctx.functions),
        'modules_parsed': sorted(
            m for m in (ctx._it.modules if ctx._it is not None else ())
            if m.startswith('paradigm')),
        'samples': samples,
    }
    evidence = {
        'property': ctx.property, 'tier': ctx.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(rule_module, 'LEVEL', 'other'),
        'coverage': coverage,
        'assumptions': list(getattr(rule_module, 'ASSUMPTIONS', ()))
        + ctx.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(groups[VIOLATED]),
    }
    with open(os.path.join(EVIDENCE, f'{ctx.property}.json'), 'w',
              encoding='utf-8') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
