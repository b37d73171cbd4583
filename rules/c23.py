"""Delegation of a call to a child process is abstractly interpreted with
every call of the library of processes able to fail, the main module replaced
being an arbitrary one or missing.  Calls of the library and changes of
`sys.modules` are collected along with the conditions they happen under, so
that orders and nesting of them are compared on all paths at once.  What the
child executes is interpreted as well, with what the parent gives it."""
import ast

from sa import val
from sa.check import Broken, UNDECIDED
from sa.interp import Config
from sa.val import (B, FALSE, G, NONE, TRUE, c, leaves, mkseq, ref, seq, sym)

MINIMUM = 15
TECHNIQUE = ('abstract interpretation with collection of guarded events '
             '(typestate of a lock, of ends of a pipe and of a process), '
             'equivalence with a reference')
ASSUMPTIONS = ['calls of the library of processes either do what they are '
               'documented to do or raise `Exception` or `KeyboardInterrupt`',
               'receiving from a pipe all the other ends of which are closed '
               'raises `EOFError`']
PACKAGE = 'paradigm._core.'
MAIN = sym('main module', ('ext', 'types.ModuleType'))
HAS_MAIN = B.var(sym('there is a main module', ('ext', 'builtins.bool')))
FAILS = sym('function fails', ('ext', 'builtins.bool'))
ENDS = (sym('receiving end'), sym('sending end'))
PROCESS, CONTEXT = sym('process'), sym('context')
RESULT, ERROR = sym('result'), sym('error', ('ext', 'builtins.Exception'))
FUNCTION = ref('app.function')
CONTEXTS = ('multiprocessing.get_context',)
PIPES = ('.Pipe', 'multiprocessing.Pipe', 'multiprocessing.connection.Pipe',
         'multiprocessing.context.Pipe')
PROCESSES = ('.Process', 'multiprocessing.Process',
             'multiprocessing.process.Process',
             'multiprocessing.context.Process')
# ways to wait not known to the analysis
WAYS = {'poll', 'wait', 'sentinel', 'is_alive', 'exitcode', 'terminate',
        'kill', 'Queue', 'SimpleQueue', 'Pool', 'Manager', 'set_executable'}


class Heap(dict):
    """Memory changes of a part of which are observed."""

    def __init__(self, cells, watched, callback):
        super().__init__(cells)
        self.watched, self.callback = watched, callback

    def __setitem__(self, l, cell):
        super().__setitem__(l, cell)
        if l is self.watched:
            self.callback()


class Events:
    def __init__(self, it):
        self.it, self.log = it, []
        self.started = None
        self.modules = it.new_loc(mkseq('dict', [
            ('i', G(HAS_MAIN), seq('tuple', [c('__main__'), MAIN])),
            ('i', G(TRUE), seq('tuple', [c('os'), sym('another module')]))]))
        it.attributes['sys.modules'] = self.modules
        it.heap = Heap(it.heap, self.modules,
                       lambda: self.add('replace', NONE, [], NONE))
        results, errors = it.config.results, it.config.may_raise
        results['with'] = self.manage
        for name in ('.acquire', '.release', '.close', '.join', '.start',
                     '.send'):
            results[name] = self.method(name[1:])
        results['.recv'] = self.receive
        for names, x in ((CONTEXTS, CONTEXT), (PIPES, seq('tuple', ENDS)),
                         (PROCESSES, PROCESS)):
            for name in names:
                results[name] = self.create(name.rsplit('.')[-1], x)
        kinds = [ref('builtins.Exception'), ref('builtins.KeyboardInterrupt')]
        for name in (*CONTEXTS, *PIPES, *PROCESSES, '.start', '.close',
                     '.join', 'inspect.stack', 'inspect.getmodule'):
            errors[name] = kinds
        errors['.recv'] = [*kinds, ref('builtins.EOFError')]

    def add(self, name, base, args, r):
        self.log.append((name, self.it.alive, base, args, r))
        return r

    def method(self, name):
        def hook(it, args, r):
            base, *rest = [it.resolve(x) for x in args]
            if name == 'start':
                self.started = self.current()
            return self.add(name, base, rest, r)

        return hook

    def create(self, name, x):
        def hook(it, args, r):
            self.add(name, NONE, args, r)
            return x

        return hook

    def receive(self, it, args, r):
        self.add('recv', it.resolve(args[0]), args[1:], r)
        return seq('tuple', [
            RESULT, val.phi([(val.truth(FAILS), ERROR),
                             (B.not_(val.truth(FAILS)), NONE)])])

    def manage(self, it, args, r):
        v, what = args
        self.add('enter' if what == 'enter' else 'leave', it.resolve(v), [],
                 r)

    def current(self):
        """What is the main module."""
        return val.dict_get(self.it.deref(self.modules), c('__main__'),
                            sym('no module'))

    def named(self, *names):
        return [(i, g, base, args, r)
                for i, (name, g, base, args, r) in enumerate(self.log)
                if name in names and g != FALSE]


def check(ctx):
    f = delegate(ctx)
    child(ctx, f)
    is_main(ctx)
    sites(ctx)


def implies(f, g):
    return B.and_(f, B.not_(g)) == FALSE


def union(guards):
    result = FALSE
    for g in guards:
        result = B.or_(result, g)
    return result


def delegate(ctx):
    it = ctx.fresh()
    f = ctx.code('execution', 'call_in_process')
    where = ctx.where(f)
    events = Events(it)
    before = events.current()
    words = {x.attr for x in ast.walk(f.args[0].module.tree)
             if isinstance(x, ast.Attribute)}
    if words & WAYS:
        raise Broken(f'{where} waits for a process in an unknown way')
    outcome = ctx.outcome(f, [FUNCTION, sym('x'), sym('y')],
                          {'key': sym('z')})
    ctx.count('events', len(events.log))
    created, received = events.named('Process'), events.named('recv')
    started, closed = events.named('start'), events.named('close', 'leave')
    if (len(created) != 1 or not received or not started
            or not events.named('Pipe')):
        raise Broken(f'{where} delegates in an unknown way')
    # the main module
    replaced = events.named('replace')
    ctx.same('main module is restored on every exit', where,
             events.current(), before)
    for i, g, *_ in replaced:
        held = lock_held(it, events, i)
        if held is None:
            ctx.record('main module is replaced by one thread at a time',
                       where, UNDECIDED, ['lock is not understood'])
        else:
            ctx.hold('main module is replaced by one thread at a time',
                     f'{where} (change {replaced.index((i, g, *_)) + 1})',
                     implies(g, held),
                     ['`sys.modules` is changed with no lock shared by all '
                      'calls held when: ' + val.show_guard(
                          B.and_(g, B.not_(held)))[:400]])
    kept = union(g for g, x in leaves(events.started) if x is MAIN)
    kept = B.and_(kept, union(g for _, g, *_ in started))
    ctx.hold('main module of the user is not executed by the child', where,
             kept == FALSE,
             ['process is started with it when: ' + val.show_guard(kept)])
    # ends of the pipe
    (i, g, _, args, r), = created
    keywords = process_arguments(it, args, r)
    given = it.iteration(keywords.get('args', seq('tuple', [])))
    theirs = [x for x in ENDS if any(p[0] == 'i' and p[2] is x
                                     for p in given)]
    if len(theirs) != 1:
        raise Broken(f'{where} gives the child an unknown end of the pipe')
    [other] = theirs
    own, = [x for x in ENDS if x is not other]
    _, _, _, pipe_args, pipe = events.named('Pipe')[0]
    duplex = dict(pipe.args[2]).get('duplex', pipe_args[-1] if len(pipe_args)
                                    and val.is_c(pipe_args[-1])
                                    else c(True))
    simplex = duplex is c(False) or duplex is c(0)
    for i, g, base, *_ in received:
        ctx.hold('result is received from the other end', where,
                 base is own and (not simplex or own is ENDS[0]),
                 [f'{val.show(base, 3)} is received from, the child is '
                  f'given {val.show(other, 3)}'])
        start = union(h for k, h, *_ in started if k < i)
        ctx.hold('child is started before waiting for it', where,
                 implies(g, start),
                 ['waits for a child not started when: ' + val.show_guard(
                     B.and_(g, B.not_(start)))[:400]])
        close = union(h for k, h, x, *_ in closed if x is other and k < i)
        ctx.hold('death of the child ends the waiting', where,
                 implies(g, close),
                 [f'{val.show(other, 3)} is still open in the parent when: '
                  + val.show_guard(B.and_(g, B.not_(close)))[:400]])
        joined = union(h for k, h, x, *_ in events.named('join')
                       if x is PROCESS and k > i)
        ctx.hold('child is waited for on every path', where,
                 implies(g, joined),
                 ['child is not joined when: ' + val.show_guard(
                     B.and_(g, B.not_(joined)))[:400]])
    early = [k for k, h, x, *_ in closed if x is other and any(
        k < i and not B.and_(h, g) == FALSE for i, g, *_ in started)]
    ctx.hold('end of the child is open until it is started', where,
             not early, ['it is closed before'])
    last = min(i for i, *_ in received)
    hasty = [k for k, h, x, args, r in events.named('join')
             if x is PROCESS and k < last and not args and not r.args[2]]
    ctx.hold('child is not joined before its result is received', where,
             not hasty, ['a child sending a lot will never finish'])
    # what is returned
    ended = union(g for i, g, *_ in received)
    dead = B.var(val.mk('@raises', ref('builtins.EOFError'), received[0][4]))
    normal = union(g for g, x in leaves(outcome) if x.op != 'raise')
    ctx.hold('death of the child is an error', where,
             B.and_(normal, B.and_(ended, dead)) == FALSE,
             ['a result is returned when the child has died'])
    raises = [a for a in support_of(outcome, events)
              if a.op == '@raises']
    fine = TRUE
    for a in raises:
        fine = B.and_(fine, B.not_(B.var(a)))
    spec = ctx.outcome(ctx.spec('process')('received'), [
        RESULT, val.phi([(val.truth(FAILS), ERROR),
                         (B.not_(val.truth(FAILS)), NONE)])])
    ctx.same('result is returned or error is raised', where, outcome, spec,
             care=fine)
    name = keywords.get('name', NONE)
    ctx.hold('child is not taken for the main process', where,
             name is not c('MainProcess'), ['name of it is "MainProcess"'])
    return keywords


def support_of(outcome, events):
    result = set()
    for g in [g for g, _ in leaves(outcome)] + [x[1] for x in events.log]:
        result |= set(B.support(g))
    return result


def lock_held(it, events, until):
    """Condition of a lock being held by then."""
    held, shared = FALSE, set()
    for m in it.modules.values():
        if m.name.startswith('paradigm') and m.ready:
            shared |= {id(it.resolve(x)) for x in m.vars.values()}
    for i, (name, g, base, *_) in enumerate(events.log[:until]):
        if name not in ('enter', 'leave', 'acquire', 'release'):
            continue
        if base.op != 'call' or base.args[0].op != 'ref':
            if name in ('enter', 'acquire'):
                return None
            continue
        kind = base.args[0].args[0].rsplit('.', 1)[-1]
        if not kind.endswith(('Lock', 'Semaphore')) or id(base) not in shared:
            continue
        if name in ('enter', 'acquire'):
            held = B.or_(held, g)
        else:
            held = B.and_(held, B.not_(g))
    return held


PARAMETERS = ['group', 'target', 'name', 'args', 'kwargs']


def process_arguments(it, args, r):
    args = [it.resolve(x) for x in args]
    if args and args[0] is CONTEXT:
        args = args[1:]
    return {**dict(zip(PARAMETERS, args)), **dict(r.args[2])}


def child(ctx, keywords):
    """What the child process executes."""
    it = ctx.it
    target = keywords.get('target', NONE)
    where = ctx.where(target) if target.op == 'func' else 'target of a child'
    if target.op != 'func':
        raise Broken('target of a child is not understood')
    sent, called = [], []
    error = ref('builtins.Exception')

    def send(it, args, r):
        sent.append((it.alive, [it.resolve(x) for x in args]))
        return NONE

    def function(it, args, r):
        called.append((it.alive, r))
        return r

    it.config = Config()
    it.config.results = {'.send': send, 'app.function': function}
    it.config.may_raise = {'app.function': [error]}
    args = [p[2] for p in it.iteration(keywords.get('args',
                                                    seq('tuple', [])))]
    named = {val.cv(val.pair_of(p[2])[0]): val.pair_of(p[2])[1]
             for p in it.dict_parts(keywords['kwargs'])} \
        if 'kwargs' in keywords else {}
    ctx.outcome(target, args, named)
    expected = it.opaque_call(FUNCTION, [sym('x'), sym('y')],
                              {'key': sym('z')}, ())
    ctx.hold('function is called once', where,
             len(called) == 1 and called[0][0] == TRUE,
             [f'called when {val.show_guard(g)[:200]}' for g, _ in called]
             or ['it is not called'])
    for g, r in called:
        ctx.same('function is given its arguments', where, r, expected)
    if not called:
        return
    failed = B.var(val.mk('@raises', error, called[0][1]))
    for case, guard in (('function fails', failed),
                        ('function returns', B.not_(failed))):
        messages = [(B.and_(g, guard), x) for g, x in sent
                    if B.and_(g, guard) != FALSE]
        ctx.hold('result is sent once', f'{where} ({case})',
                 len(messages) == 1 and messages[0][0] == guard,
                 [f'{val.show(x[-1], 4)} is sent when {val.show_guard(g)}'
                  for g, x in messages] or ['nothing is sent'])
        for g, (_, *message) in messages:
            items = (val.static_items(val.restrict(message[0], guard))
                     if len(message) == 1 else None)
            if items is None or len(items) != 2:
                ctx.record('result is sent as it is received',
                           f'{where} ({case})', UNDECIDED,
                           ['message is not understood'])
                continue
            result, raised = [val.restrict(x, guard) for x in items]
            if case == 'function returns':
                ctx.same('result is sent as it is received',
                         f'{where} ({case})', seq('tuple', [result, raised]),
                         seq('tuple', [called[0][1], NONE]))
            else:
                ctx.hold('error is sent as it is received',
                         f'{where} ({case})', raised.op == 'exc',
                         [f'{val.show(raised, 3)} is sent instead'])


def is_main(ctx):
    it = ctx.fresh()
    f = ctx.code('execution', 'is_main_process')
    value = ctx.outcome(f, [])
    spec = ctx.spec('process')
    known = [ctx.outcome(spec(name), []) for name in (
        'named_main', 'named_main_too', 'parentless', 'parentless_too')]
    truth = val.truth(value) if value.op != 'raise' else None
    if any(truth == val.truth(x) for x in known):
        return ctx.record('main process is told from its children',
                          ctx.where(f), 'held')
    nodes = set(val.nodes_in(value))
    if any(set(val.nodes_in(x)) & nodes - {NONE, c('MainProcess')}
           for x in known) or not any(x.op == 'call' for x in nodes):
        return ctx.record('main process is told from its children',
                          ctx.where(f), 'violated',
                          [f'it is when {val.show(value, 6)}'])
    ctx.record('main process is told from its children', ctx.where(f),
               UNDECIDED, [f'{val.show(value, 6)} is not understood'])


def sites(ctx):
    """Only the main process delegates."""
    main = sym('is main process', ('ext', 'builtins.bool'))
    count = 0
    for name in ('stubs', 'modules'):
        it = ctx.fresh()
        calls = []
        if PACKAGE + name not in it.modules:
            raise Broken(f'{PACKAGE}{name} is not found')
        config = Config(
            opaque={PACKAGE + 'caching:load', PACKAGE + 'caching:save',
                    PACKAGE + 'execution:call_in_process',
                    PACKAGE + 'execution:is_main_process',
                    '_to_supported_qualified_paths'},
            may_raise={PACKAGE + 'caching:load': [ref('builtins.Exception')]})

        def delegated(it, args, r):
            calls.append(it.alive)
            return r

        config.results = {PACKAGE + 'execution:call_in_process': delegated,
                          PACKAGE + 'execution:is_main_process':
                              lambda it, args, r: main}
        it.exact[PACKAGE + name] = config
        it.module(PACKAGE + name)
        for g in calls:
            count += 1
            rest = B.and_(g, B.not_(val.truth(main)))
            ctx.hold('only the main process delegates',
                     f'paradigm/_core/{name}.py', rest == FALSE,
                     ['a child delegates as well when: '
                      + val.show_guard(rest)[:300]])
    found = 0
    for m in it.modules.values():
        if m.name.startswith('paradigm'):
            found += sum(isinstance(x, ast.Call) and (
                isinstance(x.func, ast.Attribute)
                and x.func.attr == 'call_in_process'
                or isinstance(x.func, ast.Name)
                and x.func.id == 'call_in_process')
                for x in ast.walk(m.tree))
    ctx.count('delegated calls', found)
    if found != count:
        ctx.record('only the main process delegates', 'paradigm', UNDECIDED,
                   [f'{found} calls are found, {count} are reached'])
