"""Parser and grounded semantics for the PDDL / PDDLStream subset used by the planning domains (and a bit more)."""
import itertools
from mc.core import StubLimit


def tokens(text):
    text = '\n'.join(l.split(';')[0] for l in text.splitlines())
    return text.replace('(', ' ( ').replace(')', ' ) ').split()


def parse(text):
    tok, out, stack = tokens(text), [], []
    for t in tok:
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            stack[-1].append(t.lower())
    if stack:
        raise StubLimit('unbalanced parentheses')
    return out


def names(lst):
    """?a ?b - type ?c  ->  [?a, ?b, ?c]"""
    out, skip = [], False
    for x in lst:
        if skip:
            skip = False
        elif x == '-':
            skip = True
        else:
            out.append(x)
    return out


class Action:
    def __init__(self, x):
        self.name = x[1]
        d = {x[i]: x[i + 1] for i in range(2, len(x) - 1, 2)}
        self.params = names(d.get(':parameters', []))
        self.pre = d.get(':precondition', ['and'])
        self.eff = d.get(':effect', ['and'])


class Stream:
    def __init__(self, x):
        self.name = x[1]
        d = {x[i]: x[i + 1] for i in range(2, len(x) - 1, 2)}
        self.inputs = names(d.get(':inputs', []))
        self.outputs = names(d.get(':outputs', []))
        self.domain = conj(d.get(':domain', ['and']))
        self.certified = conj(d.get(':certified', ['and']))
        self.fluents = d.get(':fluents', [])


def conj(f):
    return [g for h in f[1:] for g in conj(h)] if f and f[0] == 'and' else ([f] if f else [])


class Domain:
    def __init__(self, domain_text, stream_text):
        d = [x for x in parse(domain_text) if x and x[0] == 'define'][0]
        self.actions = [Action(x) for x in d if x and x[0] == ':action']
        self.derived = [(x[1], x[2]) for x in d if x and x[0] == ':derived']
        self.predicates = [x for x in d if x and x[0] == ':predicates']
        s = [x for x in parse(stream_text) if x and x[0] == 'define'][0]
        self.streams = [Stream(x) for x in s if x and x[0] == ':stream']
        other = {x[0] for x in s if isinstance(x, list)} - {'stream', ':stream'}
        if other:
            raise StubLimit('stream file uses %s' % other)


def index(facts):
    ix = {}
    for f in facts:
        ix.setdefault(f[0], []).append(f)
    return ix


def sub(f, env):
    return tuple(env.get(x, x) for x in f)


def matches(atoms, ix, env, order=True):
    """all extensions of env that make every positive atom a fact"""
    if not atoms:
        yield env
        return
    a, rest = atoms[0], atoms[1:]
    for f in ix.get(a[0], ()):
        if len(f) != len(a):
            continue
        e = env
        ok = True
        for x, v in zip(a[1:], f[1:]):
            if x[0] == '?':
                if x in e:
                    if e[x] != v:
                        ok = False
                        break
                else:
                    if e is env:
                        e = dict(env)
                    e[x] = v
            elif x != v:
                ok = False
                break
        if ok:
            yield from matches(rest, ix, e)


def holds(f, facts, env, objects):
    if not f:
        return True
    h = f[0]
    if h == 'and':
        return all(holds(g, facts, env, objects) for g in f[1:])
    if h == 'or':
        return any(holds(g, facts, env, objects) for g in f[1:])
    if h == 'not':
        return not holds(f[1], facts, env, objects)
    if h == 'imply':
        return not holds(f[1], facts, env, objects) or holds(f[2], facts, env, objects)
    if h == '=':
        return env.get(f[1], f[1]) == env.get(f[2], f[2])
    if h in ('exists', 'forall'):
        vs = names(f[1])
        it = (holds(f[2], facts, {**env, **dict(zip(vs, c))}, objects) for c in itertools.product(objects, repeat=len(vs)))
        return any(it) if h == 'exists' else all(it)
    if h in ('when', 'increase'):
        raise StubLimit('condition %s' % h)
    return sub(f, env) in facts


def positive(f):
    return [tuple(g) for g in conj(f) if g and g[0] not in ('and', 'or', 'not', 'imply', '=', 'exists', 'forall')]


def effects(f, facts, env, objects, add, dele):
    if not f:
        return
    h = f[0]
    if h == 'and':
        for g in f[1:]:
            effects(g, facts, env, objects, add, dele)
    elif h == 'not':
        dele.add(sub(f[1], env))
    elif h == 'when':
        if holds(f[1], facts, env, objects):
            effects(f[2], facts, env, objects, add, dele)
    elif h == 'forall':
        vs = names(f[1])
        for c in itertools.product(objects, repeat=len(vs)):
            effects(f[2], facts, {**env, **dict(zip(vs, c))}, objects, add, dele)
    elif h == 'increase':
        pass                      # costs
    else:
        add.add(sub(f, env))


class System:
    """Transition system over sets of changing facts; `static` are the facts no action touches."""

    def __init__(self, dom, facts):
        self.dom = dom
        touched = set()

        def scan(f):
            if not f:
                return
            if f[0] == 'and':
                for g in f[1:]:
                    scan(g)
            elif f[0] == 'not':
                scan(f[1])
            elif f[0] in ('when', 'forall'):
                scan(f[2])
            elif f[0] != 'increase':
                touched.add(f[0])
        for a in dom.actions:
            scan(a.eff)
        self.touched = touched
        self.derived_names = {h[0] for h, _ in dom.derived}
        self.static = frozenset(f for f in facts if f[0] not in touched)
        self.static_ix = index(self.static)
        self.objects = sorted({x for f in facts for x in f[1:]})

    def derive(self, dyn):
        """the changing facts and everything derived from them"""
        facts = set(dyn)
        grow = True
        while grow:
            grow = False
            ix = index(facts)
            allix = {**self.static_ix, **{k: list(v) + list(self.static_ix.get(k, ())) for k, v in ix.items()}}
            view = _View(self.static, facts)
            for head, body in self.dom.derived:
                f = body
                while f and f[0] == 'exists':
                    f = f[2]
                pos = positive(f)
                free = set(names(head[1:]))
                for env in matches(pos, allix, {}):
                    if not free <= set(env):
                        envs = [{**env, **dict(zip(sorted(free - set(env)), c))}
                                for c in itertools.product(self.objects, repeat=len(free - set(env)))]
                    else:
                        envs = [env]
                    for e in envs:
                        g = sub(head, e)
                        if g not in facts and holds(body, view, e, self.objects):
                            facts.add(g)
                            grow = True
        return facts

    def step(self, dyn):
        """all (action name, parameters, successor)"""
        full = self.derive(dyn)
        view = _View(self.static, full)
        ix = dict(self.static_ix)
        for k, v in index(full).items():
            ix[k] = list(v) + list(self.static_ix.get(k, ()))
        for a in self.dom.actions:
            pos = positive(a.pre)
            # changing conditions first: they have few instances
            pos.sort(key=lambda f: len(ix.get(f[0], ())))
            for env in matches(pos, ix, {}):
                loose = [p for p in a.params if p not in env]
                for c in itertools.product(self.objects, repeat=len(loose)):
                    e = {**env, **dict(zip(loose, c))}
                    if not holds(a.pre, view, e, self.objects):
                        continue
                    add, dele = set(), set()
                    effects(a.eff, view, e, self.objects, add, dele)
                    yield a.name, tuple(e[p] for p in a.params), frozenset((dyn - dele) | add)


class _View:
    def __init__(self, *sets):
        self.sets = sets

    def __contains__(self, f):
        return any(f in s for s in self.sets)


def close_streams(dom, facts, produce, rounds=3, log=None):
    """apply every stream to every input tuple that satisfies its domain, `rounds` times over"""
    facts = set(facts)
    done = set()
    for _ in range(rounds):
        ix = index(facts)
        new = set()
        for s in dom.streams:
            for env in matches([tuple(f) for f in s.domain], ix, {}):
                if any(i not in env for i in s.inputs):
                    raise StubLimit('stream %s: input without a domain condition' % s.name)
                key = (s.name, tuple(env[i] for i in s.inputs))
                if key in done:
                    continue
                done.add(key)
                out = produce(s, key[1])
                if out is None:
                    continue
                e = {**env, **dict(zip(s.outputs, out))}
                cert = [sub(f, e) for f in s.certified]
                new.update(cert)
                if log is not None:
                    log.append((s.name, key[1], out, cert))
        if new <= facts:
            break
        facts |= new
    return facts
