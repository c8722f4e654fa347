"""C25 robot commands: every command built from paths, attachments and detachments up to a length, on the real classes."""
import copy, itertools
import numpy as np
from mc.core import guard, Raised
from mc import loader

ID, LEVEL = 'C25', 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all commands up to a length and all short operation sequences (reverse/refine/execute/control) on the real classes against a list model'
NOTE = 'Every command of up to the stated number of segments is reversed, refined, executed and controlled in every operation ' \
       'order up to the depth on the real classes; the simulator stand-in logs every movement; the log and the structure are ' \
       'compared with a list model, and the original is compared with its snapshot after every operation.'
BOUNDS = {'quick': 'up to 3 segments out of 16 (paths of 0-3 configurations as list/tuple/array with 0-2 attachments, attach and detach of 2 bodies); operation sequences up to 3',
          'thorough': 'up to 4 segments (the fourth out of 6); operation sequences up to 4'}
ASSUMPTIONS = ['refine_path of the simulator inserts points between the way points and keeps them (stand-in)']

R, A, B, LINK = 1, 2, 3, 'tool'


def segments():
    """descriptions: ('path', container, configurations, attached bodies) or ('attach'|'detach', body)"""
    c = [(0.0, 1.0), (0.5, 1.0), (0.5, -2.0)]
    out = []
    for n, kind, att in ((1, 'list', ()), (2, 'list', (A,)), (3, 'list', ()), (3, 'tuple', (A, B)), (3, 'array', (B,)), (2, 'array', ()),
                         (0, 'list', ()), (2, 'tuple', (B, A))):
        out.append(('path', kind, tuple(c[:n]) if n != 2 else (c[2], c[0]), att))
    out += [('path', 'list', (c[0], c[0], c[1]), (A,)), ('path', 'list', (c[0], c[1], c[0]), ())]     # repeated and palindromic
    out += [('attach', A), ('detach', A), ('attach', B), ('detach', B)]
    return out


def tasks(tier):
    S = segments()
    t = [dict(first=i, length=3, depth=3 if tier == 'quick' else 4, fourth=0) for i in range(len(S))]
    if tier != 'quick':
        t += [dict(first=i, length=4, depth=2, fourth=1) for i in range(len(S))]
    return t


def world():
    import pybullet_tools.utils as pbu
    pbu.reset_world()
    r = pbu._add((0.1, 0.1, 0.1), 'robot', ('a', 'b'))
    x, y = pbu.create_box(0.1, 0.1, 0.1), pbu.create_box(0.1, 0.1, 0.1)
    assert (r, x, y) == (R, A, B)
    return pbu


def build(k, spec):
    g = {b: k.BodyGrasp(b, ((0.0, 0.0, 0.1), (0, 0, 0, 1)), None, R, LINK) for b in (A, B)}
    parts = []
    for s in spec:
        if s[0] == 'path':
            path = {'list': list, 'tuple': tuple, 'array': lambda p: np.array(p, dtype=float).reshape(len(p), 2)}[s[1]](s[2])
            atts = [g[b] for b in s[3]]
            parts.append(k.BodyPath(R, path, joints=('a', 'b'), attachments=atts) if atts else k.BodyPath(R, path, joints=('a', 'b')))
        else:
            parts.append((k.Attach if s[0] == 'attach' else k.Detach)(s[1], R, LINK))
    return k.Command(parts)


def read(k, cmd):
    """structure of a command"""
    out = []
    for p in cmd.body_paths:
        if isinstance(p, k.BodyPath):
            out.append(('path', p.body, tuple(p.joints), tuple(tuple(float(v) for v in c) for c in p.path), tuple(a.body for a in p.attachments)))
        elif isinstance(p, k.Attach):
            out.append(('attach', p.body, p.robot, p.link))
        elif isinstance(p, k.Detach):
            out.append(('detach', p.body, p.robot, p.link))
        else:
            out.append((type(p).__name__,))
    return out


def model(spec):
    return [('path', R, ('a', 'b'), s[2], s[3]) if s[0] == 'path' else (s[0], s[1], R, LINK) for s in spec]


def m_reverse(m):
    sw = {'attach': 'detach', 'detach': 'attach'}
    return [('path',) + s[1:3] + (s[3][::-1],) + s[4:] if s[0] == 'path' else (sw[s[0]],) + s[1:] for s in m[::-1]]


def m_execute(m):
    out = []
    for s in m:
        if s[0] == 'path':
            for c in s[3]:
                out.append(('joints', s[1], s[2], c))
                out.append(frozenset(('follow', a, R, c) for a in s[4]))
    return [x for x in out if x]


def m_control(m):
    out = []
    for s in m:
        if s[0] == 'path':
            out += [('control', s[1], s[2], c) for c in s[3]]
        else:
            out.append(s)
    return out


def group(log, keep):
    """the movements of a log; followers of one configuration are unordered"""
    out = []
    for e in log:
        if e[0] not in keep:
            continue
        if e[0] == 'follow':
            if out and isinstance(out[-1], frozenset):
                out[-1] = out[-1] | {e}
            else:
                out.append(frozenset([e]))
        else:
            out.append(e)
    return out


def refined(m, got, n):
    """got is m with points inserted on the legs"""
    if len(m) != len(got):
        return False
    for a, b in zip(m, got):
        if a[0] != 'path':
            if a != b:
                return False
            continue
        if b[0] != 'path' or a[1:3] != b[1:3] or a[4] != b[4]:
            return False
        it = iter(b[3])
        if not all(any(c == x for x in it) for c in a[3]):
            return False
        if a[3] and (b[3][0] != a[3][0] or b[3][-1] != a[3][-1]):
            return False
        if len(b[3]) != len(a[3]) + n * max(0, len(a[3]) - 1):
            return False
    return True


OPS = ('reverse', 'refine2', 'execute', 'control', 'step', 'bodies')


def apply(k, pbu, cmd, m, op):
    """(new command, its model, message)"""
    if op == 'reverse':
        got = guard(cmd.reverse)
        if isinstance(got, Raised):
            return None, None, 'reverse raised ' + got.text
        want = m_reverse(m)
        if read(k, got) != want:
            return None, None, 'reverse gave %s, expected %s' % (read(k, got), want)
        if got is cmd:
            return None, None, 'reverse returned the command itself'
        return got, want, None
    if op == 'refine2':
        if any(s[0] == 'path' and len(s[3]) == 0 for s in m):
            return cmd, m, None          # the simulator cannot refine an empty path
        got = guard(cmd.refine, num_steps=2)
        if isinstance(got, Raised):
            return None, None, 'refine raised ' + got.text
        r = read(k, got)
        if not refined(m, r, 2):
            return None, None, 'refine gave %s from %s' % (r, m)
        return got, r, None
    if op in ('execute', 'control', 'step'):
        pbu.WORLD.log.clear()
        r = guard(cmd.execute, time_step=0) if op == 'execute' else guard(cmd.control) if op == 'control' else guard(cmd.step)
        if isinstance(r, Raised):
            return None, None, '%s raised %s' % (op, r.text)
        log = list(pbu.WORLD.log)
        if op == 'control':
            got, want = group(log, ('control', 'attach', 'detach')), m_control(m)
        else:
            got, want = group(log, ('joints', 'follow')), m_execute(m)
        if got != want:
            return None, None, '%s did %s, expected %s' % (op, got, want)
        return cmd, m, None
    got = guard(cmd.bodies)
    want = set()
    for s in m:
        want |= {s[1]} | set(s[4]) if s[0] == 'path' else {s[1], s[2]}
    if isinstance(got, Raised) or set(got) != want:
        return None, None, 'bodies %s, expected %s' % (got, want)
    return cmd, m, None


def sequences(depth):
    """operation sequences worth telling apart: observations at the end, copies before"""
    for n in range(0, depth):
        for pre in itertools.product(('reverse', 'refine2'), repeat=n):
            if pre.count('refine2') > 2:
                continue
            for last in OPS:
                yield pre + (last,)
    for a, b in itertools.product(('execute', 'control', 'step'), ('reverse', 'refine2')):
        yield a, b, 'execute'


def run_program(k, pbu, spec, seq, out=None):
    cmd = build(k, spec)
    m0 = model(spec)
    made = [(cmd, m0)]
    m = m0
    for op in seq:
        new, m2, bad = apply(k, pbu, cmd, m, op)
        if bad:
            return bad
        if out is not None:
            out.count('transitions')
        for c, mm in made:               # nothing made earlier has changed
            if read(k, c) != mm:
                return '%s changed an earlier command from %s to %s' % (op, mm, read(k, c))
        cmd, m = new, m2
        made.append((cmd, m))
    return None


def run_task(t, out):
    k = loader.tamp_module('kuka_carry', 'kuka_primitives')
    pbu = world()
    S = segments()
    few = [S[0], S[1], S[3], S[8], S[10], S[13]]
    seqs = list(sequences(t['depth']))
    short = [s for s in seqs if len(s) <= 2]
    rest = [()] + [r for n in range(1, t['length']) for r in itertools.product(S, repeat=n)] if not t['fourth'] else \
        list(itertools.product(S, few, few))
    for r in rest:
        spec = (S[t['first']],) + tuple(r)
        out.count('states')
        for seq in (seqs if len(spec) <= 3 or t['fourth'] else short):
            bad = run_program(k, pbu, spec, seq, out)
            out.count('traces')
            if bad:
                out.violate(seq[-1], 'command %s, operations %s: %s' % (spec, seq, bad), dict(spec=spec, seq=seq))
                if out.stop:
                    return
    if t['first'] == 0:
        got = build(k, ())
        for seq in seqs:
            bad = run_program(k, pbu, (), seq, out)
            out.count('traces')
            if bad:
                out.violate(seq[-1], 'empty command, operations %s: %s' % (seq, bad), dict(spec=(), seq=seq))
    out.sample(dict(spec=spec, operations=seq, reversed=m_reverse(model(spec))))


def replay(rec):
    def tup(x):
        return tuple(tup(v) for v in x) if isinstance(x, list) else x
    k = loader.tamp_module('kuka_carry', 'kuka_primitives')
    bad = run_program(k, world(), tup(rec['spec']), tup(rec['seq']))
    return [bad] if bad else []
