
import re, sys
s = re.sub(r';[^\n]*', '', open('exps/tamp_environment/kuka_carry/domain.pddl').read())
def parse(t):
    def go():
        o = []
        while t:
            x = t.pop(0)
            if x == '(': o.append(go())
            elif x == ')': return o
            else: o.append(x.lower())
        return o
    return go()[0]
d = parse(re.findall(r'[()]|[^\s()]+', s))
acts = {a[1]: dict(zip(a[2::2], a[3::2])) for a in d if a[0] == ':action'}
def applicable(name, args, state):
    a = acts[name]; sub = dict(zip(a[':parameters'], args))
    pre = a[':precondition']; pre = pre[1:] if pre[0] == 'and' else [pre]
    return all(tuple(sub.get(x, x) for x in p) in state for p in pre)
state = {('freemotion', 'q1', 't', 'q2'), ('atconf', 'q1'), ('canmove',), ('atgrasp', 'o', 'g')}
pars = acts['move_free'][':parameters']
m = {'?q1': 'q1', '?q2': 'q2', '?t': 't'}
if applicable('move_free', [m[p] for p in pars], state):
    print('move_free is possible while holding'); sys.exit(1)
