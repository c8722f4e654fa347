
import re, sys
s = re.sub(r';[^\n]*', '', open('exps/tamp_environment/turtlebot_move/domain.pddl').read())
t = re.findall(r'[()]|[^\s()]+', s)
def go():
    o = []
    while t:
        x = t.pop(0)
        if x == '(': o.append(go())
        elif x == ')': return o
        else: o.append(x.lower())
    return o
d = go()[0]
a = [a for a in d if a[0] == ':action' and a[1] == 'place'][0]
e = dict(zip(a[2::2], a[3::2]))[':effect'][1:]
sub = dict(zip(dict(zip(a[2::2], a[3::2]))[':parameters'], ['v', 'qa', 'tr', 'qb', 'po', 'ob']))
g = lambda l: tuple(sub.get(x, x) for x in l)
state = {('atconf', 'v', 'qa'), ('holding', 'ob')}
state -= {g(x[1]) for x in e if x[0] == 'not'}
state |= {g(x) for x in e if x[0] != 'not'}
n = [x for x in state if x[0] == 'atconf']
print(n)
sys.exit(0 if len(n) == 1 else 1)
