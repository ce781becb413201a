import json, sys
n, e = (json.load(open(x)) for x in sys.argv[1:3])
bad = 0; runs = execs = 0
def say(name, s):
    global bad
    bad += 1; print(f'{name}: {s}')
for name, a in e.items():
    execs += a['Execs']
    if a['Race']:
        if not a['Raced'] and 'race' not in a['Fail'] and 'unsynchronized' not in a['Fail']: say(name, f'race not reported ({a["Fail"]})')
        continue
    if a['Fail']: say(name, 'explorer: ' + a['Fail']); continue
    if a['Raced']: say(name, f'race reported: {a["Raced"]}')
    if not a['Complete']: say(name, 'not explored completely')
    want = set(a['Want']); got = set(a['Outcomes'])
    if got - want: say(name, f'explored, not allowed: {sorted(got-want)}')
    if want - got: say(name, f'allowed, not explored: {sorted(want-got)}')
    nat = set(n[name]); runs += sum(n[name].values())
    if nat - want: say(name, f'seen natively, not allowed: {sorted(nat-want)}')
print(f'{len(e)} programs, {runs} native runs, {execs} explored executions, {bad} differences')
sys.exit(bad > 0)
