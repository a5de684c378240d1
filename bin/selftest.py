#!/usr/bin/env python3
"""Shows that the recorded fields are bound to the specification: records one
segment of each kind of call from the real code, sees it accepted, then
corrupts every field of what came back, one at a time, and sees each corrupted
trace rejected.  Fields which are not rejected are listed.

usage: selftest.py [kinds...]"""
import concurrent.futures, copy, subprocess, sys
from lib import *

ALL = 'CONSTANT Active = {%s}\n' % ', '.join('"C%02d"' % i for i in range(1, 27))
OFF = {'ev': 'config', 'on': False, 'tab': [[1994, False], [1997, True]]}
U = {'t': 'u', 'd': [2015, 7, 30, 0, 0, 0], 'cal': 1, 'st': 2, 'ph': 'full', 'ev': 'asalha', 'sn': 10, 'tot': 10, 'ud': 15, 'md': 30,
     'mon': 13, 'sea': 2, 'ly': 2558, 'av': True, 'src': 'a', 'com': 'b'}
E = {'t': 'e', 'd': [2015, 7, 31, 0, 0, 0], 'cal': 2, 'sum': 'S', 'desc': 'D'}
CHAIN = [{'ev': 'chain', 'ce': 2015, 'u': {'t': 'u', 'd': [2014, 11, 6, 0, 0, 0], 'cal': 0, 'st': 0, 'ph': 'full', 'ev': '', 'sn': 8, 'tot': 8, 'ud': 15,
          'md': 29, 'mon': 12, 'sea': 3, 'ly': 2557, 'av': False, 'src': '', 'com': ''}}, {'ev': 'next'}]
SEGS = {
    'defaults': [{'ev': 'defaults'}],
    'year': [OFF, {'ev': 'year', 'ce': 1963, 'g': 'emvlkadpt'}],
    'far year': [OFF, {'ev': 'year', 'ce': 100000, 'g': 'wmvl'}],
    'day': [{'ev': 'day', 'ce': 1963, 'day': 103}],
    'date': [{'ev': 'date', 'h': 484049}],
    'dates': [{'ev': 'dates', 'h': 484000, 'to': 490000}],
    'ral': [{'ev': 'ral', 'n': 12345, 'den': 64}],
    'keep': [{'ev': 'keep', 'n': 12345, 'den': 1000}],
    'deg': [{'ev': 'deg', 'x': 3, 'y': 4, 'z': 5}],
    'norm': [{'ev': 'norm', 'n': -12345}],
    'label': [{'ev': 'label', 'kind': 'month', 'name': 'citta'}],
    'season name': [{'ev': 'label', 'kind': 'seasonname', 'num': 3}],
    'next': [OFF] + CHAIN,
    'solar': [OFF, {'ev': 'solar', 'ce': 2015}],
    'caldays': [OFF, {'ev': 'caldays', 'from': [2015, 7, 15, 0, 0, 0], 'to': [2015, 8, 2, 0, 0, 0]}],
    'astro': [{'ev': 'astro', 'from': [2015, 7, 15, 0, 0, 0], 'to': [2015, 8, 2, 0, 0, 0]}],
    'a file of data': [{'ev': 'aeris', 'ce': 2015}],
    'many years at once': [{'ev': 'parts', 'lo': 2014, 'hi': 2016}],
    'newday': [{'ev': 'newday'}],
    'add': [{'ev': 'newday'}, {'ev': 'add', 'it': E}, {'ev': 'add', 'it': U}],
    'several days': [{'ev': 'newday', 'n': 3}, {'ev': 'add', 'it': U, 'k': 1}, {'ev': 'add', 'it': E, 'k': 2}, {'ev': 'set', 'it': U, 'k': 0}],
    'set': [{'ev': 'newday'}, {'ev': 'set', 'it': U}],
    'addhalf': [{'ev': 'addhalf', 'cap': 0, 'days': [{'d': U['d'], 'u': [U], 'h': [], 'a': [], 'm': [], 'e': [E]}]}],
    'half moons of a part': [{'ev': 'addhalf', 'cap': 0, 'days': [{'d': U['d'], 'u': [U], 'h': [], 'a': [], 'm': [], 'e': []}],
                             'rest': [{'d': U['d'], 'u': [], 'h': [], 'a': [], 'm': [], 'e': [E]}]}],
    'sorted days': [{'ev': 'sortdays', 'days': [{'d': E['d'], 'u': [], 'h': [], 'a': [], 'm': [], 'e': [E]}, {'d': U['d'], 'u': [], 'h': [], 'a': [], 'm': [], 'e': []}]}],
    'text': [{'ev': 'text', 'it': U}],
    'event text': [{'ev': 'text', 'it': E}],
    'text in a zone': [{'ev': 'text', 'it': dict(U, d=[2015, 7, 30, 0, 0, 25200]), 'loc': 'Asia/Bangkok'}],
    'half moons in a zone': [{'ev': 'addhalf', 'cap': 3, 'loc': 'America/New_York', 'days': [{'d': U['d'], 'u': [U], 'h': [], 'a': [], 'm': [], 'e': []}]}],
    'days': [{'ev': 'days', 'part': 'n', 'ce': 1963, 'from': 102, 'to': 104}],
    'positions': [{'ev': 'days', 'part': 'p', 'ce': 1963, 'from': 102, 'to': 104}],
    'ral beside': [{'ev': 'ral', 'n': 320, 'den': 64, 'beside': -1}],
}


def leaves(x, at=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        if x and at and at[-1] not in ('d', 'date', 'start', 'end', 'off', 'tab'):
            yield at, 'drop'
            if 'keys' not in at and 'v' not in at[-2:-1]:     # the names in an object are never doubled
                yield at, 'double'
        for i in range(min(len(x), 14)):
            yield from leaves(x[i], at + (i,))
    else:
        yield at, 'change'


def mutate(line, at, how):
    x = copy.deepcopy(line)
    p = x['r']
    for k in at[:-1]:
        p = p[k]
    v = p[at[-1]]
    if how == 'drop':
        p[at[-1]] = v[:-1]
    elif how == 'double':
        p[at[-1]] = v + v[-1:]
    elif isinstance(v, bool):
        p[at[-1]] = not v
    elif isinstance(v, (int, float)):
        p[at[-1]] = v + (700 if 'off' in at or len(at) == 3 and at[0] == 'v' and at[2] > 4 else 7)
    else:
        p[at[-1]] = v + 'x'
    return x


def main():
    c = Ctx('selftest')
    try:
        c.build('full')
        jobs = []
        for name, ops in SEGS.items():
            if len(sys.argv) > 1 and name not in sys.argv[1:]:
                continue
            rec = c.record(ops, 'full')
            lines = [json.loads(x) for x in open(rec['trace'])]
            jobs.append((name, lines, None, 'none'))
            for at, how in leaves(lines[-1]['r']):
                jobs.append((name, lines, at, how))

        # what the programs did
        if len(sys.argv) == 1 or 'programs' in sys.argv[1:]:
            dump = c.path('dump')
            for p in ('C24', 'C25'):
                subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py'), p],
                               env=dict(os.environ, VERIF_DUMP=dump), stdout=subprocess.DEVNULL)
            best = {}
            for x in sorted(map(json.loads, open(dump)), key=lambda x: len(json.dumps(x))):
                if x['ev'] == 'clidays' and not any(d['a'] and d['u'] for y in x['r']['years'] for d in y['days']) or \
                   x['ev'] == 'cliical' and len(x['r']['events']) < 4:
                    continue
                best.setdefault(x['ev'], x)
            for ev, x in sorted(best.items()):
                jobs.append((ev, [x], None, 'none'))
                for at, how in leaves(x['r']):
                    jobs.append((ev, [x], at, how))

        def one(j):
            name, lines, at, how = j
            tr = os.path.join(c.sub('m'), 'trace')
            ls = lines if at is None else lines[:-1] + [mutate(lines[-1], at, how)]
            with open(tr, 'w') as f:
                f.writelines(json.dumps(x) + '\n' for x in ls)
            return c.validate(tr, consts=ALL) is not None
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(one, jobs))
        bad = 0
        for (name, lines, at, how), rejected in zip(jobs, res):
            if at is None and rejected:
                print('the uncorrupted trace was rejected:', name)
                bad += 1
            if at is not None and not rejected:
                print('not rejected: %s of %s in %s' % (how, '.'.join(map(str, at)), name))
                bad += 1
        print('%d corruptions of %d kinds of call; %d not noticed' % (sum(1 for j in jobs if j[2] is not None),
                                                                     sum(1 for j in jobs if j[2] is None), bad))
        return 1 if bad else 0
    finally:
        c.cleanup()


sys.exit(main())
