#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1, with a VIOLATION line: broken.
Exit 2: the check could not be carried out."""
import concurrent.futures, sys, traceback
from lib import *

STD = [[1994, False], [1997, True]]
CFG_OFF = {'ev': 'config', 'on': False, 'tab': STD}
CFG_ON = {'ev': 'config', 'on': True, 'tab': STD}
HI = 4000


# --------------------------------------------------------------------------
# models of the specification that go with the properties
def inv(*names):
    return 'INVARIANTS ' + ' '.join(names) + '\n'


def m_era(c, last=None):
    last = last or (5500 if c.thorough else 4005)
    c.model('MC_Era: years 638..%d' % last, 'MC_Era',
            'SPECIFICATION Spec\nCONSTANTS LastYear=%d\n' % last
            + inv('ClosedForm', 'CyclicForm', 'FarForm', 'Ranges', 'Century8', 'GapM', 'GapV', 'Exclusive', 'SinceOK',
                  'KattikaWalk', 'KattikaInSeason', 'CycleWalk', 'Deferral', 'NewYear') + 'CHECK_DEADLOCK FALSE\n')


def m_erafar(c):
    ys = sorted({c.rng.randrange(5000, 2000000000 - 5000) for _ in range(12)} | {7986, 999999600, 1999990000})
    n = 3000 if c.thorough else 300
    c.model('MC_EraFar: %d years from each of %d far years' % (n, len(ys)), 'MC_EraFar',
            'SPECIFICATION Spec\nCONSTANTS Starts={%s} Steps=%d\n' % (', '.join(map(str, ys)), n)
            + inv('Ranges', 'CyclicForm') + 'PROPERTIES Tick\nCHECK_DEADLOCK FALSE\n')


def m_cycle(c):
    """Every state of the era's clock (thorough), or a slice chosen by the seed."""
    def part(lo, hi):
        c.model('MC_Cycle: kammacubala %d..%d' % (lo, hi), 'MC_Cycle',
                'SPECIFICATION Spec\nCONSTANTS KLo=%d KHi=%d\n' % (lo, hi)
                + inv('Inverse', 'MonthGap', 'MonthWithin', 'Exclusive', 'DayWithin', 'Deferral')
                + 'CHECK_DEADLOCK FALSE\n', workers=1)
    if not c.thorough:
        k = (c.seed * 37) % 800 + 1
        part(k, min(800, k + 1))
        return
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda i: part(10 * i + 1, 10 * i + 10), range(80)))


def m_sync(c, on=None):
    for o in ([on] if on is not None else [False, True]):
        c.model('MC_Sync: lunar years 640..4000, exceptions %s' % ('on' if o else 'off'), 'MC_Sync',
                'SPECIFICATION Spec\nCONSTANTS FirstYear=640 LastYear=4000 ExOn=%s\n' % str(o).upper()
                + inv('InStep', 'NearMoon', 'AsalhaAgrees', 'KattikaAgrees', 'AsalhaAge', 'ByCivilDate', 'ObservancesInYear')
                + 'CHECK_DEADLOCK FALSE\n')


def m_upo(c):
    c.model('MC_Uposatha: all year kinds', 'MC_Uposatha',
            'SPECIFICATION Spec\n' + inv('Shape', 'EndOfYear', 'Numbers', 'AsalhaDay')
            + 'PROPERTIES Alternate YearsGoOn\nCHECK_DEADLOCK TRUE\n')


def m_program(c):
    c.model('Program: one run, every combination of what it is given', 'Program',
            'SPECIFICATION PSpec\n' + inv('TypeOK', 'EndsSo', 'OldIsSafe', 'OnePlace', 'NothingOnFailure')
            + 'PROPERTIES Ends\nCHECK_DEADLOCK TRUE\n')


def m_calendar(c):
    spans = [(1300 + 340 * i, min(4000, 1639 + 340 * i)) for i in range(8)] if c.thorough else None
    if spans is None:
        y = 1300 + (c.seed * 211) % 2600
        spans = [(y, y + 99)]
    def part(s):
        c.model('MC_Calendar: years %d..%d' % s, 'MC_Calendar',
                'SPECIFICATION Spec\nCONSTANTS FirstYear=%d LastYear=%d ExOn=%s Cut=%d\n'
                % (s[0], s[1], 'TRUE' if c.seed % 2 else 'FALSE', c.seed % 365)
                + inv('OnceAYear', 'AtFullMoons', 'Distances', 'Sparse', 'Halves', 'SumOfParts', 'LunarYears')
                + 'CHECK_DEADLOCK FALSE\n')
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(part, spans))


def m_civil(c):
    c.model('MC_Civil: 400 years of days', 'MC_Civil',
            'SPECIFICATION Spec\nCONSTANTS Span=%d StartYear=%d\n' % (1300000 if c.thorough else 146100, 638)
            + inv('Agree') + 'CHECK_DEADLOCK FALSE\n')


def m_dayclock(c):
    c.model('MC_DayClock: days of the era', 'MC_DayClock',
            'SPECIFICATION Spec\nCONSTANTS Days=%d\n' % (1230000 if c.thorough else 60000)
            + inv('ClosedForm', 'Ratio') + 'CHECK_DEADLOCK FALSE\n', heap='4g')


def m_ephem(c):
    lo = 639 + (c.seed * 97) % 3200
    n = 200 if c.thorough else 12
    c.model('MC_Ephemeris: years %d..%d' % (lo, lo + n - 1), 'MC_Ephemeris',
            'SPECIFICATION Spec\nCONSTANTS FirstYear=%d LastYear=%d LastDay=400\n' % (lo, lo + n - 1)
            + inv('SunSteps', 'SunNear', 'Narrow', 'MoonIn', 'MoonNear', 'RaekIn') + 'CHECK_DEADLOCK FALSE\n')


def m_angles(c):
    c.model('MC_Angles: each 64th of a degree', 'MC_Angles',
            'SPECIFICATION Spec\nCONSTANTS Turns=%d\n' % (20 if c.thorough else 2)
            + inv('Back', 'Parts', 'OneTurn', 'Idempotent') + 'CHECK_DEADLOCK FALSE\n')


def m_embed(c):
    cfg = open(os.path.join(SPEC, 'MC_Embed.cfg')).read()
    c.model('Embed: 3 readers', 'Embed', cfg)
    if c.thorough:
        c.model('Embed: 4 readers', 'Embed', cfg.replace('{r1, r2, r3}', '{r1, r2, r3, r4}'))


def m_handles(c):
    c.model('Handles: 3 readers, 12 reads', 'Handles', 'SPECIFICATION Spec\nCONSTANTS Readers={1,2,3} Limit=3 MaxReads=12 Leaks=FALSE\n'
            + inv('Succeeds', 'GivenBack') + 'CHECK_DEADLOCK FALSE\n')


def m_disk(c):
    c.model('Disk: 2 files, 2 directories', 'Disk', 'SPECIFICATION Spec\nCONSTANTS Dirs={1,2} Files={1,2} MaxSteps=%d Remembers=FALSE\n' % (8 if c.thorough else 6)
            + inv('Current') + 'CHECK_DEADLOCK FALSE\n')


def m_session(c):
    d = 8 if c.thorough else 5
    c.model('Session: 3 calls, 2 configurations, %d steps' % d, 'Session',
            'SPECIFICATION Spec\nCONSTANTS NKeys=3 NConfigs=2 Depth=%d KeyedByConfig=TRUE Emit=FALSE\n' % d
            + inv('Functional') + 'CHECK_DEADLOCK FALSE\n')


# --------------------------------------------------------------------------
# workloads
def year_segs(lo, hi, g, cfg=CFG_OFF, size=120):
    return [[cfg] + [{'ev': 'year', 'ce': y, 'g': g, 'dirty': max(0, y % 11 - 3)} for y in range(a, min(a + size, hi + 1))]
            for a in range(lo, hi + 1, size)]


def far_segs(c, g, n):
    ys = [c.rng.randrange(5200, 2000000000) for _ in range(n // 2)] + [c.rng.randrange(5200, 60000) for _ in range(n // 2)]
    return [[CFG_OFF] + [{'ev': 'year', 'ce': y, 'g': g} for y in ys[i::8]] for i in range(8)]


def is_month(y):
    """Only to choose tables of exceptions (which are for other years)."""
    def wm(y):
        h = ((y - 638) * 292207 + 373) // 800 + 1
        t = (h + (11 * h + 650) // 692) % 30
        return t >= 24 or t <= 5
    return wm(y) and not wm(y + 1)


def table(c, lo=1400, hi=3900, n=None, span=None):
    n = n or c.rng.randrange(1, 4)
    base = c.rng.randrange(lo, hi)
    out = {}
    while len(out) < n:
        y = c.rng.randrange(lo, hi) if span is None else base + c.rng.randrange(span)
        if not is_month(y):
            out[y] = c.rng.random() < 0.6
    # in any order: it is a table of years, not a list of them
    ys = sorted(out)
    c.rng.shuffle(ys)
    return [[y, out[y]] for y in ys]


def solar_all(c, cfg=CFG_OFF, lo=1300, hi=HI, step=1):
    ys = list(range(lo, hi + 1, step))
    return [[cfg] + [{'ev': 'solar', 'ce': y} for y in ys[i::24]] for i in range(24) if ys[i::24]]


def exceptional(c, n, op):
    """Tables of exceptions other than the one the library starts with, and
    calls in the years about those which they name, and between them and 2016."""
    segs = []
    for i in range(n * (5 if c.thorough else 1)):
        # (so few, and so far from the ends, that Kattika stays within its months)
        tab = table(c, *([(1520, 3640), (1960, 2070)][i % 2]), span=c.rng.choice([None, 9, 60]))
        if i % 10 == 6:
            tab = table(c, 1700, 2600, 12)
        ys = {q for y, _ in tab for q in range(y - 2, y + 3)} | {2014, 2015, 2016, 2017}
        ys |= {c.rng.randrange(*sorted((y, 2016 if y != 2016 else 2017))) for y, _ in tab}
        segs.append([{'ev': 'config', 'on': True, 'tab': tab, 'replace': c.rng.random() < .5}] + [op(y) for y in c.rng.sample(sorted(ys), min(len(ys), 12))]
                    + [CFG_OFF] + [op(tab[0][0] + 1)])
    return segs


def solar_work(c):
    s = solar_all(c) + solar_all(c, CFG_ON, 1960, 2060) + exceptional(c, 40, lambda y: {'ev': 'solar', 'ce': y})
    if c.thorough:
        s += solar_all(c, CFG_ON)
    return s


def generated_chains(c, years, n, on=False):
    """Behaviours of the uposatha succession, generated by TLC (Gen.tla)."""
    d = c.sub('gen')
    pf, of = os.path.join(d, 'params.json'), os.path.join(d, 'out.json')
    json.dump({'years': years, 'seed': c.seed % 1000, 'n': n, 'on': on}, open(pf, 'w'))
    rc, o, gen, dist = c.tlc('Gen', '', env={'PARAMS': pf, 'OUT': of}, extra=())
    if not os.path.exists(of):
        raise Broken('Gen.tla:\n' + o[-2000:])
    g = json.load(open(of))
    segs = []
    for s in g['triples'] + g['years']:
        steps = s[1].pop('steps')
        if c.rng.random() < .5:       # what it was marked with does not matter
            s[1]['u'].update(cal=c.rng.randrange(4), st=c.rng.randrange(3), src=c.rng.choice(TEXTS), com=c.rng.choice(TEXTS))
        segs.append(s + [{'ev': 'next'}] * steps)
    c.notes['generated_behaviours'] = c.notes.get('generated_behaviours', 0) + len(segs)
    c.notes['year_kind_triples_replayed'] = len(g['triples'])
    return segs


def chain_work(c):
    ys = [c.rng.randrange(1300, 3980) for _ in range(150 if not c.thorough else 900)] + [1300, 1990, 3990]
    if c.prop in ('C07', 'C08'):     # from any Kattika on (where dates decide, from 1300)
        ys += [640] + [c.rng.randrange(641, 1300) for _ in range(80 if not c.thorough else 500)]
    return generated_chains(c, ys, 8) + generated_chains(c, [1970, 1985, 1991], 12, True)


def rinst(c, lo=1300, hi=HI, near=None):
    y = c.rng.randrange(lo, hi + 1) if near is None else min(hi, max(lo, near + c.rng.randrange(-2, 3)))
    m, d = c.rng.randrange(1, 13), c.rng.randrange(1, 29)
    k = c.rng.random()
    if k < .25:
        m, d = c.rng.choice([(1, 1), (12, 31), (1, 2), (12, 30), (2, 28), (3, 1)])
    s = c.rng.choice([0, 0, 0, 1, 86399, c.rng.randrange(86400)])
    ns = c.rng.choice([0, 0, 0, 1, 999999999])
    z = c.rng.choice([0, 0, 0, 25200, -18000, 50400, -43200, 60 * c.rng.randrange(-830, 830)])
    return [y, m, d, s, ns, z]


def plus(i, days, secs=0):
    y, m, d, s, ns, z = i
    t = datetime.datetime(y, m, d) + datetime.timedelta(days=days, seconds=s + secs)
    return [t.year, t.month, t.day, t.hour * 3600 + t.minute * 60 + t.second, ns, z]


def beside(c, i, p=.3):
    """The instant, or one less than a second before or after it."""
    if c.rng.random() > p:
        return i
    ns = i[4] + c.rng.choice([-1, 1, -999999999, 999999999, -500000000, 500000000])
    return plus(i, 0, ns // 10**9)[:4] + [ns % 10**9, i[5]]


def ranges(c, n, lo=1300, hi=HI, maxdays=900):
    out = []
    for i in range(n):
        f = rinst(c, max(lo, 1890), min(hi, 2050)) if i % 2 and lo < 2050 and hi > 1890 else rinst(c, lo + 1, hi - 4)
        k = c.rng.random()
        if k < .08:
            t = plus(f, -c.rng.randrange(0, 400), -c.rng.randrange(2))
        elif k < .5:
            t = plus(f, c.rng.randrange(0, 70), c.rng.randrange(86400))
        else:
            t = plus(f, c.rng.randrange(0, maxdays), c.rng.choice([0, c.rng.randrange(86400)]))
        if c.rng.random() < .3:
            t[5] = c.rng.choice([0, -18000, 25200, 49980])
        out.append((f, t))
    return out


def single_days(c, n):
    """Ranges of one instant or one day, day after day."""
    out = []
    y, m = c.rng.randrange(1300, HI), c.rng.randrange(1, 13)
    d = [y, m, 1, 0, 0, 0]
    for i in range(n):
        x = plus(d, i)
        out.append((x, x))
        out.append((plus(x, 0, 1), plus(x, 0, 86399)))
        out.append((plus(x, 0, 1), plus(x, 1)))
        out.append((beside(c, x, 1), beside(c, x, 1)))
    return out


def range_segs(pairs, ev):
    def op(i, f, t):
        o = {'ev': ev, 'from': f, 'to': t}
        if i % 5 == 0:
            o['loc'] = ['Asia/Bangkok', 'America/New_York', 'Pacific/Chatham', 'Europe/London'][i // 5 % 4]
        return o
    ops = [op(i, f, t) for i, (f, t) in enumerate(pairs)]
    return [[CFG_OFF] + ops[i::16] for i in range(16) if ops[i::16]]


PHASES = ['new', 'full', 'waxing', 'waning', '']
TEXTS = ['', 'K{101}thina', 'A note, with: marks; {e9}{12b}', 'Uposatha', 'x' * 70, ' %d%% of %s ', '"q" \\ <b> & /{a}{9}two lines{a}{2028}{7b}0{7d}', 'no spaces,' * 40]


def ritem(c, kind, dates=None):
    d = c.rng.choice(dates) if dates else rinst(c, 600, 4000)
    r = c.rng
    if kind == 'u':
        return {'t': 'u', 'd': d, 'cal': r.randrange(4), 'st': r.randrange(3), 'ph': r.choice(PHASES), 'ev': r.choice(['', 'magha', 'asalha']),
                'sn': r.randrange(11), 'tot': r.choice([8, 10]), 'ud': r.choice([14, 15]), 'md': r.choice([29, 30]),
                'mon': r.randrange(1, 14), 'sea': r.randrange(0, 4), 'ly': 543 + d[0], 'av': r.random() < .3,
                'src': r.choice(TEXTS), 'com': r.choice(TEXTS)}
    if kind in 'ha':
        return {'t': kind, 'd': d, 'ph': r.choice(PHASES)}
    return {'t': kind, 'd': d, 'cal': r.randrange(4), 'sum': r.choice(TEXTS), 'desc': r.choice(TEXTS)}


def emitted(c, module, cfg, extra=()):
    rc, o, gen, dist = c.tlc(module, cfg, extra=extra)
    out = []
    for m in re.finditer(r'^"@(.*)"$', o, re.M):
        out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if not out:
        raise Broken('no behaviours from %s:\n%s' % (module, o[-2000:]))
    return out, gen, dist


# --------------------------------------------------------------------------
def C01(c):
    c.build('core')
    segs = year_segs(640, 5000, 'emvladpt') + year_segs(638, 639, 'empt') + year_segs(5001, 60000 if c.thorough else 9000, 'w') + far_segs(c, 'w', 40000 if c.thorough else 1500)
    return dict(models=[m_era, m_erafar, m_civil], segs=segs, bin='core')


def C02(c):
    c.build('core')
    return dict(models=[m_era, m_cycle], segs=year_segs(638, 60000 if c.thorough else 10000, 'm') + far_segs(c, 'm', 40000 if c.thorough else 1500), bin='core')


def C03(c):
    c.build('core')
    segs = year_segs(639, 60000 if c.thorough else 10000, 'v') + year_segs(1950, 2050, 'v', CFG_ON)
    for _ in range(200 if c.thorough else 40):
        t = table(c, 700, 3900, 5, span=12)
        y = min(q for q, _ in t)
        segs += year_segs(y - 6, y + 18, 'v', {'ev': 'config', 'on': True, 'tab': t})
    segs += far_segs(c, 'v', 40000 if c.thorough else 1500)
    return dict(models=[m_era, m_cycle], segs=segs, bin='core')


def C04(c):
    c.build('core')
    segs = []
    for i in range(600 if c.thorough else 150):
        tab = [STD, table(c), table(c, 700, 3900, 6), table(c, span=12)][i % 4]
        if i == 7:
            y = c.rng.randrange(720, 3900)
            tab = [[q, i % 2 == 0] for q in range(y, y + 20) if not is_month(q)]
        if i % 30 == 11:               # many
            tab = table(c, 700, 3900, c.rng.choice([17, 40, 130]))
        y = c.rng.choice(tab)[0]
        lo, hi = max(641, y - 12), min(HI, y + 12)
        cfg = {'ev': 'config', 'on': i % 5 != 4, 'tab': tab, 'replace': i % 2 == 0}
        s = [cfg] + [{'ev': 'year', 'ce': q, 'g': 'vlka'} for q in range(lo, hi)]
        # the anchor's neighbourhood, and the ends
        s += [{'ev': 'year', 'ce': q, 'g': 'vlka'} for q in (1993, 1994, 1995, 1997, 1998, 2015, 2016, 2017, 700, 3999)]
        # off, and on again
        s += [dict(cfg, on=False)] + [{'ev': 'year', 'ce': t[0] + k, 'g': 'vlka'} for t in tab for k in (0, 1)]
        s += [dict(cfg, on=True)] + [{'ev': 'year', 'ce': t[0] + k, 'g': 'vlka'} for t in tab for k in (0, 1)]
        # one entry more, one the other way, one less
        new = next(q for q in range(tab[0][0] + 2, 4000) if not is_month(q) and q not in [t[0] for t in tab])
        more = tab + [[new, True]]
        flip = [[tab[0][0], not tab[0][1]]] + tab[1:]
        for k, t2 in enumerate([more, tab, flip, tab[1:], tab]):
            s += [dict(cfg, on=True, tab=t2, replace=(i + k) % 3 == 0)]
            s += [{'ev': 'year', 'ce': q, 'g': 'vlka'} for q in (tab[0][0], tab[0][0] + 1, new)]
        # a table without entries: emptied, a new one, or none at all
        for rep in (False, True) if i % 3 == 0 else (i % 2 == 0,):
            s += [dict(cfg, on=True, tab=[], replace=rep)] + [{'ev': 'year', 'ce': q, 'g': 'vlka'} for q in (1994, 1995, 1997, tab[0][0], tab[0][0] + 1)]
        segs.append(s)
    segs += year_segs(1900, 2100, 'vlka', CFG_ON, 50)
    # what the library starts with, in processes of their own
    first = [{'ev': 'defaults'}] + [{'ev': 'year', 'ce': q, 'g': 'vlka'} for q in range(1980, 2030)]
    return dict(models=[m_era, lambda c: m_sync(c, True)], segs=segs, alone=[first], bin='core')


def C05(c):
    c.build('core')
    segs = year_segs(639, HI, 'lk')
    segs += year_segs(1900, 2100, 'lk', CFG_ON)
    for i in range(150 if c.thorough else 30):
        t = table(c, 700, 3900, c.rng.choice([20, 90]) if i % 10 == 4 else None)
        y = t[0][0]
        segs += year_segs(max(640, y - 30), min(HI, y + 30), 'lk', {'ev': 'config', 'on': True, 'tab': t})
    if c.thorough:
        segs += year_segs(639, HI, 'lk', CFG_ON)
    segs += far_segs(c, 'l', 20000 if c.thorough else 2000)
    return dict(models=[m_era, lambda c: m_sync(c, False)], segs=segs, bin='core')


def C06(c):
    c.build('full')
    segs = year_segs(639, HI, 'a') + year_segs(1900, 2100, 'a', CFG_ON)
    return dict(models=[m_sync], segs=segs + solar_work(c) + chain_work(c), bin='full')


def upo_work(c):
    c.build('full')
    return dict(models=[m_upo, m_sync], segs=solar_work(c) + chain_work(c), bin='full')


C07 = C08 = upo_work


def C09(c):
    c.build('full')
    return dict(models=[m_upo, m_calendar], segs=solar_work(c) + chain_work(c), bin='full')


def C10(c):
    c.build('full')
    segs = solar_work(c)
    edges = [[2015, 12, 24, 0, 0, 0], [2016, 2, 21, 0, 0, 0], [2015, 2, 20, 0, 0, 0], [1900, 2, 21, 0, 0, 0], [2016, 3, 26, 3600, 0, 3600],
             [2000, 2, 28, 86399, 5, -3600], [1999, 12, 31, 1, 0, 0]]
    for i in range(20000 if c.thorough else 3000):
        days = []
        # every third list in a zone with rules, about the times it changes its clocks
        loc = ['America/New_York', 'Europe/London', 'Pacific/Chatham', 'Asia/Bangkok'][i // 3 % 4] if i % 3 == 0 else None
        for _ in range(c.rng.randrange(0, 6) if i % 100 != 7 else c.rng.randrange(17, 80)):
            d = c.rng.choice(edges + [rinst(c, 700, 4000)])
            if loc and c.rng.random() < .8:
                m, a, b = c.rng.choice([(3, 2, 31), (4, 1, 5), (9, 20, 30), (10, 1, 31), (11, 1, 5), (4, 20, 30)])
                d = [c.rng.randrange(1970, 2030), m, c.rng.randrange(a, b + 1), c.rng.randrange(5 * 3600, 23 * 3600), c.rng.choice([0, 5]), 0]
            elif loc:
                d = d[:3] + [43200, 0, 0]
            day = {'d': d, 'u': [], 'h': [], 'a': [], 'm': [], 'e': []}
            if c.rng.random() < .75:
                day['u'] = [dict(ritem(c, 'u'), d=d if c.rng.random() < .8 else rinst(c, 700, 4000)[:3] + [43200, 0, 0])]
                if c.rng.random() < .25:
                    # not quite the name of a phase
                    day['u'][0]['ph'] = c.rng.choice(['Full', 'FULL', 'New', 'NEW', 'new ', ' new', 'full ', ' full', 'fullmoon', 'new moon', 'ful', 'f', 'n', 'half'])
            for k in 'ha':
                if c.rng.random() < .3:
                    day[k] = [dict(ritem(c, k), **({'d': d} if loc else {}))]
            for k in 'me':
                day[k] = [dict(ritem(c, k), **({'d': d} if loc else {})) for _ in range(c.rng.choice([0, 0, 1, 2]))]
            days.append(day)
        o = {'ev': 'addhalf', 'days': days, 'cap': c.rng.choice([0, 0, 12, 40])}
        if i % 4 == 1:
            n = c.rng.randrange(len(days) + 1)
            o['days'], o['rest'] = days[:n], days[n:]
        segs.append([CFG_OFF, dict(o, loc=loc) if loc else o])
    return dict(models=[m_calendar, m_upo], segs=segs, bin='full')


def C11(c):
    c.build('full')
    return dict(models=[m_calendar, m_upo], segs=solar_work(c), bin='full')


def C12(c):
    c.build('full')
    pairs = ranges(c, 20000 if c.thorough else 2000) + single_days(c, 3000 if c.thorough else 60)
    # long ranges
    for k in range(80 if c.thorough else 2):
        f = rinst(c, 1300, HI - 60) if k % 2 else rinst(c, 1870, 1990)
        pairs.append((f, plus(f, c.rng.randrange(2000, 18000 if c.thorough else 9000))))
    segs = range_segs(pairs, 'caldays')
    # the instants of the moons themselves, as ends of ranges
    W = read_world()['astro']
    seg = [CFG_OFF]
    for _ in range(4000 if c.thorough else 60):
        y = str(c.rng.randrange(1902, 2033))
        if not W.get(y):
            continue
        a, b = sorted(c.rng.sample(W[y], 2))
        f, t = a[:6], b[:6]
        seg.append({'ev': 'caldays', 'from': beside(c, plus(f, 0, c.rng.choice([-1, 0, 0, 1]))), 'to': beside(c, plus(t, 0, c.rng.choice([-1, 0, 0, 1])))})
    segs.append(seg)
    on = ranges(c, 30, 1960, 2030)
    segs.append([CFG_ON] + [{'ev': 'caldays', 'from': f, 'to': t} for f, t in on])

    def some(y):
        f = [y, c.rng.randrange(1, 13), c.rng.randrange(1, 29), c.rng.choice([0, 0, 43200]), 0, c.rng.choice([0, 0, 25200])]
        return {'ev': 'caldays', 'from': f, 'to': plus(f, c.rng.choice([1, 30, 400, 800]))}
    segs += exceptional(c, 40, some)
    # many years at once
    for k in range(24 if c.thorough else 5):
        n = c.rng.choice([90, 110, 130] if not c.thorough else [120, 200, 300])
        y = c.rng.randrange(1300, HI - n) if k % 3 else c.rng.randrange(1905 - n, 2030)
        segs.append([CFG_ON if k % 2 else CFG_OFF, {'ev': 'parts', 'lo': y, 'hi': y + n}])
    segs.append([CFG_OFF, {'ev': 'parts', 'lo': c.rng.randrange(1895, 1903), 'hi': c.rng.randrange(2033, 2040)}])
    # whole calendar years
    ys = list(range(1300, HI + 1))
    whole = [{'ev': 'caldays', 'from': [y, 1, 1, 0, 0, 0], 'to': [y, 12, 31, 0, 0, 0]} for y in ys]
    segs += [[CFG_OFF] + whole[i::16] for i in range(16)]
    # about the turns of the years, from either side, to the second
    turns = []
    for y in ys[1:]:
        f = c.rng.choice([[y - 1, 12, c.rng.randrange(1, 32), c.rng.choice([0, 43200, 86399]), 0, 0], [y - 1, c.rng.randrange(6, 13), 15, c.rng.randrange(86400), 0, 0],
                          [y - 1, 12, 31, 86399, 0, 0], [y, 1, 1, 0, 0, 0]])
        t = c.rng.choice([[y, 1, 1, 0, 0, 0], [y, 1, 1, 1, 0, 0], [y, 1, 1, 43200, 0, 0], [y, 1, c.rng.randrange(1, 32), c.rng.choice([0, 86399]), 0, 0],
                          [y, 1, 1, c.rng.choice([0, 25200]), 0, c.rng.choice([25200, -18000])]])
        turns.append({'ev': 'caldays', 'from': beside(c, f, .15), 'to': beside(c, t, .15)})
    for y in c.rng.sample(ys[1:], 2500 if c.thorough else 60):
        turns.append({'ev': 'caldays', 'from': [y, 1, 1, c.rng.choice([0, 1, 43200]), 0, 0], 'to': [y, 12, 31, c.rng.choice([0, 43200, 86399]), 0, 0]})
        turns.append({'ev': 'caldays', 'from': [y - 1, 12, 31, c.rng.choice([0, 86399]), 0, 0], 'to': [y + 1, 1, 1, c.rng.choice([0, 1]), 0, 0]})
    segs += [[CFG_OFF] + turns[i::16] for i in range(16)]
    # lists of days to be sorted; some at the same instant, or on the same clock in other zones
    for _ in range(8000 if c.thorough else 800):
        ds = [rinst(c, 700, 4000) for _ in range(3)]
        days = []
        for i in range(c.rng.randrange(0, 16) if c.rng.random() < .97 else c.rng.randrange(50, 200)):
            d = c.rng.choice(ds)
            d = plus(d, c.rng.choice([0, 0, 0, 1, -1, 400]), c.rng.choice([0, 0, 1, -1, 3600])) if c.rng.random() < .7 else rinst(c, 700, 4000)
            d[5] = c.rng.choice([d[5], d[5], 0, 25200, -18000])
            d[4] = c.rng.choice([d[4], 0, 1, 999999999])
            days.append({'d': d, 'u': [], 'h': [], 'a': [], 'm': [ritem(c, 'm')], 'e': []})
        segs.append([CFG_OFF, {'ev': 'sortdays', 'days': days}])
    return dict(models=[m_calendar], segs=segs, bin='full')


def C13(c):
    c.build('full')
    got, gen, dist = emitted(c, 'MC_DayEntry', 'SPECIFICATION Spec\nCONSTANTS MaxOps=3 Ids={1,2} Emit=TRUE\nINVARIANT EmitDone\nCHECK_DEADLOCK FALSE\n')
    c.notes['generated_behaviours'] = len(got)
    real = {}
    for k in 'uhame':
        for i in (1, 2):
            real[k, i] = ritem(c, k)
    segs = []
    for seq in got:
        segs.append([{'ev': 'newday'}] + [{'ev': o[0], 'it': real[o[1]['t'], o[1]['id']]} for o in seq])
    for _ in range(3000 if c.thorough else 500):
        dates = [rinst(c, 1, 9000) for _ in range(3)]
        s = [{'ev': 'newday'}]
        for _ in range(c.rng.randrange(4, 25) if c.rng.random() < .98 else 90):
            k = c.rng.choice('uhameu')
            s.append({'ev': c.rng.choice(['add', 'add', 'set']) if k in 'uha' else 'add', 'it': ritem(c, k, dates)})
        segs.append(s)
    for _ in range(3000 if c.thorough else 500):
        dates = [rinst(c, 1, 9000) for _ in range(3)]
        n = c.rng.randrange(2, 5)
        s = [{'ev': 'newday', 'n': n}]
        for _ in range(c.rng.randrange(6, 25)):
            k = c.rng.choice('uhameu')
            s.append({'ev': c.rng.choice(['add', 'add', 'set']) if k in 'uha' else 'add', 'it': ritem(c, k, dates), 'k': c.rng.randrange(n)})
        segs.append(s)
    def md(c):
        n = 5 if c.thorough else 3
        c.model('MC_DayEntry: %d additions' % n, 'MC_DayEntry',
                'SPECIFICATION Spec\nCONSTANTS MaxOps=%d Ids={1,2} Emit=FALSE\n' % n
                + inv('AtMostOne', 'EventsKept', 'LastWins', 'DatedByLastAdd') + 'CHECK_DEADLOCK FALSE\n')
    return dict(models=[md], segs=segs, bin='full')


def C14(c):
    c.build('full')
    W = read_world()['astro']
    pairs = ranges(c, 12000 if c.thorough else 2000, 1895, 2045, 1500)
    for _ in range(10000 if c.thorough else 2000):
        y = str(c.rng.randrange(1902, 2034))
        if not W.get(y):
            continue
        a, b = sorted(c.rng.choices(W[y], k=2))
        z = c.rng.choice([0, 25200, -18000])
        def zone(i):
            return plus(i, 0, z)[:5] + [z]
        pairs.append((beside(c, zone(plus(a[:6], 0, c.rng.choice([-1, 0, 1])))), beside(c, zone(plus(b[:6], 0, c.rng.choice([-1, 0, 1]))))))
    pairs += [([1800, 1, 1, 0, 0, 0], [2100, 1, 1, 0, 0, 0]), ([1899, 12, 31, 0, 0, 0], [1903, 1, 1, 0, 0, 0]),
              ([1969, 6, 1, 0, 0, 0], [1972, 2, 1, 0, 0, 0]), ([2033, 1, 1, 0, 0, 0], [2041, 1, 1, 0, 0, 0]),
              ([1500, 1, 1, 0, 0, 0], [1510, 1, 1, 0, 0, 0]), ([2035, 1, 1, 0, 0, 0], [2035, 12, 31, 0, 0, 0])]
    for y in range(1900, 2041):
        pairs.append(([y, 1, 1, 0, 0, 0], [y, 12, 31, 86399, 999999999, 0]))
    # the two zones of a range's ends put the turn of the year apart
    for y in (1950, 1999, 2016):
        for z in (25200, -25200, 50400, -43200):
            pairs.append(([y, 1, 1, 3600, 0, z], [y, 12, 31, 80000, 0, z]))
    # every phase by itself, and what lies between it and the next
    for y in sorted(W):
        for a, b in zip(W[y], W[y][1:] + [None]):
            i, z = a[:6], c.rng.choice([0, 0, 0, 25200, -18000, 45900])
            k = c.rng.randrange(5)
            f, t = [(i, i), (plus(i, 0, -1), plus(i, 0, -1)), (plus(i, 0, 1), plus(b[:6] if b else i, 0, -1 if b else 300000)),
                    (i, b[:6] if b else i), (i, b[:6] if b else i)][k]
            f, t = plus(f, 0, z)[:5] + [z], plus(t, 0, z)[:5] + [z]
            pairs.append((beside(c, f), beside(c, t)) if k == 4 else (f, beside(c, f)) if k == 0 else (f, t))
    def mq(c):
        m_civil(c)
    return dict(models=[mq], segs=range_segs(pairs, 'astro'), bin='full')


def C16(c):
    c.build('core')
    ref, st = 484049, 290 * 356
    st0 = 13 if c.thorough else 97
    hs = list(range(-200000 + c.seed % st0, 2000001, st0))
    for k in range(-8, 16):
        hs += [ref + k * st + e for e in (-2, -1, 0, 1, 2)]
    hs += [c.rng.randrange(-200000, 2000001) for _ in range(20000 if c.thorough else 2000)]
    hs += list(range(484000, 484100)) + list(range(0, 400))
    hs = [h for h in hs if -200000 <= h <= 2000000]
    # every count there is, as runs of dates that are 24 hours apart
    runs = [[{'ev': 'dates', 'h': h, 'to': min(h + 49999, 2000000)}] for h in range(-200000, 2000001, 50000)]
    return dict(models=[m_civil], segs=[[{'ev': 'date', 'h': h} for h in hs[i::8]] for i in range(8)] + runs, bin='core')


def rare_days(c, per):
    """Days at which something of the reckoning is at an end of its range:
    only chosen here, not judged."""
    got, out = {}, []
    ys = list(range(639, 4001))
    c.rng.shuffle(ys)
    for ce in ys:
        n = (ce - 638) * 292207 + 373
        h0, k = n // 800 + 1, 800 - n % 800
        t0 = (h0 + (11 * h0 + 650) // 692) % 30
        edge = 1 if k in (1, 207, 208, 800) else 0
        for d in range(401):
            e = d - t0
            h = h0 + e
            m = 11 * h + 650
            a = m % 692
            key = 0
            if a < 2 or a > 689 or a in (126, 127, 136, 137):
                key = 1 + a
            t = (h + m // 692) % 30
            if t == 0 or t == 29:
                key += 1000 + 1000 * t
            u = (h + 2611) % 3232
            if u < 2 or u > 3229:
                key += 100000 + 1000000 * u
            if e < 2:
                key += 10 ** 10 * (3 + max(e, -2))
            elif e in (364, 365, 366):
                key += 10 ** 10 * (e - 350)
            if edge:
                key = key * 8 + k
            if key and got.get(key, 0) < per:
                got[key] = got.get(key, 0) + 1
                out.append((ce, d))
    c.notes['kinds_of_rare_days'] = len(got)
    return out


def day_work(c, n):
    r = c.rng
    L = [(ce, d) for ce in (639, 640, 1963, 2000, 2012, 2015, 4000) for d in range(0, 401, 1 if c.thorough else 7)]
    L += [(r.randrange(639, 4001), r.randrange(0, 401)) for _ in range(n)]
    L += [(ce, r.randrange(0, 401)) for ce in range(639, 4001)]
    y = r.randrange(700, 3900)
    L += [(y, d) for d in range(401)]
    L += rare_days(c, 12 if c.thorough else 3)
    ops = [{'ev': 'day', 'ce': ce, 'day': d, 'dirty': max(0, i % 11 - 3)} for i, (ce, d) in enumerate(L)]
    return [ops[i::8] for i in range(8)]


def all_days(c, part):
    """Days 0 to 400 of every year of the domain; in one value, or each in a
    fresh one."""
    ops = [{'ev': 'days', 'ce': ce, 'from': 0, 'to': 400, 'part': part, 'reuse': (ce // 8 + c.seed) % 2 == 0} for ce in range(639, 4001)]
    return [ops[i::8] for i in range(8)]


def C17(c):
    c.build('core')
    r = c.rng
    # later days, and earlier ones, and later years, than any calendar has
    more = [{'ev': 'day', 'ce': r.randrange(700, 7000), 'day': r.choice([r.randrange(400, 800), r.randrange(400, 20000), r.randrange(-60, 0), r.randrange(-20000, 0)])}
            for _ in range(40000 if c.thorough else 4000)]
    return dict(models=[m_dayclock, m_era], segs=[a + b for a, b in zip(day_work(c, 1000000 if c.thorough else 40000), all_days(c, 'n'))] + [more], bin='core')


def C18(c):
    c.build('core')
    return dict(models=[m_ephem], segs=[a + b for a, b in zip(day_work(c, 1000000 if c.thorough else 40000), all_days(c, 'p'))], bin='core')


def C19(c):
    c.build('core')
    r = c.rng
    k = 60 if c.thorough else 6
    ops = [{'ev': 'ral', 'n': n, 'den': 64} for n in range(-25000, 70000, 29 if k == 1 else 3)]
    ops += [{'ev': 'ral', 'n': n, 'den': 64} for t in range(-15, 40) for n in (t * 1920 - 1, t * 1920, t * 1920 + 1, t * 1920 + 63)]
    for _ in range(2000 * k):
        n = r.randrange(-7200000, 14400000)
        if (n * 60) % 10000:
            ops.append({'ev': 'ral', 'n': n, 'den': 10000})
    # just beside whole degrees, and all but nothing
    for b in (-1, 1):
        ops += [{'ev': 'ral', 'n': n, 'den': 1, 'beside': b} for n in list(range(-400, 800)) + [r.randrange(-200000, 200000) for _ in range(100)]]
        ops += [{'ev': 'ral', 'n': n, 'den': 1, 'beside': b, 'by': e} for n in (0, 30, 360, -30) for e in range(10, 40)]
        ops += [{'ev': 'ral', 'n': 0, 'den': 1, 'beside': b, 'by': e} for e in list(range(40, 80)) + [100, 300, 1000, 1074]]
    # far ones, and small fractions
    for den in (1, 2, 4096, 1048576):
        m = min(30000000, 200000 * den)     # ten-thousandths of a degree stay within 32 bits
        for _ in range(300 * k):
            ops.append({'ev': 'ral', 'n': r.randrange(-m, m), 'den': den})
        ops += [{'ev': 'ral', 'n': n, 'den': den} for n in (-2, -1, 0, 1, 2, 30 * den - 1, -30 * den - 1, -360 * den)]
    ops += [{'ev': 'norm', 'n': r.randrange(-30000000, 30000000)} for _ in range(500 * k)]
    for den in (3, 7, 1000, 10000):
        ops += [{'ev': 'keep', 'n': r.randrange(0, 360 * den), 'den': den} for _ in range(200 * k)]
    ops += [{'ev': 'norm', 'n': n} for n in range(-100000, 160000, 131 if k == 1 else 7)]
    ops += [{'ev': 'norm', 'n': t * 23040 + e} for t in range(-6, 8) for e in (-1, 0, 1)]
    for _ in range(1500 * k):
        ops.append({'ev': 'deg', 'x': r.randrange(-24, 40), 'y': r.randrange(-40, 80), 'z': r.randrange(-130, 200)})
    for z in range(-3, 63):
        ops.append({'ev': 'deg', 'x': r.randrange(0, 12), 'y': r.randrange(0, 30), 'z': z})
    return dict(models=[m_angles], segs=[ops[i::8] for i in range(8)], bin='core')


def C20(c):
    c.build('core')
    segs = year_segs(700, HI, 'dp') + year_segs(638, 699, 'p') + year_segs(1985, 2020, 'dp', CFG_ON) + far_segs(c, 'p', 400)
    for i in range(60 if c.thorough else 20):
        t = table(c, 720, 3900)
        y = t[0][0]
        segs += year_segs(y - 2, y + 14, 'dp', {'ev': 'config', 'on': True, 'tab': t})
    # long without an extra day, and every year with one
    for v in (False, True):
        y = c.rng.randrange(720, 3900)
        t = [[q, v] for q in range(y, y + 22) if not is_month(q)]
        segs += year_segs(y - 6, y + 30, 'dp', {'ev': 'config', 'on': True, 'tab': t})
    return dict(models=[m_era], segs=segs, bin='core')


def C21(c):
    c.build('full')
    return dict(models=[m_sync], segs=solar_work(c) + chain_work(c), bin='full')


LABELS = {'month': ['null', 'magasira', 'phussa', 'magha', 'phagguna', 'citta', 'vesakha', 'jettha', 'asalha', '2nd asalha', 'savana',
                    'bhaddapada', 'assayuja', 'kattika', '', 'Kattika', 'unknown'],
          'season': ['null', 'hemanta', 'gimhana', 'vassana', '', 'gimha'],
          'calendar': ['mahanikaya', 'dhammayut', 'srilanka', 'myanmar', '', 'x'],
          'status': ['draft', 'predicted', 'confirmed', '', 'x']}


def sunday(y, m, k):
    """The k-th Sunday of a month (-1: the last)."""
    d = [datetime.datetime(y, m, x) for x in range(1, 32) if x < 31 or m in (1, 3, 5, 7, 8, 10, 12)]
    return [x for x in d if x.weekday() == 6][k - 1 if k > 0 else k]


def C23(c):
    c.build('full')
    ops = []
    for k, v in LABELS.items():
        near = [f(n) for n in v for f in (str.title, str.upper, lambda n: n + ' ', lambda n: ' ' + n, lambda n: n[:-1], lambda n: n + 's',
                                          lambda n: n.replace('a', '{101}', 1), lambda n: n.replace(' ', '-'), lambda n: n[:3])]
        ops += [{'ev': 'label', 'kind': k, 'name': n} for n in v + sorted(set(near)) + [str(i) for i in range(15)]]
        # the names of the other kinds
        ops += [{'ev': 'label', 'kind': k, 'name': n} for w in LABELS.values() if w is not v for n in w]
    ops += [{'ev': 'label', 'kind': 'seasonname', 'num': n} for n in list(range(-5, 30)) + [255, 256, 257, 1 << 30]]
    segs = [ops]
    for i in range(4000 if c.thorough else 500):
        s = []
        for _ in range(30):
            s.append({'ev': 'text', 'it': ritem(c, c.rng.choice('uuhame'))})
        segs.append(s)
    # in zones with a name
    for n, z in () if 'ZONEINFO' not in c.zone([]) else (('Asia/Bangkok', 25200), ('Asia/Yangon', 23400), ('Asia/Colombo', 19800)):
        segs.append([{'ev': 'text', 'loc': n, 'it': dict(ritem(c, k), d=[c.rng.randrange(2010, 2037)] + rinst(c)[1:4] + [0, z])} for k in 'uhame' * 4])
    # ... and about the changes of the clocks, in zones with summer time
    for n, ch in () if 'ZONEINFO' not in c.zone([]) else (
            ('Europe/London', [(3, -1), (10, -1)]), ('America/New_York', [(3, 2), (11, 1)]), ('Pacific/Chatham', [(4, 1), (9, -1)]),
            ('Australia/Lord_Howe', [(4, 1), (10, 1)])):
        s = []
        for y in range(2008, 2037):
            for m, k in ch:
                d = sunday(y, m, k) + datetime.timedelta(hours=c.rng.randrange(-40, 40), minutes=c.rng.choice([0, 0, 30, 59]))
                s.append({'ev': 'text', 'loc': n, 'rules': True,
                          'it': dict(ritem(c, c.rng.choice('uhame')), d=[d.year, d.month, d.day, d.hour * 3600 + d.minute * 60, 0, 0])})
        segs.append(s)
    for u in [(p, ud, sea, sn, tot) for p in ('new', 'full') for ud in (14, 15) for sea in (1, 2, 3) for tot in (8, 10) for sn in range(1, tot + 1)]:
        it = dict(ritem(c, 'u'), ph=u[0], ud=u[1], sea=u[2], sn=u[3], tot=u[4])
        segs.append([{'ev': 'text', 'it': it}, {'ev': 'newday'}, {'ev': 'add', 'it': it}, {'ev': 'set', 'it': ritem(c, 'h')}, {'ev': 'set', 'it': ritem(c, 'a')}])
    for i in range(3000 if c.thorough else 500):
        segs.append([{'ev': 'newday'}] + [{'ev': 'add', 'it': ritem(c, c.rng.choice('uhameme'))} for _ in range(c.rng.randrange(1, 9))])
    segs += year_segs(638, 5000, 't', size=400)
    return dict(models=[m_upo], segs=segs, bin='full')


# -- C15: the embedded data ------------------------------------------------
def fs_names(c, files):
    names = [(f, f) for f in files]
    for f in files:
        b = os.path.basename(f)
        names += [('/data/./astro/' + b, f), ('/data/astro/../astro//' + b, f), ('//data/astro/' + b, f),
                  (f + '/.', f), (f + '/', f), (f + '/x/..', f), ('/x/../..' + f + '/./', f)]
    absent = ['/data/astro/astro-1899.json', '/data/astro/astro-2041.json', '/data/astro/astro-1950', '', 'data/astro/astro-1950.json', '/data/astro/astro-1950.json.bak', '/DATA/astro/astro-1950.json',
              '/astro-1950.json', '/data/astro-1950.json', '/etc/passwd', '/data/astro/../../etc/passwd', '/data/astro/astro-1950.JSON']
    dirs = [(n + x, n) for n in ('/', '/data', '/data/astro') for x in ('', '/', '/.', '/x/..')]
    return names, [(n, n) for n in absent], dirs


def C15(c):
    c.build('core')
    race = True
    try:
        c.build('race')
    except Broken as e:
        race = False
        c.notes['race_detector'] = 'not available: ' + str(e)[:200]
    w = read_world()
    cwd = c.path('local')
    os.makedirs(os.path.join(cwd, 'data', 'astro'))
    for n, f in w['files'].items():
        b = open(REPO + n, 'rb').read() + b' local'
        open(cwd + n, 'wb').write(b)
        f['lsha'], f['lsize'] = hashlib.sha256(b).hexdigest()[:24], len(b)
    w['dirs'] = ['.', 'elsewhere']
    json.dump(w, open(c.path('world.json'), 'w'))
    names, absent, dirs = fs_names(c, sorted(w['files']))
    clean = {}
    for raw, n in names + absent + dirs:
        clean[raw] = n
    routes = ['FSByte', 'FSString', 'FSMustByte', 'FSMustString', 'FS', 'FS', 'Dir', 'Dir', 'HTTP']

    def op(raw, route=None, local=None):
        route = route or c.rng.choice(routes)
        if route == 'HTTP' and not (raw.startswith('/') and posixpath.normpath(raw) == raw):
            route = 'FS'        # (the server has spellings of its own)
        o = {'ev': 'fs', 'route': route, 'name': raw, 'local': c.rng.random() < .25 if local is None else local,
             'how': c.rng.choice(['', 'small', 'seek']), 'spoil': c.rng.random() < .5}
        if route == 'Dir':
            cuts = [i for i in range(len(raw) + 1)]
            o['cut'] = c.rng.choice(cuts)
        return o
    segs = []
    # one after another, every file by every route
    for r in ('FSByte', 'FSString', 'FSMustByte', 'FSMustString', 'FS', 'Dir', 'HTTP'):
        for local in (False, True):
            l = [op(raw, r, local) for raw, n in names if raw == n] + [op(raw, r, local) for raw, n in absent]
            l += [op(raw, r, local) for raw, n in c.rng.sample(names, 20)]
            c.rng.shuffle(l)
            segs.append([l])
    # the directories, which are only looked at
    segs.append([[dict(op(raw, r, False), how='') for raw, n in dirs for r in ('FS', 'Dir')]])
    # at once, in fresh processes
    for i in range(400 if c.thorough else 16):
        few = c.rng.sample(names, c.rng.choice([1, 2, 6])) + c.rng.sample(absent, 1)
        segs.append([[op(c.rng.choice(few)[0]) for _ in range(c.rng.choice([1, 4, 12]))] for _ in range(c.rng.choice([4, 8, 16]))])
    # all files at once
    for i in range(2):
        segs.append([[op(raw, local=False) for raw, n in c.rng.sample(names[:len(w['files'])], 60)] for _ in range(8)])

    # many reads of the files on disk with few handles, which nothing but the
    # reads themselves can give back; first one after another, then at once
    few = len(segs)
    for k, n in ((1, 300), (6, 60)):
        segs.append([[op(raw, r, True) for raw, f in c.rng.choices(names[:len(w['files'])], k=n // 6)
                      for r in ('FSByte', 'FSString', 'FSMustByte', 'FSMustString', 'FS', 'Dir')] for _ in range(k)])

    # files on disk which are written, removed and put back between reads, each
    # by one list; and, in a list by itself, another working directory
    changing = len(segs)
    for k in [1] * (80 if c.thorough else 4) + [3] * (60 if c.thorough else 3):
        fs = c.rng.sample(sorted(w['files']), 3 * k)
        lists = []
        for g in range(k):
            mine = fs[g * 3:g * 3 + 3]
            l = []
            for _ in range(c.rng.randrange(30, 60)):
                x = c.rng.random()
                f = c.rng.choice(mine)
                if x < .25:
                    l.append({'ev': 'put', 'dir': c.rng.choice(w['dirs']), 'name': f, 'gone': c.rng.random() < .3, 'text': 'x' * c.rng.randrange(4) + str(c.rng.randrange(99))})
                elif x < .35 and k == 1:
                    l.append({'ev': 'cd', 'dir': c.rng.choice(w['dirs'])})
                else:
                    l.append(op(c.rng.choice([q for q in names if q[1] == f])[0], local=c.rng.random() < .8))
            lists.append(l)
        segs.append(lists)

    def one(i, lists):
        here = cwd
        if i >= changing:
            here = c.sub('disk')
            for d in w['dirs']:
                shutil.copytree(os.path.join(cwd, 'data'), os.path.join(here, d, 'data'))
        try:
            play(i, lists, here)
        finally:
            if here != cwd:
                shutil.rmtree(here, ignore_errors=True)

    def play(i, lists, cwd):
        ops = [{'ev': 'par', 'lists': lists}]
        # every other concurrent one with the race detector
        bin = 'race' if race and len(lists) > 1 and i % 2 and i < few else 'core'
        rec = c.record(ops, bin, cwd, handles=64 if few <= i < changing else None)
        if rec['race']:
            if 'suriya-go' not in rec['race']:
                raise Broken('a data race in the recorder:\n' + rec['race'][:3000])
            raise Violation('readers race: ' + short(rec['race'].replace('\n', ' ')), c.replayfile(
                {'property': c.prop, 'what': 'data race between readers', 'report': rec['race'][:5000], 'ops': ops}))
        if rec['rc'] != 0:
            line, err = c.crashed(ops, bin, cwd, rec)
            raise Violation(line['panic'], c.replayfile({'property': c.prop, 'what': line['panic'], 'stderr': err, 'ops': ops}))
        raw = [json.loads(x) for x in open(rec['trace'])]
        evs, k = [], 0
        for g, l in enumerate(lists):
            for _ in l:
                x = raw[k]
                k += 1
                r = x['r']
                if x['ev'] != 'fs':
                    evs.append((r['begin'], dict(r, g=g, ev=x['ev'], dir=x['dir'], name=x.get('name', ''))))
                    continue
                b, e = (r.pop('begin'), r.pop('end')) if r else (10 ** 6 + k * 2, 10 ** 6 + k * 2 + 1)
                base = {'g': g, 'name': clean[x['name']], 'raw': x['name'], 'route': x['route'], 'local': x['local']}
                evs.append((b, dict(base, ev='call')))
                evs.append((e, dict(base, ev='ret', r=r, panic=x['panic'])))
        evs.sort(key=lambda z: z[0])
        tr = os.path.join(rec['dir'], 'events')
        with open(tr, 'w') as f:
            for _, x in evs:
                f.write(json.dumps(x) + '\n')
        bad = c.validate(tr, 'EmbedTrace', 'CONSTANTS\n Readers <- TraceReaders\n Files <- TraceFiles\n Names <- TraceNames\n MaxCalls <- TraceMax\n Shared = FALSE\nCONSTRAINT Seen\n')
        with c.lock:
            c.traces += 1
            c.events += len(evs)
            if len(c.samples) < 4:
                c.samples.append(short(json.dumps(evs[len(evs) // 2][1])))
        if bad:
            x = evs[bad[0] - 1][1]
            raise Violation('read not allowed by the specification: ' + short(json.dumps(x)),
                            c.replayfile({'property': c.prop, 'rejected_line': x, 'events': [y for _, y in evs[:bad[0]]][-40:]}))
        shutil.rmtree(rec['dir'], ignore_errors=True)

    def run():
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for f in [ex.submit(one, i, s) for i, s in enumerate(segs)]:
                f.result()
    return dict(models=[m_embed, m_handles, m_disk], run=run)


# -- C22: what a call returns depends on the call and the configuration ------
def session_keys(c):
    r = c.rng
    W = read_world()['astro']
    y = r.randrange(1985, 2010)
    u = {'t': 'u', 'd': [1994, 7, 8, 0, 0, 0], 'cal': 0, 'st': 0, 'ph': 'full', 'ev': '', 'sn': 6, 'tot': 8, 'ud': 15, 'md': 30, 'mon': 7,
         'sea': 2, 'ly': 2537, 'av': False, 'src': '', 'com': ''}
    sh = [{'d': [1994, 7, 8 + i, 0, 0, 0], 'u': [dict(u, d=[1994, 7, 8 + i, 0, 0, 0])], 'h': [], 'a': [], 'm': [], 'e': []} for i in range(3)]
    K = [{'ev': 'year', 'ce': q, 'g': 'emvlkadpt'} for q in (1994, 1995, 1997, r.randrange(700, 3900))]
    K += [{'ev': 'day', 'ce': q, 'day': r.randrange(400)} for q in (1963, r.randrange(700, 3900))]
    # years far off, with equal remainders
    K += [{'ev': 'year', 'ce': q, 'g': 'wm'} for q in (1994 + 65536, 1994 + 10000, 1994 + 131072)]
    K += [{'ev': 'date', 'h': r.randrange(2000000)}, {'ev': 'ral', 'n': r.randrange(20000), 'den': 64},
          {'ev': 'norm', 'n': r.randrange(-50000, 90000)}]
    K += [{'ev': 'solar', 'ce': q} for q in (1994, 1995, y)]
    # ranges which overlap, with the same years and others
    K += [{'ev': 'caldays', 'from': [y, 3, 1, 0, 0, 0], 'to': [y, 9, 1, 0, 0, 0]},
          {'ev': 'caldays', 'from': [y, 5, 1, 0, 0, 0], 'to': [y + 1, 2, 1, 0, 0, 0]},
          {'ev': 'caldays', 'from': [1993, 12, 1, 0, 0, 0], 'to': [1995, 2, 1, 0, 0, 25200]},
          {'ev': 'astro', 'from': [y, 3, 1, 0, 0, 0], 'to': [y, 9, 1, 0, 0, 0]},
          {'ev': 'astro', 'from': [y, 1, 1, 0, 0, 0], 'to': [y, 12, 31, 0, 0, 0]},
          {'ev': 'astro', 'from': [y - 1, 12, 1, 0, 0, 25200], 'to': [y + 1, 2, 1, 0, 0, -25200]},
          # years without data, and with
          {'ev': 'astro', 'from': [1970, 1, 1, 0, 0, 0], 'to': [1970, 12, 31, 0, 0, 0]},
          {'ev': 'astro', 'from': [r.randrange(1500, 1899), 1, 1, 0, 0, 0], 'to': [1900, 12, 31, 0, 0, 0]},
          {'ev': 'caldays', 'from': [2035, 3, 1, 0, 0, 0], 'to': [2035, 4, 1, 0, 0, 0]},
          {'ev': 'astro', 'from': [1969, 6, 1, 0, 0, 0], 'to': [1971, 6, 1, 0, 0, 0]}]
    K += [{'ev': 'step', 'u': u}, {'ev': 'step', 'u': dict(u, d=[1997, 7, 5, 0, 0, 0], ly=2540)},
          {'ev': 'label', 'kind': 'month', 'name': 'citta'}, {'ev': 'label', 'kind': 'seasonname', 'num': 3},
          {'ev': 'fs', 'route': 'FSByte', 'name': '/data/astro/astro-%d.json' % y, 'local': False},
          {'ev': 'fs', 'route': 'FS', 'how': 'small', 'name': '/data/astro/astro-%d.json' % y, 'local': False},
          {'ev': 'fs', 'route': 'FSString', 'name': '/data/astro/none.json', 'local': False},
          {'ev': 'text', 'it': u}, {'ev': 'text', 'it': {'t': 'm', 'd': [y, 5, 1, 0, 0, 0], 'cal': 0, 'sum': 'S', 'desc': 'D'}},
          {'ev': 'share', 'ce': 1994, 'u': u, 'days': sh}, {'ev': 'share', 'ce': 1997, 'u': u, 'days': sh},
          {'ev': 'addhalf', 'days': [{'d': [y, 2, 22, 0, 0, 0], 'u': [dict(u, d=[y, 2, 22, 0, 0, 0])], 'h': [], 'a': [], 'm': [], 'e': []}]}]
    return K


def C22(c):
    c.build('full')
    race = True
    try:
        c.build('race')
    except Broken as e:
        race = False
        c.bins['race'] = c.bins['full']
        c.notes['race_detector'] = 'not available: ' + str(e)[:200]
    K = session_keys(c)
    CF = [CFG_OFF, CFG_ON, {'ev': 'config', 'on': True, 'tab': [[1995, True], [1994, False]]},
          {'ev': 'config', 'on': True, 'tab': [[1994, True], [1997, True]], 'replace': True}]
    nk = len(K)

    def digest(line):
        r = dict(line['r'])
        for k in ('begin', 'end'):
            r.pop(k, None)
        if 'ical' in r:
            r['ical'] = {k: v for k, v in r['ical'].items() if k not in ('fresh', 'now')}
        return hashlib.sha256((line['panic'] + json.dumps(r, sort_keys=True)).encode()).hexdigest()[:16]

    def play(ops, keys, bin):
        """Runs operations; History lines for those that are calls.
        keys: the History key of each recorded line (None: a configuration)."""
        rec = c.record(ops, bin)
        out = [{'ev': 'restart'}]
        if rec['rc'] != 0:
            line, err = c.crashed(ops, bin, None, rec)
            return out + [{'ev': 'crash', 'what': line['panic'], 'stderr': err[-3000:], 'ops': ops if len(ops) < 200 else ops[:5]}]
        lines = [json.loads(x) for x in open(rec['trace'])]
        if len(lines) != len(keys):
            raise Broken('recorder: %d lines for %d calls' % (len(lines), len(keys)))
        for k, x in zip(keys, lines):
            if k is None:
                out.append({'ev': 'config', 'c': json.dumps([x['on'], x['tab']])})
            else:
                out.append({'ev': 'obs', 'key': k, 'res': digest(x)})
        if rec['race']:
            if 'suriya-go' not in rec['race']:
                raise Broken('a data race in the recorder:\n' + rec['race'][:3000])
            out.append({'ev': 'race', 'what': rec['race'][:3000]})
        shutil.rmtree(rec['dir'], ignore_errors=True)
        return out

    def key(i):
        return 'k%d' % i
    got, gen, dist = emitted(c, 'Session', 'SPECIFICATION Spec\nCONSTANTS NKeys=%d NConfigs=%d Depth=40 KeyedByConfig=TRUE Emit=TRUE\n'
                             'INVARIANT EmitDone\nCHECK_DEADLOCK FALSE\n' % (nk, len(CF)),
                             extra=['-simulate', 'num=%d' % (3000 if c.thorough else 120), '-depth', '200', '-seed', str(c.seed)])
    got = [list(x) for x in sorted(set(tuple(tuple(y) for y in s) for s in got))]
    c.rng.shuffle(got)
    got = got[:3000 if c.thorough else 120]
    c.notes['generated_sessions'] = len(got)

    def run():
        jobs = []
        # every call by itself in a process of its own
        for ci, cf in enumerate(CF):
            for i, k in enumerate(K):
                jobs.append(([cf, k], [None, key(i)], 'full'))
        nfresh = len(jobs)
        # the sessions; callers do what they like with what they get
        for n, s in enumerate(got):
            ops, keys = [CF[0]], [None]
            for cf, k in s:
                if k == 0:
                    ops.append(CF[cf - 1])
                    keys.append(None)
                else:
                    ops.append(dict(K[k - 1], spoil=(n % 2 == 1)))
                    keys.append(key(k - 1))
            jobs.append((ops, keys, 'full'))
        # a process that goes on for long
        for n in range(8 if c.thorough else 2):
            ops, keys = [CF[0]], [None]
            for j in range(3000):
                if c.rng.random() < .02:
                    ops.append(c.rng.choice(CF))
                    keys.append(None)
                k = c.rng.randrange(nk)
                ops.append(dict(K[k], spoil=True))
                keys.append(key(k))
            jobs.append((ops, keys, 'full'))
        # calls at the same time, by several callers
        for n in range(300 if c.thorough else 16):
            cf = CF[n % len(CF)]
            groups = c.rng.choice([2, 4, 8])
            pick = list(range(nk)) if n % 2 else c.rng.sample(range(nk), 5)
            lists, keys = [], [None]
            for g in range(groups):
                l = [c.rng.choice(pick) for _ in range(12)]
                lists.append([dict(K[i], spoil=True, callers=4) for i in l])
                keys += [key(i) for i in l]
            bin = 'race' if n % 4 != 3 else 'full'
            jobs.append(([cf, {'ev': 'par', 'lists': lists}], keys, bin))
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(lambda j: play(*j), jobs))
        tr = c.path('history')
        flat = []
        with open(tr, 'w') as f:
            for j, r in enumerate(res):
                for x in r:
                    f.write(json.dumps({k: v for k, v in x.items() if k in ('ev', 'c', 'key', 'res')}) + '\n')
                    flat.append((j, x))
        bad = c.validate(tr, 'HistoryTrace', '')
        c.traces += len(jobs)
        c.events += len(flat)
        c.samples = [short(json.dumps(flat[i][1])) for i in (1, len(flat) // 2, len(flat) - 1)]
        c.notes['race_detector'] = c.notes.get('race_detector', 'on for %d concurrent runs' % sum(1 for j in jobs if j[2] == 'race'))
        if bad:
            j, x = flat[bad[0] - 1]
            ops = jobs[j][0]
            where = 'alone' if j < nfresh else 'session' if jobs[j][0][-1].get('ev') != 'par' else 'concurrent'
            call = K[int(x['key'][1:])] if x.get('key') else None
            raise Violation('%s in a %s run: %s' % ({'obs': 'a different result', 'crash': 'a crash', 'race': 'a data race'}[x['ev']], where,
                                                    short(json.dumps(call or x))),
                            c.replayfile({'property': c.prop, 'line': x, 'call': call, 'ops': ops, 'where': where}))
    return dict(models=[m_session], run=run)


# -- C24, C25: the programs -------------------------------------------------
def jinst(s):
    m = re.match(r'^(\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)$', s or '')
    if not m:
        return [0, 0, 0, 0, 0, 0]
    z = 0 if m.group(8) == 'Z' else (1 if m.group(8)[0] == '+' else -1) * (int(m.group(8)[1:3]) * 3600 + int(m.group(8)[4:]) * 60)
    ns = int(((m.group(7) or '') + '0' * 9)[:9])
    return [int(m.group(1)), int(m.group(2)), int(m.group(3)),
            int(m.group(4)) * 3600 + int(m.group(5)) * 60 + int(m.group(6)), ns, z]


def esc(s):
    return ''.join(x if 32 <= ord(x) <= 126 and x not in '{}' else '{%x}' % ord(x) for x in str(s))


def jday(d):
    def g(x, k, dflt):
        v = x.get(k, '?missing')
        return v if type(v) is type(dflt) else '?bad'
    def u(x):
        return {'t': 'u', 'd': jinst(x.get('Date')), 'cal': g(x, 'Calendar', 0), 'st': g(x, 'Status', 0), 'ph': esc(x.get('Phase')),
                'ev': esc(x.get('Event')), 'sn': g(x, 'S_Number', 0), 'tot': g(x, 'S_Total', 0), 'ud': g(x, 'U_Days', 0),
                'md': g(x, 'M_Days', 0), 'mon': g(x, 'LunarMonth', 0), 'sea': g(x, 'LunarSeason', 0), 'ly': g(x, 'LunarYear', 0),
                'av': g(x, 'HasAdhikavara', True), 'src': esc(x.get('Source')), 'com': esc(x.get('Comments'))}
    def m(t):
        return lambda x: {'t': t, 'd': jinst(x.get('Date')), 'ph': esc(x.get('Phase'))}
    def e(t):
        return lambda x: {'t': t, 'd': jinst(x.get('Date')), 'cal': g(x, 'Calendar', 0), 'sum': esc(x.get('Summary')), 'desc': esc(x.get('Description'))}
    return {'d': jinst(d.get('Date')), 'u': [u(x) for x in d.get('UposathaMoon') or []], 'h': [m('h')(x) for x in d.get('HalfMoon') or []],
            'a': [m('a')(x) for x in d.get('AstroMoon') or []], 'm': [e('m')(x) for x in d.get('MajorEvents') or []],
            'e': [e('e')(x) for x in d.get('Events') or []]}


def jcal(text):
    try:
        # (years in the order of the calendar, whatever the order in the object)
        j = json.loads(text)
        return {'ok': True, 'years': [{'y': y, 'days': [jday(d) for d in j[y]], 'keys': [sorted(d) for d in j[y]]}
                                      for y in sorted(j, key=lambda y: (len(y), y))]}
    except Exception:
        return {'ok': False, 'years': []}


def jical(text):
    """Reads iCalendar text; the order of the properties does not matter."""
    L = [x for x in text.replace('\r\n', '\n').split('\n') if x]
    ok = bool(L) and L[0] == 'BEGIN:VCALENDAR' and L[-1] == 'END:VCALENDAR'
    evs, uids, cur, head = [], [], None, []
    for x in L:
        if x == 'BEGIN:VEVENT':
            cur = {}
        elif x == 'END:VEVENT':
            def day(s):
                m = re.match(r'^(\d{4})(\d\d)(\d\d)$', s or '')
                return [int(m.group(i)) for i in (1, 2, 3)] if m else [0, 0, 0]
            ok = ok and 'VALUE=DATE' in (cur.get('DTSTART', ('', ''))[0] + ';').replace('VALUE=DATE;', 'VALUE=DATE')
            evs.append({'start': day(cur.get('DTSTART', ('', ''))[1]), 'end': day(cur.get('DTEND', ('', ''))[1]), 'sum': esc(cur.get('SUMMARY', ('', ''))[1])})
            uids.append(cur.get('UID', ('', ''))[1])
            cur = None
        elif cur is not None and ':' in x:
            k, v = x.split(':', 1)
            n, _, p = k.partition(';')
            cur[n] = (p, v)
        elif ':' in x and not x.endswith(':VCALENDAR'):
            k, v = x.split(':', 1)
            head.append([k.partition(';')[0], esc(v)])
    return {'ok': ok, 'head': head, 'events': evs, 'uids': all(uids) and len(set(uids)) == len(uids)}


def C24(c):
    c.build('cli')
    lines, lock = [], threading.Lock()

    def day(i):
        return '%04d-%02d-%02d' % tuple(i[:3])

    OLD = 'x' * 3000000

    def cli(cmd, args, f, t, out, zone=None, okf=True, okt=True):
        """One run.  out: where the text is to go (see Program.tla; "cwd" is
        "new", and "oldcwd" is "old", by a name without directory)."""
        d = c.sub('cli')
        name = os.path.join(d, 'out.txt')
        a = [c.bins['cli']] + ([cmd] if cmd else []) + args
        if out in ('old', 'oldcwd'):
            open(name, 'w').write(OLD)
        elif out == 'dir':
            os.mkdir(name)
        if out != 'none':
            a += ['--output', {'cwd': 'out.txt', 'oldcwd': 'out.txt', 'full': '/dev/full',
                               'nodir': os.path.join(d, 'nosuchdir', 'out.txt')}.get(out, name)]
        c.decoy(d)
        y0 = datetime.datetime.now().year
        env = {'PATH': os.environ.get('PATH', ''), 'HOME': d, 'TZ': 'UTC'}
        if f and t:           # (the present year is that of the place)
            env.update(c.zone([cmd] + args))
            if zone:
                env['TZ'] = zone
        rc, o, e = c.run(a, 120, d, env)
        if rc is None:
            raise Broken('the command line program did not end: ' + ' '.join(a))
        if datetime.datetime.now().year != y0:
            return
        f, t = f or [y0, 1, 1, 0, 0, 0], t or [y0, 12, 31, 0, 0, 0]
        base = {'args': ' '.join(a[1:]), 'from': f, 'to': t, 'panic': '',
                'given': {'from': okf, 'to': okt, 'out': {'cwd': 'new', 'oldcwd': 'old'}.get(out, out)}}
        # what there is now beside what was put there
        there = sorted(x for x in os.listdir(d) if x not in ('out.txt', 'data'))
        text = None
        if there:
            disk = 'other: ' + ' '.join(there)
        elif not os.path.exists(name):
            disk = 'absent'
        elif os.path.isdir(name):
            disk = 'dir' if not os.listdir(name) else 'other'
        else:
            text = open(name, encoding='utf8', errors='replace').read()
            disk = 'old' if text == OLD else 'text'
        printed = o != '' if rc == 0 else 'BEGIN:VCALENDAR' in o or '{"' in o
        end = {'exit': rc, 'disk': disk, 'printed': printed}
        if cmd is None:
            # the names and values of the two dates, however they are laid out
            at = {k[:1].lower(): v for k, v in re.findall(r'(?i)\b((?:from|to)\w*)\W+(\d{4,}-\d\d-\d\d \d\d:\d\d:\d\d \+0000 UTC)', o)}
            r = dict(base, ev='clishow', r=dict(end, **{k: [int(x) for x in re.findall(r'\d+', at.get(k[0], ''))[:6]] for k in ('from', 'to')}))
        elif not (okf and okt) or out in ('nodir', 'dir', 'full'):
            r = dict(base, ev='clibad', r=end)
        else:
            if text is None:
                text = o
            r = dict(base, ev='clidays' if cmd == 'caldays' else 'cliical',
                     r=dict(jcal(text) if cmd == 'caldays' else jical(text), **end))
        shutil.rmtree(d, ignore_errors=True)
        with lock:
            lines.append(r)

    def run():
        jobs = []
        for i, (f, t) in enumerate(ranges(c, 1000 if c.thorough else 60, maxdays=1500)):
            f, t = f[:3] + [0, 0, 0], t[:3] + [0, 0, 0]
            jobs.append((['caldays', 'ical'][i % 2], ['--from', day(f), '--to', day(t)], f, t,
                         ['none', 'new', 'old', 'cwd'][(i // 2) % 4]))
        jobs.append((None, [], None, None, 'none'))
        # many turns of the year, in places far from Greenwich
        for i in range(240 if c.thorough else 8):
            y = c.rng.randint(1300, 3980) if i % 4 else c.rng.randint(1950, 2030)
            f, t = [y, c.rng.randint(1, 12), c.rng.randint(1, 28), 0, 0, 0], [y + c.rng.randint(8, 16), c.rng.randint(1, 12), c.rng.randint(1, 28), 0, 0, 0]
            jobs.append((['caldays', 'ical'][i // 2 % 2], ['--from', day(f), '--to', day(t)], f, t, ['none', 'new'][i % 2],
                         ['America/Los_Angeles', 'Pacific/Auckland', 'Pacific/Pago_Pago', 'Pacific/Kiritimati'][(i + i // 4) % 4]))
        for cmd in ('caldays', 'ical'):
            f = [1998, 11, 3, 0, 0, 0]
            y15 = ['--from', '2015-01-01', '--to', '2015-12-31'], [2015, 1, 1, 0, 0, 0], [2015, 12, 31, 0, 0, 0]
            jobs += [(cmd, [], None, None, 'none'), (cmd, ['--from', day(f)], f, None, 'none'),
                     (cmd, ['--to', '3000-01-10', '--from', '2999-12-01'], [2999, 12, 1, 0, 0, 0], [3000, 1, 10, 0, 0, 0], 'none'),
                     (cmd, ['--to', '1990-05-06'], None, [1990, 5, 6, 0, 0, 0], 'new'),
                     # a range that ends before it begins
                     (cmd, ['--from', '2015-03-02', '--to', '2015-03-01'], [2015, 3, 2, 0, 0, 0], [2015, 3, 1, 0, 0, 0], 'none'),
                     (cmd, ['--from', '2015-03-02', '--to', '2015-03-01'], [2015, 3, 2, 0, 0, 0], [2015, 3, 1, 0, 0, 0], 'old')]
            outs = ['none', 'new', 'old', 'cwd', 'oldcwd', 'nodir', 'dir'] + (['full'] if os.path.exists('/dev/full') else [])
            jobs += [(cmd,) + y15 + (o,) for o in outs]
            for n, bad in enumerate(('2015-13-01', '2015-02-30', '15-01-01', 'today', '2015/01/01', '2015-1-1', '2015-01-01T00:00:00Z', ' ', '2015-02-29', '0')):
                o = [outs[(n + i) % len(outs)] for i in (0, 3)]
                jobs += [(cmd, ['--from', bad, '--to', '2016-01-01'], None, None, o[0], None, False, True),
                         (cmd, ['--from', '2014-01-01', '--to', bad], None, None, o[1], None, True, False),
                         (cmd, ['--to', bad, '--from', bad], None, None, 'old', None, False, False)]
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            list(ex.map(lambda j: cli(*j), jobs))
        judge(c, lines)
    return dict(models=[m_calendar, m_program], run=run)


def judge(c, lines):
    if os.environ.get('VERIF_DUMP'):      # (selftest.py looks at them)
        with open(os.environ['VERIF_DUMP'], 'a') as f:
            f.writelines(json.dumps(x) + '\n' for x in lines)
    n = min(6, len(lines))
    def one(part):
        tr = os.path.join(c.sub('tr'), 'trace')
        with open(tr, 'w') as f:
            for x in part:
                f.write(json.dumps(x) + '\n')
        bad = c.validate(tr)
        with c.lock:
            c.traces += 1
            c.events += len(part)
            if len(c.samples) < 3:
                c.samples.append(short(json.dumps(part[0])))
        if bad:
            x = part[bad[0] - 1]
            raise Violation('not what the specification allows: ' + short(json.dumps(x)), c.replayfile({'property': c.prop, 'rejected_line': x}))
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for f in [ex.submit(one, lines[i::n]) for i in range(n)]:
            f.result()


def C25(c):
    c.build('csv')

    def run():
        lines = []
        for old in (False, True):
            d = c.sub('csv')
            if old:
                open(os.path.join(d, 'years.csv'), 'w').write('x' * 100000)
            c.decoy(d)
            rc, o, e = c.run([c.bins['csv']], 120, d, dict(c.zone([old, c.seed]), PATH=os.environ.get('PATH', ''), HOME=d))
            if rc is None:
                raise Broken('years-csv did not end')
            p = os.path.join(d, 'years.csv')
            text = open(p, encoding='utf8', errors='replace').read() if os.path.exists(p) else ''
            rows = [[esc(x) for x in l.split(';')] for l in text.split('\n')]
            whole = rows and rows[-1] == ['']
            lines.append({'ev': 'csv', 'panic': '', 'r': {'exit': rc, 'head': rows[0] if rows else [], 'rows': rows[1:-1] if whole else rows[1:]}})
        judge(c, lines)
    return dict(models=[m_era], run=run)


def C26(c):
    c.build('full')
    ys = list(range(1900, 2041))
    ops = [{'ev': 'aeris', 'ce': y} for y in ys]
    ops += [{'ev': 'astro', 'from': [y, 1, 1, 0, 0, 0], 'to': [y, 12, 31, 86399, 0, 0]} for y in ys]
    # by months, and about the turns of the years, in all zones
    pairs = ranges(c, 3000 if c.thorough else 300, 1898, 2043, 500)
    for y in ys:
        for z in (0, 25200, -28800) if c.thorough else (c.rng.choice([0, 25200, -28800]),):
            pairs.append(([y, 12, 20, 0, 0, z], [y + 1, 1, 12, 0, 0, z]))
    c.rng.shuffle(ops)

    def ml(c):
        n, m = (14000, 5000) if c.thorough else (1300, 500)
        c.model('MC_Lunation: phases %d before and %d after January 2000' % (n, m), 'MC_Lunation',
                'SPECIFICATION Spec\nCONSTANTS Before=%d LastK=%d\n' % (n, m) + inv('Gaps', 'Near', 'Itself', 'Clock')
                + 'CHECK_DEADLOCK FALSE\n')
    return dict(models=[ml], segs=[[CFG_OFF] + ops[i::8] for i in range(8)] + range_segs(pairs, 'astro'), bin='full')


# --------------------------------------------------------------------------
ASSUME = [
    'the recorder (harness/drv) writes down faithfully what the API returned',
    'TLC evaluates the specification correctly',
    'the packages ical, go.uuid, cli and spew are stand-ins written for this sandbox',
]


def main():
    prop = sys.argv[1]
    c = Ctx(prop)
    try:
        try:
            w = globals()[prop](c)
            with concurrent.futures.ThreadPoolExecutor(6) as ex:
                futs = [ex.submit(m, c) for m in w['models']]
                err = None
                try:
                    if 'run' in w:
                        w['run']()
                    else:
                        c.check(w['segs'], w['bin'])
                        for s in w.get('alone', []):
                            c.check([s], w['bin'])
                except (Violation, Broken) as e:
                    err = e
                for f in futs:
                    try:
                        f.result()
                    except Broken as e:
                        if err is None:
                            err = e
                if err:
                    raise err
            c.evidence('model_checking', ASSUME)
            for l in open(os.path.join(VERIF, 'known_findings.txt')):
                if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                    print(l.strip())
            print('OK property=%s: %d states, %d recorded calls in %d traces, %.1f s'
                  % (prop, c.states, c.events, c.traces, time.time() - c.t0))
            return 0
        except Violation as v:
            c.samples = c.samples or [v.what]
            c.evidence('model_checking', ASSUME, 1, {'violation': v.what})
            print(v.what)
            print('VIOLATION property=%s replay=%s' % (prop, v.replay))
            return 1
    except Broken as e:
        print('ERROR property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s' % prop)
        return 2
    finally:
        c.cleanup()


if __name__ == '__main__':
    sys.exit(main())
