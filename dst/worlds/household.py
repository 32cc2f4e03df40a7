"""World: people and accounts living through a simulated history.

Real code: Person, Account, Debt, LinkedLimitAccount, RRSP, TFSA,
TaxableAccount, PrincipleResidence, AccountLink, Ledger, Timing.
Simulated: client callables (rates, raises, withholding, inflation), which
may fail when told to; who reads what when; the order in which people and
accounts are stepped to the next year; set order and hashes; interrupts.
"""
import contextlib
from datetime import datetime, timedelta
from decimal import Decimal

from dst.build import DATE_FORMS, entered_date, gen_birth
from dst.client import Callable, Interrupter, gen_interrupt
from dst.core import (
    SIM, ClientFault, Interrupt, Violation, close, freeze, frozen_close,
    nonzero, require, require_close, series_close, show)
from dst.model import INF, Model, lasting, pairs, yearly
from dst.worlds.forecast import (
    ALLOCATIONS, allocator, gen_allocation, gen_market, returns_of)
from dst.worlds.forecast_checks import exact

SHRINK_LISTS = ['ops', 'accounts', 'people']
SHRINK_KEEP = {'mode', 'year'}

FLOWS = ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow')
LIMITED = ('RRSP', 'TFSA', 'LinkedLimitAccount')


# --- generation -------------------------------------------------------------
def money(rng, low, high):
    if low <= 1 < high and rng.random() < 0.03:
        return round(rng.uniform(0.01, 1), 2)
    return round(rng.uniform(low, high), 2)


def gen_rate(rng, years, negative=True):
    low = -0.25 if negative else 0.0

    def one():
        return rng.choice([0.0, 0.05, round(rng.uniform(low, 0.4), 4)])
    if rng.random() < 0.35:
        return one()
    return [one() for _ in range(rng.randint(2, years + 2))]


def gen_timing(rng):
    if rng.random() < 0.2:
        return rng.choice(['start', 'end', 'M', 'Q', 'SA', 'BM', 1, 0.25])
    count = rng.choice([1, 1, 2, 3])
    whens = rng.sample([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1], count)
    weights = [rng.choice([1, 1, 2, 0.5]) for _ in whens]
    if rng.random() < 0.05:
        weights = [0 for _ in whens]
    elif rng.random() < 0.15:
        # Shares of the whole.
        weights = rng.choice([
            [[1], [0.25, 0.75], [0.5, 0.125, 0.375]],
            [[1], [0, 1], [0.25, 0, 0.75]]])[count - 1]
    return [[w, v] for w, v in zip(whens, weights)]


TYPES = {
    'P01': ['Account', 'Account', 'Debt', 'TaxableAccount', 'RRSP', 'TFSA',
            'PrincipleResidence', 'LinkedLimitAccount'],
    'P02': ['Account', 'Debt', 'TaxableAccount', 'RRSP', 'TFSA',
            'PrincipleResidence', 'LinkedLimitAccount'],
    'P06': ['RRSP', 'TFSA', 'RRSP', 'TFSA', 'Account'],
    'P07': ['LinkedLimitAccount', 'LinkedLimitAccount', 'RRSP', 'TFSA'],
    'P08': ['Account', 'Debt', 'RRSP', 'TaxableAccount', 'LinkedLimitAccount',
            'TFSA'],
    'P09': ['TaxableAccount', 'TaxableAccount', 'Account'],
    'P10': ['RRSP', 'RRSP', 'RRSP', 'TFSA'],
    'P26': ['Account', 'RRSP'],
}

INPUT_PROPS = {
    'person': ['gross_income', 'raise_rate', 'net_income', 'tax_withheld',
               'taxable_income', 'tax_deduction', 'tax_credit'],
    'Account': ['balance', 'rate', 'returns', 'taxable_income',
                'tax_withheld', 'tax_deduction', 'tax_credit',
                'transactions'],
    'TaxableAccount': ['acb', 'capital_gain'],
    'RRSP': ['contribution_room'], 'TFSA': ['contribution_room'],
}


def gen_inputs(rng, kind, year, years, share):
    props = list(INPUT_PROPS['person' if kind == 'person' else 'Account'])
    props += INPUT_PROPS.get(kind, []) if kind != 'person' else []
    inputs = {}
    for prop in props:
        if rng.random() > share:
            continue
        chosen = sorted(rng.sample(
            range(year + 1, year + years + 2), rng.randint(1, 2)))
        vals = {}
        for when in chosen:
            if prop in ('rate', 'raise_rate'):
                val = round(rng.uniform(-0.1, 0.5), 3)
            elif prop == 'transactions':
                val = [[w, money(rng, 0, 500)] for w in rng.sample(
                    [0, 0.25, 0.5, 1], rng.randint(1, 2))]
            elif prop == 'balance':
                val = money(rng, 1000, 90000)
                if kind == 'Debt':
                    val = -val
            else:
                val = money(rng, 0, 20000)
            vals[str(when)] = val
        inputs[prop] = vals
    return inputs


def generate(rng, prop, tier):
    """ A random household and a random history for it. """
    deep, vast = tier != 'quick', tier == 'vast'
    years = rng.randint(*(15, 40) if vast else (2, 12 if deep else 5))
    if prop == 'P10':
        year = rng.choice([2016, 2017, 2018, 2025])
    elif prop == 'P06':
        year = rng.choice([2007, 2010, 2014, 2016, 2017, 2020])
    else:
        year = rng.choice([2000, 2015, 2017])
    plan = {
        'mode': rng.choice(['f', 'f', 'f', 'd']), 'year': year,
        'inflation': rng.choice(
            [None, 0.02, [0.01, 0.03, 0.0, 0.05, -0.01]]),
        'people': [], 'accounts': [], 'ops': []}
    if prop == 'P27':
        plan['mode'] = 'd'
    share_inputs = {'P03': 0.35}.get(
        prop, rng.choice([0, 0, 0, 0.08]))
    for number in range(rng.randint(1, 3 if prop != 'P10' else 2)):
        if prop in ('P10', 'P06', 'P05') and rng.random() < 0.75:
            age = rng.randint(64, 93) if prop == 'P10' else rng.choice(
                [15, 16, 17, 18, 30, 50, 68, 69, 70, 71, 72])
            birth = year - age
        else:
            birth = year - rng.randint(20, 60)
        retire = year + rng.randint(0, years + 2)
        if retire < birth + 1:
            retire = birth + 1
        income = rng.choice([0.0, money(rng, 1000, 200000)])
        if number and rng.random() < 0.15:
            income = plan['people'][0]['income']
        plan['people'].append({
            'id': 'p%d' % number,
            'birth': gen_birth(rng, birth),
            'retire': '%d-%02d-%02d' % (
                retire, rng.randint(1, 12), rng.randint(1, 28)),
            'birth_form': rng.choice(DATE_FORMS),
            'retire_form': rng.choice(DATE_FORMS),
            'income': income, 'raises': gen_rate(rng, years, False),
            'raise_call': rng.random() < 0.5,
            'treatment': rng.choice(
                [None, [0.25, 0], [round(rng.uniform(0, 0.5), 3), 10000]]),
            'spouse': bool(number == 1 and rng.random() < 0.7),
            'inputs': (gen_inputs(rng, 'person', year, years, share_inputs)
                       if prop != 'P26' or rng.random() < 0.2 else {}),
        })
    people = [p['id'] for p in plan['people']]
    pool = TYPES.get(prop, TYPES['P01'])
    groups = {}
    for number in range(rng.randint(1, 9 if vast else 6 if deep else 4)):
        plan['accounts'].append(gen_account(
            rng, prop, 'a%d' % number, rng.choice(pool), people, year, years,
            share_inputs, groups))
    if prop == 'P28' or prop in ('P02', 'P04', 'P05', 'P27') and (
            rng.random() < 0.15):
        plan['market'] = gen_market(rng, 2 * years + 4)
        plan['allocations'] = [
            gen_allocation(
                rng, ALLOCATIONS + ['Client']) for _ in range(rng.randint(1, 3))]
        for spec in plan['accounts']:
            if spec['type'] != 'Debt' and rng.random() < 0.8:
                spec['alloc'] = rng.randrange(3)
    # What is zero may be left out, and plain numbers may be given.
    plan['bare'] = rng.random() < 0.3
    plan['plain'] = rng.random() < 0.3
    plan['retold'] = rng.random() < 0.2
    gen_ops(rng, prop, plan, years, deep, share_inputs, groups)
    if prop == 'P07' and rng.random() < 0.4:
        crowd(rng, plan)
    unshare_room_inputs(plan)
    return plan


def crowd(rng, plan):
    """ Many transactions, and questions, under one limit. """
    which = rng.choice(FLOWS)
    sign = -1 if 'outflow' in which else 1
    limit = money(rng, 1000, 15000)
    for spec in plan['accounts']:
        if spec['type'] == 'LinkedLimitAccount':
            spec['links'][which] = [plan['people'][0]['id'], 'crowd', limit]
            spec['balance'] = money(rng, 5000, 100000)
            limit = None
    for op in plan['ops']:
        if op[0] == 'tx' and rng.random() < 0.8:
            op[2] = sign * money(rng, 1, 1500)
        elif op[0] in ('query', 'apply', 'scalar') and rng.random() < 0.7:
            op[2] = which
            if op[0] != 'scalar' and rng.random() < 0.7:
                op[4] = op[5] = None


def unshare_room_inputs(plan):
    """ At most one account in each group has contribution room inputs. """
    seen = set()
    for spec in plan['accounts'] + [
            op[1] for op in plan['ops'] if op[0] == 'open']:
        key = (spec['type'], spec.get('contributor') or spec['owner'],
               spec.get('token'))
        if 'contribution_room' in spec['inputs']:
            if key in seen:
                del spec['inputs']['contribution_room']
            seen.add(key)


def gen_account(rng, prop, name, kind, people, year, years, share, groups):
    owner = rng.choice(people)
    spec = {
        'id': name, 'type': kind, 'owner': owner,
        'balance': rng.choice([0.0, money(rng, 10, 1000),
                               money(rng, 1000, 100000)]),
        'rate': gen_rate(rng, years, kind != 'Debt'),
        'rate_call': rng.random() < 0.5,
        'nper': rng.choice([None, 'C', 'M', 'A', 'Q', 4, 2, rng.choice(
            ['D', 'W', 'BW', 'SM', 'BM', 'SA', 1, 3, 365])]),
        'timing': rng.choice([None, None, gen_timing(rng)]),
        'inputs': gen_inputs(rng, kind, year, years, share)}
    if kind == 'TaxableAccount':
        spec['balance'] = money(rng, 1000, 100000)
        spec['acb'] = rng.choice(
            [None, money(rng, 0, 1.3 * spec['balance'])])
        # A taxable account which is already overdrawn is out of scope.
        for dropped in ('balance', 'transactions'):
            spec['inputs'].pop(dropped, None)
    elif kind == 'Debt':
        spec['balance'] = rng.choice([-1, 1]) * spec['balance']
        spec['minpay'] = rng.choice([0, money(rng, 1, 500)])
        spec['accel'] = rng.choice([None, 0, money(rng, 1, 2000)])
    elif kind in ('RRSP', 'TFSA'):
        if kind == 'RRSP':
            if rng.random() < 0.4:
                spec['contributor'] = rng.choice(people)
            spec['conversion'] = None
            if rng.random() < 0.3:
                # Resolved against the latest lawful year when built.
                spec['conversion_early'] = rng.randint(0, 12)
        if rng.random() < 0.5:
            spec['room'] = money(rng, 0, 30000)
        elif kind == 'TFSA' and rng.random() < (
                0.3 if prop in ('P06', 'P03') else 0.1):
            # Room known as of some earlier year.
            spec['inputs'].setdefault('contribution_room', {})[
                str(year - rng.randint(1, 9))] = money(rng, 0, 30000)
            spec['past'] = True
        if rng.random() < 0.1:
            spec['token'] = 'own-' + name
        # Shared room may be spelled in the terms of linked accounts.
        spec['alias'] = rng.choice(
            [None, None, ['limit'], ['link'], ['limit', 'link', 'object']])
        if prop != 'P03' and rng.random() < 0.7 and 'past' not in spec:
            spec['inputs'].pop('contribution_room', None)
    elif kind == 'LinkedLimitAccount':
        spec['links'] = {}
        for which in FLOWS:
            if rng.random() < (0.6 if prop == 'P07' else 0.35):
                token = rng.choice(['x', 'x', 'y'])
                who = rng.choice(people)
                limit = None
                if (who, which, token) not in groups or rng.random() < 0.2:
                    limit = rng.choice(
                        [money(rng, 0, 3000), money(rng, 0, 20000)])
                groups[(who, which, token)] = True
                spec['links'][which] = [who, token, limit]
    return spec


def gen_ops(rng, prop, plan, years, deep, share_inputs, groups):
    """ A schedule of operations, reads, faults and year-ends. """
    people = [p['id'] for p in plan['people']]
    accounts = [a['id'] for a in plan['accounts']]
    opens = rng.choice([0, 0, 0.3] if prop != 'P32' else [0.3, 0.7])
    kinds = {a['id']: a['type'] for a in plan['accounts']}
    ops = plan['ops']
    read_share = rng.choice([0.1, 0.4, 0.8])
    fault_share = rng.choice([0, 0, 0.5])
    skip = 0.06 if prop == 'P05' else 0

    def tx_op():
        name = rng.choice(accounts)
        when = rng.choice([0, 0.1, 0.25, 0.5, 0.75, 1, 'start', 'end'])
        value = rng.choice([
            money(rng, 1, 900), money(rng, 1, 9000), -money(rng, 1, 900),
            -money(rng, 1, 20000), 0, 0.5])
        if prop == 'P10' and rng.random() < 0.15:
            value = -rng.choice([5000, 15000])
        if kinds[name] == 'Debt':
            value = abs(value)
        return name, when, value
    if prop in ('P07', 'P08', 'P10') and years > 1:
        years = max(2, years - 1)
    for number in range(years):
        opening = number and rng.random() < opens
        for _ in range(rng.randint(0, 7)):
            roll = rng.random()
            if opening and rng.random() < 0.3:
                opening = False
                spec = gen_account(
                    rng, prop, 'n%d' % number,
                    rng.choice(TYPES.get(prop, TYPES['P01'])), people,
                    plan['year'] + number, years, share_inputs, groups)
                if 'market' in plan and spec['type'] != 'Debt' and (
                        rng.random() < 0.8):
                    spec['alloc'] = rng.randrange(3)
                ops.append(['open', spec])
                accounts.append(spec['id'])
                kinds[spec['id']] = spec['type']
                continue
            if roll < read_share * 0.6:
                obj = rng.choice(people + accounts)
                style = rng.choice(['read', 'read', 'hist', 'all'])
                if rng.random() < fault_share:
                    ops.append(rng.choice([
                        ['arm', rng.choice([obj, obj, 'infl']),
                         rng.choice([1, 1, 2])],
                        ['interrupt', gen_interrupt(rng, 60)]]))
                    style = rng.choice(['all', 'hist', style])
                ops.append([style, obj, rng.randint(0, 40)])
                continue
            if rng.random() < {'P32': 0.5, 'P02': 0.03, 'P04': 0.03}.get(
                    prop, 0):
                ops.append(rng.choice([
                    ['move', rng.choice(accounts), rng.choice(people)],
                    ['marry', rng.choice(people),
                     rng.choice(people + [None])],
                    ['refuse', rng.choice(people + accounts),
                     rng.randint(0, 40)]]))
                continue
            if rng.random() < {'P26': 0.15, 'P28': 0.1, 'P01': 0.03,
                               'P02': 0.02, 'P04': 0.03}.get(prop, 0):
                name = rng.choice(people + accounts)
                ops.append(['terms', name, None if name in people
                            and rng.random() < 0.2 else gen_rate(
                                rng, years, name not in people),
                            rng.random() < 0.5])
                continue
            if rng.random() < {'P02': 0.06, 'P01': 0.02, 'P26': 0.04,
                               'P09': 0.02, 'P28': 0.03}.get(prop, 0):
                ops.append(['forget', rng.choice(people + accounts),
                            rng.choice([None, None, rng.randint(0, 20)])])
                continue
            if rng.random() < {'P26': 0.06, 'P28': 0.08, 'P32': 0.04}.get(
                    prop, 0):
                ops.append(['retire', rng.choice(people),
                            rng.randint(-2, 8), '%02d-%02d' % (
                                rng.randint(1, 12), rng.randint(1, 28)),
                            rng.choice([False, False, True, 'year'])])
                continue
            if rng.random() < {'P08': 0.08, 'P32': 0.05, 'P07': 0.03,
                               'P04': 0.02, 'P27': 0.05}.get(prop, 0):
                ops.append(['schedule', rng.choice(accounts), rng.choice(
                    [None, gen_timing(rng), gen_timing(rng)]),
                            rng.choice([False, False, True, 'edit'])])
                continue
            if rng.random() < {'P07': 0.06, 'P32': 0.04, 'P08': 0.02}.get(
                    prop, 0):
                ops.append(['regroup', rng.choice(accounts), rng.choice(FLOWS),
                            rng.choice(accounts),
                            rng.choice(['same', 'link', 'pair'])])
                continue
            if rng.random() < {'P08': 0.06, 'P27': 0.02}.get(prop, 0):
                ops.append(['pay', rng.choice(accounts), rng.choice(
                    [0, money(rng, 1, 2000)]), rng.choice(
                        [None, 0, money(rng, 1, 20000)])])
                continue
            roll = rng.random()
            if roll < 0.45:
                name, when, value = tx_op()
                ops.append(['tx', name, value, when])
            elif roll < 0.50:
                name, when, value = tx_op()
                ops.append(['set', name, value, when])
            elif roll < 0.55:
                ops.append(['del', rng.choice(accounts), rng.randint(0, 5),
                            rng.random() < 0.5])
            elif roll < 0.57:
                ops.append(['clear', rng.choice(accounts)])
            elif roll < 0.61 and prop in ('P03', 'P01', 'P02', 'P06'):
                ops.append(['assign', rng.choice(people + accounts),
                            rng.randint(0, 40), money(rng, 1, 5000),
                            rng.random() < 0.3])
            elif roll < 0.66 and prop == 'P28':
                ops.append(['allocate', rng.randrange(3), rng.choice(people),
                            rng.randint(18, 100), rng.randint(40, 80)])
            elif roll < 0.66 and prop in ('P30', 'P27') or (
                    roll < 0.62 and prop in ('P01', 'P04')):
                ops.append(['reach', rng.choice(accounts),
                            rng.choice(['times', 'value', 'at', 'now']),
                            round(rng.choice([
                                rng.uniform(0.9, 1.1), rng.uniform(0, 2.5),
                                rng.random() ** 4 * 100]), 5),
                            rng.choice([0, 0, 0.25, 0.5, 0.75,
                                        round(rng.random(), 3)])])
            elif roll < 0.63:
                ops.append([rng.choice(['item', 'at']), rng.choice(accounts),
                            rng.choice([0, 0.1, 0.25, 0.3, 0.5, 0.75, 1,
                                        'start', 'end', 'end']), rng.choice([
                                None, None, [[w, rng.choice([-1, 1]) *
                                              money(rng, 1, 2000)]
                                             for w in rng.sample(
                                    [0, 0.25, 0.5, 1], rng.randint(1, 2))]])])
            elif roll < 0.66:
                ops.append(['room', rng.choice(accounts),
                            money(rng, 0, 20000)])
            elif roll < 0.71:
                ops.append(['convert', rng.choice(accounts),
                            rng.choice([None, 0, 1, -1, 5, 40])])
            elif roll < (0.88 if prop in ('P07', 'P08') else 0.82):
                extra = None
                if rng.random() < (0.5 if prop == 'P07' else 0.25):
                    extra = [[w, rng.choice([-1, 1]) * money(rng, 1, 2000)]
                             for w in rng.sample([0, 0.25, 0.5, 1],
                                                 rng.randint(1, 2))]
                ops.append([
                    rng.choice(['query', 'query', 'apply'])
                    if prop in ('P07', 'P08') else 'query',
                    rng.choice(accounts), rng.choice(FLOWS),
                    rng.choice([None, gen_timing(rng), gen_timing(rng)]),
                    rng.choice([None, None, money(rng, 0, 5000)]),
                    rng.choice([None, None, None, money(rng, 0, 5000)]),
                    extra,
                    rng.choice([False, 1, 2] if prop == 'P07'
                               else [False, False, 1, 2])])
            elif roll < 0.95:
                ops.append(['scalar', rng.choice(accounts),
                            rng.choice(FLOWS),
                            rng.choice([0, 0.25, 0.5, 1, 'end'])])
            else:
                ops.append(['bad', rng.choice(accounts),
                            rng.choice([-0.5, 1.5, 2])])
        order = people + accounts
        style = rng.random()
        if style < 0.25:
            rng.shuffle(order)
        elif style < 0.6:
            tail = list(accounts)
            rng.shuffle(tail)
            order = people + tail
        elif style < 0.8:
            tail, head = list(accounts), list(people)
            rng.shuffle(tail)
            rng.shuffle(head)
            order = tail + head
        steps = 2 if rng.random() < skip else 1
        ops.append(['year', order, steps, rng.random() < 0.4])
        if number == years - 1 and rng.random() < 0.7:
            name, when, value = tx_op()
            ops.append(['tx', name, value, when])


class Run:
    """ One execution of a plan. """

    def __init__(self, plan, prop, ops=None, canonical=False):
        self.plan = plan
        self.prop = prop
        self.ops = plan['ops'] if ops is None else ops
        self.canonical = canonical
        self.arms = {}
        self.interrupt = 0
        self.model = Model(plan)
        self.real = {}
        self.snapshots = {}
        self.steps = 0
        self.renewed = None  # (The last year in which terms changed.)
        self.strategies = []
        self.skewed = False   # people's sums were recorded out of step
        self.build()

    def num(self, val):
        if val is None:
            return None
        if self.plan['mode'] == 'd':
            return Decimal(str(val))
        return val

    def moment(self, when):
        """ A time as a client may give it. """
        if isinstance(when, str) or self.prop == 'P27':
            return when
        return self.num(when)

    def exact(self, name, what, val):
        """ In high precision, answers are of that kind. """
        if self.prop == 'P27':
            exact(name, what, val, self.model.year)

    def series(self, given):
        return {self.num(w): self.num(v) for w, v in given}

    def timing(self, val):
        if isinstance(val, list):
            return self.series(val)
        return val if isinstance(val, str) else self.num(val)

    # --- building ---
    def build_inputs(self, spec):
        result = {}
        for prop, years in spec.get('inputs', {}).items():
            result[prop] = {
                int(y): (self.series(v) if isinstance(v, list)
                         else self.num(v)) for y, v in years.items()}
        return result

    def per_year(self, spec, val, call):
        """ A rate given as a constant, a dict or a callable. """
        initial = self.plan['year']
        if not isinstance(val, list) and not call:
            # (A constant raise is converted, if need be.)
            return val if self.plan.get('plain') and val is spec.get(
                'raises') else self.num(val)
        if isinstance(val, list) and not call:
            return {y: self.num(yearly(val, y, initial))
                    for y in range(initial, initial + 60)}
        return Callable(self, spec['id'], lambda year: self.num(
            yearly(val, year, initial)))

    def inflate(self, target, base=None):
        return self.num(self.model.inflation(target, base))

    def build_strategies(self):
        """ How accounts are invested, and what that earns. """
        if 'market' not in self.plan:
            return
        from forecaster.scenario import Scenario
        from forecaster.strategy import AllocationStrategy
        from forecaster.strategy.base import strategy_method
        from forecaster.strategy.allocation import AssetAllocation
        world, year = self, self.plan['year']

        class Client(AllocationStrategy):
            """ With a strategy of the client's own. """
            @strategy_method('Client')
            def client(self, age, *_args, **_kwargs):
                stocks, bonds = (world.num(v) for v in self.ask(age))
                return AssetAllocation(stocks, bonds, 1 - stocks - bonds)
        self.scenario = Scenario(year, 40, **returns_of(
            self.plan['market'], year, self.num))
        for number, spec in enumerate(self.plan['allocations']):
            strategy = allocator(
                Client, spec, (lambda v: v) if self.plan.get('plain')
                else self.num,
                Decimal if self.plan['mode'] == 'd' else None,
                self.plan.get('retold'))
            strategy.ask = Callable(
                self, 'alloc%d' % number,
                lambda age, table=spec['table']: table[age % len(table)])
            self.strategies.append(strategy)

    def strategy(self, index):
        return self.strategies[index % len(self.strategies)]

    def op_allocate(self, index, name, age, retirement_age):
        """ Asks how to invest at some age. """
        if not self.strategies:
            return
        got = self.guarded(lambda: self.strategy(index)(
            age, retirement_age=retirement_age))
        SIM.event('allocate', index, freeze(list(got)))
        expected = self.model.allocation(index, age, retirement_age)
        for have, want in zip(got, expected):
            require_close(have, want, 'allocation', 'share at %d' % age)
        require_close(sum(got), 1, 'allocation', 'shares at %d' % age)

    def treatment(self, spec):
        if spec.get('treatment') is None:
            return None
        rate, floor = spec['treatment']

        def treat(income, _year):
            return max(income - self.num(floor), self.num(0)) * self.num(rate)
        return Callable(self, spec['id'], treat)

    def build(self):
        from forecaster.person import Person
        high = Decimal if self.plan['mode'] == 'd' else None
        self.inflation_callable = Callable(self, 'infl', self.inflate)
        self.build_strategies()
        for spec in self.plan['people']:
            spouse = None
            if spec.get('spouse') and 'p0' in self.real:
                spouse = self.real['p0']
                self.model.people[spec['id']].marry(self.model.people['p0'])
            pay = {'gross_income': self.num(spec['income']),
                   'raise_rate': self.per_year(
                       spec, spec['raises'], spec['raise_call'])}
            if self.plan.get('bare'):
                for key, of in (('gross_income', 'income'),
                                ('raise_rate', 'raises')):
                    if spec[of] == 0:
                        del pay[key]
            self.real[spec['id']] = Person(
                self.plan['year'], spec['id'], entered_date(spec, 'birth'),
                retirement_date=entered_date(spec, 'retire'), **pay,
                spouse=spouse, tax_treatment=self.treatment(spec),
                inputs=self.build_inputs(spec), high_precision=high)
        for spec in self.plan['accounts']:
            self.build_account(spec)
        self.ids = list(self.real)
        SIM.event('built', self.ids)

    def build_account(self, spec):
        """ Opens an account. """
        from forecaster.accounts import Account, Debt, LinkedLimitAccount
        from forecaster.canada import accounts as canada
        high = Decimal if self.plan['mode'] == 'd' else None
        if spec['owner'] not in self.real:
            return
        if spec.get('contributor') not in self.real:
            spec['contributor'] = None
        owner = self.real[spec['owner']]
        kwargs = dict(
            balance=self.num(spec['balance']),
            rate=self.per_year(spec, spec['rate'], spec['rate_call'])
            if 'alloc' not in spec else self.strategy(
                spec['alloc']).rate_function(owner, self.scenario),
            nper=spec['nper'], inputs=self.build_inputs(spec),
            high_precision=high)
        if self.plan.get('bare'):
            for key in ('balance', 'rate'):
                if spec[key] == 0 and (key != 'rate' or 'alloc' not in spec):
                    del kwargs[key]
        if 'opened' in spec:
            kwargs['initial_year'] = spec['opened']
        if spec['timing'] is not None:
            kwargs['default_timing'] = self.timing(spec['timing'])
        kind = spec['type']
        if kind == 'Account':
            cls = Account
        elif kind == 'Debt':
            cls = Debt
            kwargs['minimum_payment'] = self.num(spec['minpay'])
            kwargs['accelerated_payment'] = self.num(
                spec['accel'] if spec['accel'] is not None else 'Infinity'
            ) if high else (
                spec['accel'] if spec['accel'] is not None else INF)
        elif kind == 'LinkedLimitAccount':
            cls = LinkedLimitAccount
            spec['links'] = {
                w: link for w, link in spec['links'].items()
                if link[0] in self.real and (
                    link[2] is not None or
                    (link[0], w + link[1]) in self.model.groups)}
            for which, (who, token, limit) in spec['links'].items():
                if limit is not None and 'outflow' in which:
                    limit = -limit
                kwargs[which + '_link'] = (
                    self.real[who], which + token)
                kwargs[which + '_limit'] = self.num(limit)
        else:
            cls = getattr(canada, kind)
            if kind == 'TaxableAccount':
                kwargs['acb'] = self.num(spec['acb'])
            elif kind in ('RRSP', 'TFSA'):
                kwargs['inflation_adjust'] = self.inflation_callable
                kwargs['contribution_room'] = self.num(spec.get('room'))
                if spec.get('contributor'):
                    kwargs['contributor'] = self.real[
                        spec['contributor']]
                if spec.get('token'):
                    kwargs['max_inflow_token'] = spec['token']
                self.alias(kind, owner, spec.get('alias') or (), kwargs)
                if kind == 'RRSP' and spec.get(
                        'conversion_early') is not None:
                    person = self.model.people[spec['owner']]
                    spec['conversion'] = (
                        self.plan['year'] + 71 - person.age(
                            self.plan['year'])
                        - spec['conversion_early'])
                    kwargs['rrif_conversion_year'] = spec['conversion']
        self.real[spec['id']] = cls(owner, **kwargs)
        self.model.add_account(spec)
        if kind == 'TFSA' and spec.get('room') is None:
            self.resync_initial(spec)

    def account(self, name):
        """ (real, model) account of that name, or (None, None). """
        if name in self.real and name in self.model.accounts:
            return self.real[name], self.model.accounts[name]
        return None, None

    def entity(self, name):
        if name in self.model.people:
            return self.model.people[name]
        return self.model.accounts.get(name)

    # --- operations ---
    def guarded(self, func):
        """ Runs a read; if the client's code fails or the read is
        interrupted, runs it again. """
        count, self.interrupt = self.interrupt, 0
        try:
            if count:
                with Interrupter(count):
                    return func()
            return func()
        except (ClientFault, Interrupt) as exc:
            SIM.event('fault', type(exc).__name__)
            SIM.probe('retried_read')
            self.arms.clear()
            return func()

    def run(self):
        for number, op in enumerate(self.ops):
            name = op[0]
            if name not in ('read', 'hist', 'all', 'arm', 'interrupt',
                            'query', 'scalar', 'item', 'at', 'reach',
                            'allocate'):
                self.arms.clear()
                self.interrupt = 0
            SIM.op(name)
            SIM.event(number, op)
            getattr(self, 'op_' + name)(*op[1:])
            self.after(op)
        self.finish()

    @staticmethod
    def alias(kind, owner, how, kwargs):
        """ Spells an account's shared room in other terms. """
        from forecaster.accounts.link import AccountLink
        if 'limit' in how:
            kwargs['max_inflow_limit'] = kwargs.pop('contribution_room')
        if 'link' in how:
            link = (kwargs.pop('contributor', owner),
                    kwargs.pop('max_inflow_token', kind + '.max_inflow'))
            kwargs['max_inflow_link'] = AccountLink(
                link, default_factory=lambda: None) if 'object' in how else (
                    link)

    def op_open(self, spec):
        """ Someone opens an account in the course of the plan. """
        year = self.model.year
        if spec['id'] in self.real:
            return
        spec = dict(spec, opened=year)
        spec['inputs'] = {
            p: {y: v for y, v in vals.items() if int(y) > year or (
                p == 'contribution_room' and int(y) < year)}
            for p, vals in spec['inputs'].items()}
        if spec.get('room') is not None and spec['type'] in ('RRSP', 'TFSA'):
            group = self.model.group(
                spec.get('contributor') or spec['owner'],
                spec.get('token') or spec['type'])
            if any(m.inp('contribution_room', year) is not None
                   for m in group.members):
                spec['room'] = None  # (See `op_room`.)
        # (Retirement may have been planned anew this year already.)
        holder = self.model.people.get(spec['owner'])
        if holder is not None and holder.spec.get('retirements'):
            spec['retiring_at'] = holder.retirement_age(year + 1)
        self.build_account(spec)
        if spec['id'] in self.real:
            _ = self.real[spec['id']].rate
        SIM.probe('opened_later')

    def op_move(self, name, owner):
        """ An account changes hands. """
        real, model = self.account(name)
        if real is None or owner not in self.real or model.type == 'TFSA':
            return
        real.owner = self.real[owner]
        model.move(self.model.people[owner])

    def op_marry(self, name, other):
        """ A marriage (or the end of one). """
        if name == other or name not in self.real or (
                other is not None and other not in self.real):
            return
        self.real[name].spouse = None if other is None else self.real[other]
        self.model.people[name].marry(
            None if other is None else self.model.people[other])

    def op_terms(self, name, val, call):
        """ Someone's raises or an account's rate are set anew. """
        if name not in self.real:
            return
        obj, year = self.real[name], self.model.year
        self.renewed = year
        person = name in self.model.people
        model = (self.model.people if person else self.model.accounts)[name]
        if not person and model.type == 'Debt':
            val = [max(v, 0) for v in val] if isinstance(
                val, list) else max(val, 0)
        # (This year's is settled when first asked for.)
        getattr(obj, 'raise_rate' if person else 'rate')
        new = None if val is None else self.per_year(
            {'id': name}, val, call)
        setattr(obj, 'raise_rate_callable' if person else 'rate_callable',
                new)
        model.spec.setdefault('terms', []).append(
            [year + 1, 0 if val is None else val])
        SIM.probe('new_terms')

    def op_schedule(self, name, timing, ready):
        """ An account's default schedule is set anew (or dropped). """
        real, model = self.account(name)
        if real is None:
            return
        if timing is None:
            del real.default_timing
        else:
            given = self.timing(timing)
            if ready:
                from forecaster.utility import Timing
                given = Timing(given, high_precision=real.high_precision)
            if ready == 'edit':
                real.default_timing.clear()
                real.default_timing.update(given)
            else:
                real.default_timing = given
        model.spec['timing'] = timing
        SIM.probe('new_schedule')

    def op_regroup(self, name, which, other, how):
        """ An account leaves the limit which it shares, or joins another. """
        real, model = self.account(name)
        if real is None or model.type != 'LinkedLimitAccount':
            return
        attr = which + '_link'
        link = getattr(real, attr)
        if link is not None:
            link.unlink_account(real)
            setattr(real, attr, None)
            model.groups.pop(which).members.remove(model)
            SIM.probe('left_limit')
            return
        peer, peer_model = self.account(other)
        if peer is None or peer_model.type != 'LinkedLimitAccount' or (
                which not in peer_model.groups):
            return
        from forecaster.accounts.link import AccountLink
        link = getattr(peer, attr)
        if how != 'same':
            link = AccountLink(
                link if how == 'link' else (link.owner, link.token))
        link.link_account(real)
        setattr(real, attr, link)
        model.groups[which] = peer_model.groups[which]
        model.groups[which].members.append(model)
        SIM.probe('joined_limit')

    def op_pay(self, name, least, more):
        """ A debt's payments are agreed on anew. """
        real, model = self.account(name)
        if real is None or model.type != 'Debt':
            return
        real.minimum_payment = self.num(least)
        real.accelerated_payment = (
            self.num(more) if more is not None
            else self.num('Infinity') if self.plan['mode'] == 'd' else INF)
        model.spec['minpay'], model.spec['accel'] = least, more
        SIM.probe('new_payments')

    def op_forget(self, name, pick):
        """ What is remembered of this year is worked out anew. """
        if name not in self.real or self.entity(name) is None:
            return
        obj, year = self.real[name], self.model.year
        # (In someone's first year, that's what they were given.)
        if self.entity(name).first >= year or self.renewed == year:
            return
        props = [p for p in self.props(name) if p in (
            'balance', 'rate', 'capital_gain', 'gross_income', 'net_income',
            'raise_rate')]
        # (An account's cost base is entered as its year begins, too.)
        if pick is None and 'capital_gain' not in props:
            self.guarded(obj.clear_cache)
        else:
            pick = pick or 0
            self.guarded(lambda: delattr(obj, props[pick % len(props)]))
        SIM.probe('forgotten')

    def op_retire(self, name, later, day, by_age):
        """ Someone will retire at another time than planned so far. """
        if name not in self.real:
            return
        obj, model = self.real[name], self.model.people[name]
        self.renewed = year = self.model.year
        # (This year's incomes and rates are settled when first asked for.)
        self.guarded(lambda: [obj.gross_income] + [
            self.real[account].rate for account in self.model.accounts])
        model.gross_income(year)
        birth = model.spec['birth']
        date = '%d-%s' % (max(year + later, int(birth[:4]) + 1), day)
        if by_age == 'year':
            date = lasting(date[:4] + birth[4:])
            obj.retirement_date = date[:4]
        elif by_age:
            age = int(date[:4]) - int(birth[:4])
            date = lasting(date[:4] + birth[4:])
            obj.retirement_age = age
        else:
            obj.retirement_date = date
        model.spec.setdefault('retirements', []).append([year + 1, date])
        SIM.probe('new_retirement')
        require(str(obj.retirement_date.date()) == date and
                obj.retirement_age == model.retirement_age(year + 1),
                'retirement', '%s, set to retire on %s, retires on %s at %s',
                name, date, obj.retirement_date, obj.retirement_age)

    def op_refuse(self, name, pick):
        """ Something impossible is asked for. """
        if name not in self.real:
            return
        obj = self.real[name]
        if name in self.model.people:
            wrong = [('spouse', 'nobody'), ('spouse', 3),
                     ('tax_treatment', 0.2), ('retirement_date', None),
                     ('retirement_date', '1850-01-01'),
                     ('retirement_date', 'whenever'),
                     ('retirement_age', -3), ('birth_date', 'whenever')]
        else:
            wrong = [('owner', 'nobody'), ('owner', 3),
                     ('default_timing', 'whenever'), ('default_timing', 2),
                     ('nper', 'whenever'), ('add', 1.5), ('add', -0.1),
                     ('add', 'whenever'), ('del', 0.123)]
            if self.model.accounts[name].type == 'RRSP':
                wrong += [('rrif_conversion_year', 2999),
                          ('rrif_conversion_year', 'whenever')]
        what, value = wrong[pick % len(wrong)]
        before = self.whole()
        try:
            if what == 'add':
                obj.add_transaction(self.num(10), value)
            elif what == 'del':
                del obj[value]
            else:
                setattr(obj, what, value)
        except (TypeError, ValueError, NotImplementedError, KeyError) as exc:
            SIM.fault('rejected_call')
            SIM.event('refused', type(exc).__name__)
        else:
            require(self.prop != 'P32', 'not-refused',
                    '%s.%s of %s was accepted', name, what, value)
        if self.prop == 'P32':
            after = self.whole()
            for key in before:
                require(before[key] == after[key], 'refused-change',
                        '%s is %s after %s of %s for %s was refused; it was '
                        '%s', key, show(after[key]), what, value, name,
                        show(before[key]))

    def name_of(self, obj):
        return next((n for n, o in self.real.items() if o is obj), None)

    def relations(self):
        """ Who belongs to whom. """
        result = {}
        for name, obj in self.real.items():
            if name in self.model.people:
                result[name, 'spouse'] = self.name_of(obj.spouse)
                result[name, 'accounts'] = sorted(
                    self.name_of(a) for a in obj.accounts)
                continue
            result[name, 'owner'] = self.name_of(obj.owner)
            for which in FLOWS:
                link = getattr(obj, which + '_link', None)
                result[name, which] = link and sorted(
                    self.name_of(a) for a in link.group)
        return result

    def whole(self):
        """ Everything about everyone. """
        result = self.relations()
        for name, obj in self.real.items():
            for prop in self.props(name):
                result[name, prop] = freeze(getattr(obj, prop))
            for attr in ('retirement_date', 'birth_date', 'retirement_age',
                         'tax_treatment', 'default_timing', 'nper',
                         'rrif_conversion_year') + tuple(
                             w + '_limit' for w in FLOWS):
                if hasattr(obj, attr):
                    result[name, attr] = repr(getattr(obj, attr))
        return result

    def check_relations(self):
        actual, expected = self.relations(), {}
        for name, person in self.model.people.items():
            if name in self.real:
                expected[name, 'spouse'] = person.spouse and person.spouse.id
                expected[name, 'accounts'] = sorted(
                    a.id for a in person.accounts)
        for name, account in self.model.accounts.items():
            expected[name, 'owner'] = account.owner.id
            for which in FLOWS:
                group = account.groups.get(which)
                expected[name, which] = group and sorted(
                    m.id for m in group.members)
        for key in sorted(actual):
            require(actual[key] == expected[key], 'relation:' + (
                key[1] if key[1] in ('spouse', 'owner', 'accounts')
                else 'group'), '%s: %s is %s, not %s', key[0], key[1],
                actual[key], expected[key])

    def op_arm(self, name, count):
        self.arms[name] = count

    def op_interrupt(self, count):
        self.interrupt = count

    def op_tx(self, name, value, when):
        real, model = self.account(name)
        if real is None or model.inp('transactions', self.model.year):
            return
        time = {'start': 0.0, 'end': 1.0}.get(when, when)
        time = float(time)
        old = dict(model.tx)
        model.tx[time] = model.tx.get(time, 0.0) + value
        if model.type == 'TaxableAccount' and not model.feasible(
                self.model.year):
            model.tx = old
            return
        real.add_transaction(
            self.num(value),
            self.moment(when))

    def op_set(self, name, value, when):
        real, model = self.account(name)
        if real is None or model.inp('transactions', self.model.year):
            return
        old = dict(model.tx)
        model.tx[self.time(when)] = value
        if model.type == 'TaxableAccount' and not model.feasible(
                self.model.year):
            model.tx = old
            return
        real[self.moment(when)] = self.num(
            value)

    @staticmethod
    def time(when):
        return float({'start': 0, 'end': 1}.get(when, when))

    def op_item(self, name, when, extra):
        """ Looks at one transaction, and at totals of them. """
        real, model = self.account(name)
        if real is None or model.inp('transactions', self.model.year):
            return
        key = self.moment(when)
        found = self.guarded(lambda: [
            real[key], real.get(key, self.num(0)), key in real, len(real),
            list(real), dict(zip(real.keys(), real.values())),
            dict(real.items())])
        SIM.event(name, 'item', freeze(found))
        flows = self.guarded(lambda: [
            real.inflows(extra and self.series(extra)),
            real.outflows(extra and self.series(extra))])
        SIM.event(name, 'flows', freeze(flows))
        self.exact(name, 'flows', {i: v for i, v in enumerate(flows)})
        if self.prop not in ('P01', 'P04'):
            return
        value = model.tx.get(self.time(when), 0)
        for got in found[:2]:
            require_close(got, value, 'item', '%s[%s]' % (name, when))
        require(not value or found[2], 'item', '%s has no transaction at %s',
                name, when)
        require(found[4] == sorted(found[4]) and len(found[4]) == found[3] and
                set(nonzero(model.tx, 0)) <= {float(w) for w in found[4]} and
                {float(w) for w in found[4]} <= set(model.tx),
                'items', '%s lists transactions at %s, not %s', name,
                found[4], sorted(model.tx))
        for pairs in found[5:]:
            require(list(pairs) == found[4] or set(pairs) == set(found[4]),
                    'items', '%s has transactions at %s, and at %s', name,
                    list(pairs), found[4])
            require(series_close(pairs, model.tx), 'items', '%s has '
                    'transactions %s, not %s', name, show(pairs),
                    show(model.tx))
        more = {float(w): v for w, v in extra or []}
        require_close(flows[0], model.inflows(self.model.year, more),
                      'inflows', name)
        require_close(flows[1], model.outflows(self.model.year, more),
                      'outflows', name)

    def op_at(self, name, when, extra):
        """ Looks at the balance during the year. """
        real, model = self.account(name)
        if real is None:
            return
        given = extra and self.series(extra)
        value = self.guarded(lambda: real.balance_at_time(
            self.moment(when), given))
        SIM.event(name, 'at', freeze(value))
        self.exact(name, 'balance_at_time', value)
        if self.prop in ('P01', 'P04', 'P08'):
            require(given == (extra and self.series(extra)),
                    'argument-changed', '%s.balance_at_time changed its '
                    'arguments', name)
            more = {float(w): v for w, v in extra or []}
            expected = model.balance_at(
                self.time(when), self.model.year, more)
            require_close(
                value, expected, 'balance-at', '%s at %s' % (name, when),
                scale=abs(model.balance(self.model.year)))

    def op_reach(self, name, how, value, when):
        """ Asks when there will be some balance. """
        real, model = self.account(name)
        if real is None:
            return
        year = self.model.year
        if how == 'times':
            value = model.balance_at(when, year) * value
        elif how == 'at':
            value = model.balance_at(min(value / 2, 1.0), year)
        else:
            value *= 1000 if model.type != 'Debt' else -1000
        value = round(value, 4)
        if how == 'now':
            value = self.guarded(
                lambda: real.balance_at_time(self.moment(when)))
        since = (self.moment(when),)
        if when == 0 and int(abs(value)) % 2:
            since = ()  # from the start, then
        found = self.guarded(lambda: real.time_to_balance(
            value if how == 'now' else self.num(value), *since))
        SIM.event(name, 'reach', freeze(found))
        self.exact(name, 'time_to_balance', found)
        if self.prop not in ('P30', 'P01', 'P04'):
            return
        expected = float(self.moment(when)) if how == 'now' else (
            model.reach(value, when, year))
        if expected is None:
            return
        SIM.probe('reached' if expected < INF else 'never_reached')
        if expected == INF or float(found) == INF:
            good = float(found) == expected
        else:
            good = abs(float(found) - expected) < 1e-5 * max(1, expected)
        require(good, 'reach', '%s reaches %s from %s at %s, not %s', name,
                value, when, expected, found)
        if how == 'now' or not float(self.moment(when)) < float(
                found) < 1 or found in real or model.inp(
                    'transactions', year):
            return
        # It's the same with a transaction of nothing at just that time.
        SIM.probe('reached_again')
        real.add_transaction(self.num(0), found)
        start = self.moment(when)
        again = [real.time_to_balance(self.num(value), then) for then in (
            start, start + (found - start) / 3, start + (found - start) / 2)]
        del real[found]
        require(all(abs(float(a) - float(found)) < 1e-5 for a in again),
                'reach', '%s reaches %s from %s at %s, but from times up to '
                'then at %s once nothing is added then', name, value, when,
                found, again)

    def op_del(self, name, index, named=False):
        real, model = self.account(name)
        if real is None or not model.tx or model.inp(
                'transactions', self.model.year):
            return
        whens = sorted(model.tx)
        when = whens[index % len(whens)]
        old = dict(model.tx)
        del model.tx[when]
        if model.type == 'TaxableAccount' and not model.feasible(
                self.model.year):
            model.tx = old
            return
        key = {0.0: 'start', 1.0: 'end'}.get(when, when)
        if not named or not isinstance(key, str):
            key = next((w for w in real if float(w) == when), self.moment(when))
        del real[key]

    def op_clear(self, name):
        real, model = self.account(name)
        if real is None or model.inp('transactions', self.model.year):
            return
        real.clear()
        model.tx = {}

    def op_bad(self, name, when):
        """ A transaction at an impossible time is refused. """
        real, model = self.account(name)
        if real is None:
            return
        try:
            real.add_transaction(self.num(100), self.moment(when))
        except ValueError:
            SIM.fault('rejected_call')
            return
        if self.prop in ('P01',):
            raise Violation('bad-when', 'transaction at %s accepted' % when)

    def op_room(self, name, value):
        real, model = self.account(name)
        if real is None or model.type not in LIMITED:
            return
        if model.type in ('RRSP', 'TFSA'):
            group = model.groups['max_inflow']
            if any(m.inp('contribution_room', self.model.year) is not None
                   for m in group.members if m is not model):
                return  # (Which of the two to go by is unspecified.)
            real.contribution_room = self.num(value)
            if model.inp('contribution_room', self.model.year) is None:
                group.limit = value
        elif model.groups:
            which = sorted(model.groups)[int(value) % len(model.groups)]
            if 'outflow' in which:
                value = -value
            setattr(real, which + '_limit', self.num(value))
            model.groups[which].limit = value

    def op_convert(self, name, delta):
        real, model = self.account(name)
        if real is None or model.type != 'RRSP':
            return
        year = self.model.year if delta is None else (
            self.model.year + delta)
        try:
            real.convert_to_rrif(*([] if delta is None else [year]))
            done = True
        except ValueError:
            SIM.fault('rejected_call')
            done = False
        if self.prop == 'P10':
            require(
                done == (year <= model.max_conversion()), 'rrif-deadline',
                '%s: conversion in %s %s; the latest year is %s', name, year,
                'accepted' if done else 'refused', model.max_conversion())
        if done:
            model.conversion = year

    def op_assign(self, name, pick, value, delete):
        """ Assigns (or deletes) a property: a no-op if it is an input. """
        entity = self.entity(name)
        if entity is None or name not in self.real:
            return
        year = self.model.year
        props = [p for p in sorted(entity.spec.get('inputs', {}))
                 if str(year) in entity.spec['inputs'][p]
                 and p != 'transactions']
        if not props:
            return
        prop = props[pick % len(props)]
        SIM.probe('assign_over_input')
        if delete:
            delattr(self.real[name], prop)
        else:
            setattr(self.real[name], prop, self.num(value))
        SIM.event('assigned', name, prop)

    def props(self, name):
        entity = self.entity(name)
        if name in self.model.people:
            return entity.PROPS
        return entity.props() + ('transactions',)

    def op_read(self, name, pick):
        if name not in self.real or self.entity(name) is None:
            return
        props = self.props(name)
        prop = props[pick % len(props)]
        val = self.guarded(lambda: getattr(self.real[name], prop))
        SIM.event(name, prop, freeze(val))
        self.compare_value(name, prop, val)

    def op_hist(self, name, pick):
        if name not in self.real or self.entity(name) is None:
            return
        props = self.props(name)
        prop = props[pick % len(props)]
        val = self.guarded(
            lambda: getattr(self.real[name], prop + '_history'))
        val = {y: val[y] for y in val if y <= self.model.year}
        SIM.event(name, prop + '_history', freeze(val))
        if self.prop in ('P02', 'P04'):
            self.compare_history(name, prop, val)

    def op_all(self, name, _pick):
        """ Reads everything about an object (e.g. to print it). """
        if name not in self.real or self.entity(name) is None:
            return
        for prop in self.props(name):
            val = self.guarded(
                lambda p=prop: getattr(self.real[name], p))
            SIM.event(name, prop, freeze(val))
            self.compare_value(name, prop, val)

    def compare_history(self, name, prop, hist):
        entity = self.entity(name)
        for year in range(entity.first, self.model.year):
            require(year in hist, 'history-gap',
                    '%s.%s_history has no %s', name, prop, year)
            if prop == 'transactions':
                expected = entity.transactions(year)
                require(
                    series_close(hist[year], expected), 'history-content',
                    '%s.%s_history[%s] is %s, expected %s', name, prop, year,
                    show(hist[year]), show(expected))
            elif not self.untrusted(name, prop):
                require_close(
                    hist[year], entity.value(prop, year), 'history-content',
                    '%s.%s_history[%s]' % (name, prop, year))

    def untrusted(self, name, prop):
        """ True where the model makes no claim. """
        if self.skewed and name in self.model.people and prop in (
                'taxable_income', 'tax_deduction', 'tax_credit'):
            return True
        return False

    # --- limits ---
    def op_scalar(self, name, which, when):
        real, model = self.account(name)
        if real is None:
            return
        val = self.guarded(lambda: getattr(real, which)(
            self.moment(when)))
        SIM.event(name, which, freeze(val))
        self.exact(name, which, val)
        if self.prop not in ('P08', 'P04', 'P10'):
            return
        time = 1.0 if when == 'end' else float(when)
        expected = model.limit(which)
        balance = model.balance_at(time, self.model.year)
        if which == 'max_outflow':
            expected = max(min(-balance, 0.0), expected)
        elif which == 'max_inflow' and model.type == 'Debt':
            expected = min(max(-balance, 0.0), expected)
        require_close(val, expected, 'scalar-limit', '%s.%s(%s)' % (
            name, which, when), tol=1e-7, scale=abs(balance))

    def query(self, name, which, timing, cap, floor, extra, group):
        real, model = self.account(name)
        if real is None:
            return None
        timing_model = timing if timing is not None else model.spec['timing']
        if timing_model is None:
            timing_model = [[0.5, 1]]
        if which.endswith('outflow'):
            cap = None if cap is None else -cap
        elif model.type == 'Debt' and floor is not None:
            floor = -floor
        kwargs = {'transaction_limit': self.num(cap),
                  'balance_limit': self.num(floor)}
        extra_model = group_model = None
        if extra is not None:
            extra_model = {float(w): v for w, v in extra}
            # Two flows at the same time are one, net.
            if group and model.type in LIMITED:
                names = sorted(self.model.accounts)
                number = int(abs(extra[0][1])) // 7
                if group == 2 and which in model.groups:
                    # Those which share the limit, rather.
                    names = sorted(
                        m.id for m in model.groups[which].members)
                other = names[number % len(names)]
                group_model = {other: extra_model}
                extra_model = None
                if number % 3 == 0:
                    # Something (or nothing) for another one, too.
                    group_model.setdefault(
                        names[number // 3 % len(names)],
                        {} if number % 2 else {0.5: -100.0, 1.0: 50.0})
                kwargs['group_transactions'] = {
                    self.real[n]: self.series(sorted(given.items()))
                    for n, given in group_model.items()}
            else:
                kwargs['transactions'] = self.series(extra)
        if timing is not None:
            from forecaster.utility import Timing
            named = not isinstance(timing, list)
            timing = self.timing(timing)
            if not named and int(sum(timing)) % 2:
                timing = Timing(timing, high_precision=(
                    Decimal if self.plan['mode'] == 'd' else None))
        given = freeze([timing, kwargs.get('transactions'), [
            (n, kwargs['group_transactions'][self.real[n]])
            for n in group_model] if group_model else None])
        series = self.guarded(
            lambda: getattr(real, which + 's')(timing, **kwargs))
        SIM.event(name, which + 's', freeze(series))
        self.exact(name, which + 's', series)
        if self.prop in ('P04', 'P07', 'P08'):
            now = freeze([timing, kwargs.get('transactions'), [
                (n, kwargs['group_transactions'][self.real[n]])
                for n in group_model] if group_model else None])
            require(now == given, 'argument-changed',
                    '%s.%ss changed its arguments from %s to %s', name,
                    which, given, now)
        expected = model.flows(
            which, {float(w): v for w, v in pairs(timing_model)}, cap, floor,
            extra_model, group_model)
        return series, expected, extra_model or (
            group_model or {}).get(name, {}), floor

    def op_query(self, *args):
        got = self.query(*args)
        if got is None or self.prop not in ('P07', 'P08', 'P04', 'P10'):
            return
        self.check_flows(args, *got)

    def check_flows(self, args, series, expected, extra, floor):
        name, which = args[0], args[1]
        model = self.model.accounts[name]
        scale = max([abs(model.balance(self.model.year))] + [
            abs(v) for v in expected.values() if abs(v) < INF])
        require(
            series_close(series, expected, 1e-7, scale), 'flow-limit',
            '%s.%ss(%s) gave %s, expected %s', name, which, args[2:],
            show(nonzero(series, 0)), show(nonzero(expected, 0)))
        if self.prop == 'P10' or any(
                abs(float(v)) == INF for v in series.values()):
            return
        # What an account allows never overdraws it (nor, for a debt,
        # overpays it).
        merged = dict(extra or {})
        for when, value in series.items():
            merged[float(when)] = merged.get(float(when), 0) + float(value)
        before = model.balance_at(1, self.model.year, extra)
        after = model.balance_at(1, self.model.year, merged)
        target = 0.0 if floor is None else floor
        tol = 1e-6 * max(1.0, abs(before), abs(after), scale)
        if which.endswith('outflow'):
            require(
                after >= min(target, before) - tol, 'overdraw',
                '%s.%ss(%s) leaves %s (was %s)', name, which, args[2:],
                after, before)
            require(all(float(v) <= 0 for v in series.values()), 'sign',
                    '%s.%ss gave an inflow: %s', name, which, show(series))
        else:
            if model.type == 'Debt':
                require(
                    after <= max(target, before) + tol, 'overpay',
                    '%s.%ss(%s) leaves %s (was %s)', name, which, args[2:],
                    after, before)
            require(all(float(v) >= 0 for v in series.values()), 'sign',
                    '%s.%ss gave an outflow: %s', name, which, show(series))
        SIM.probe('flow_nonzero' if nonzero(series) else 'flow_zero')

    def op_apply(self, name, which, timing, cap, floor, extra, group):
        """ Asks how much may flow, then makes that much flow. """
        real, model = self.account(name)
        if real is None or model.inp('transactions', self.model.year):
            return
        got = self.query(name, which, timing, cap, floor, None, group)
        series, expected = got[:2]
        if any(abs(v) == INF for v in expected.values()):
            return
        old = dict(model.tx)
        for when, value in series.items():
            when, value = float(when), float(value)
            model.tx[when] = model.tx.get(when, 0.0) + value
        if model.type == 'TaxableAccount' and not model.feasible(
                self.model.year):
            model.tx = old
            return
        for when, value in series.items():
            real.add_transaction(value, when)
        SIM.probe('applied_flows')
        if self.prop == 'P07':
            self.check_groups(name, which, old)

    def check_groups(self, name, which, old):
        """ Flows made within a shared limit never exceed it. """
        model = self.model.accounts[name]
        self.check_links(which)
        if which not in model.groups or not which.startswith('max'):
            return
        flow = 'inflows' if which == 'max_inflow' else 'outflows'
        group = model.groups[which]
        year = self.model.year
        total = sum(float(getattr(self.real[m.id], flow)())
                    for m in group.members)
        new = dict(model.tx)
        model.tx = old
        before = sum(getattr(m, flow)(year) for m in group.members)
        model.tx = new
        limit = max(abs(group.limit), abs(before))
        require(
            abs(total) <= limit + 1e-6 * max(1, limit), 'shared-limit',
            'accounts sharing a limit of %s have flows of %s (were %s)',
            group.limit, total, before)

    def check_links(self, which):
        """ Two accounts' links are the same when they share a limit. """
        links = [
            (account, getattr(self.real[name], which + '_link', None))
            for name, account in sorted(self.model.accounts.items())]
        links = [pair for pair in links if pair[1] is not None]
        for one, link in links:
            for two, other in links:
                shared = (one.groups.get(which) is two.groups.get(which)
                          and which in one.groups) or one is two
                require(
                    (link == other) is shared, 'shared-limit',
                    'the links (%s) of %s and %s: equal is %s, shared is %s',
                    which, one.id, two.id, link == other, shared)
                require(
                    (self.real[two.id] in link.group) is shared
                    and link.is_linked(self.real[two.id]) is shared,
                    'shared-limit', '%s among the group (%s) of %s should be '
                    '%s', two.id, which, one.id, shared)

    # --- time ---
    def op_year(self, order, steps, preread):
        year = self.model.year
        pre = {}
        if self.canonical:
            order = [p for p in self.real if p in self.model.people] + [
                a for a in sorted(self.real) if a in self.model.accounts]
        else:
            order = [o for o in order if o in self.real]
        order += [o for o in self.real if o not in order]
        if steps > 1 or any(
                o in self.model.people for o in order[len(
                    self.model.people):]):
            # People are meant to be stepped before accounts; if they are
            # not, what they record of their accounts is out of step.
            self.skewed = True
            SIM.probe('people_stepped_late')
        if preread and self.prop == 'P02' and steps == 1:
            pre = {k: v for k, v in self.current_values().items()
                   if not self.untrusted(*k)}
        if self.canonical:
            # One year at a time, everyone in step.
            for step in range(steps):
                for name in order:
                    obj = self.real[name]
                    while obj.this_year <= year + step:
                        obj.next_year()
        else:
            for name in order:
                obj = self.real[name]
                while obj.this_year < year + steps:
                    obj.next_year()
                    owner = getattr(obj, 'owner', None)
                    require(
                        owner is None or owner.this_year >= obj.this_year - 1,
                        'owner-behind', '%s went on to %s, but its owner is '
                        'still in %s', name, obj.this_year,
                        getattr(owner, 'this_year', None))
        SIM.state(tuple(order), tuple(
            sorted((a.type, len(a.tx)) for a in self.model.accounts.values())
        ), steps)
        for _ in range(steps):
            self.model.advance()
            self.resync()
        SIM.years(steps)
        for name, obj in self.real.items():
            require(obj.this_year == self.model.year, 'year-count',
                    '%s is in %s, not %s', name, obj.this_year,
                    self.model.year)
        for (name, prop), val in pre.items():
            hist = getattr(self.real[name], prop + '_history')
            require(
                year in hist and frozen_close(freeze(hist[year]), val),
                'recorded-value',
                '%s.%s was %s at the end of %s; history says %s', name, prop,
                val, year, show(hist.get(year)))
        self.after_year()

    def resync(self):
        """ Where a listed finding makes the code's room differ from the
        published rule, follow the code (after noting the finding). """
        year = self.model.year
        done = set()
        for name, account in self.model.accounts.items():
            if account.type != 'TFSA':
                continue
            group = account.groups['max_inflow']
            if id(group) in done:
                continue
            done.add(id(group))
            if any(m.inp('contribution_room', year) is not None
                   for m in group.members):
                continue
            accruals = {}
            for flag in (False, True):
                self.model.deflate_tfsa = flag
                # As for the first of the group to be stepped.
                accruals[flag] = {
                    self.model.tfsa_accrual(m, year) for m in group.members}
            self.model.deflate_tfsa = False
            if accruals[True] == accruals[False] or len(accruals[True]) > 1:
                continue
            right, wrong = accruals[False].pop(), accruals[True].pop()
            if self.real[name].this_year != year:
                continue
            actual = float(self.real[name].max_inflow_limit)
            if close(actual, group.limit - right + wrong):
                if self.prop == 'P06':
                    SIM.known('KF2', '%s: TFSA accrual in %s is %s, not %s' % (
                        name, year, wrong, right))
                group.limit += wrong - right

    def resync_initial(self, spec):
        """ As resync, for room inferred when the account is opened. """
        account = self.model.accounts[spec['id']]
        group = account.groups['max_inflow']
        if len(group.members) > 1:
            return
        self.model.deflate_tfsa = True
        wrong = self.model.initial_tfsa_room(account)
        self.model.deflate_tfsa = False
        actual = float(self.real[spec['id']].max_inflow_limit)
        if not close(actual, group.limit) and close(actual, wrong):
            if self.prop == 'P06':
                SIM.known('KF2', '%s: initial TFSA room is %s, not %s' % (
                    spec['id'], wrong, group.limit))
            group.limit = wrong

    def current_values(self):
        values = {}
        for name in self.real:
            for prop in self.props(name):
                values[(name, prop)] = freeze(
                    getattr(self.real[name], prop))
        return values

    # --- oracles ---
    PERSON_FOCUS = {
        'P26': ('gross_income', 'net_income', 'raise_rate', 'tax_withheld'),
        'P32': ('taxable_income', 'tax_deduction', 'tax_credit'),
        'P28': (), 'P30': (), 'P01': (), 'P06': (), 'P07': (), 'P08': (), 'P09': (), 'P10': (),
    }
    ACCOUNT_FOCUS = {
        'P01': ('balance', 'rate', 'returns', 'transactions'),
        'P06': ('contribution_room',),
        'P07': (), 'P08': (),
        'P09': ('acb', 'capital_gain', 'taxable_income'),
        'P10': ('taxable_income', 'tax_withheld', 'tax_deduction'),
        'P32': (), 'P26': (), 'P28': ('rate', 'returns', 'balance'), 'P30': (),
    }

    def focused(self, name, prop):
        if name in self.model.people:
            chosen = self.PERSON_FOCUS.get(self.prop)
        else:
            chosen = self.ACCOUNT_FOCUS.get(self.prop)
            kind = self.model.accounts[name].type
            if self.prop == 'P09' and kind != 'TaxableAccount':
                return False
            if self.prop == 'P10' and kind != 'RRSP':
                return False
        return chosen is None or prop in chosen

    def compare_value(self, name, prop, val):
        if self.prop in ('P02', 'P05', 'none') or not self.focused(name, prop):
            return
        if self.untrusted(name, prop):
            return
        entity = self.entity(name)
        if prop == 'transactions':
            expected = entity.transactions(self.model.year)
            require(series_close(val, expected), 'value:transactions',
                    '%s.transactions is %s, expected %s', name, show(val),
                    show(expected))
            return
        expected = entity.value(prop, self.model.year)
        scale = 1.0
        if name in self.model.accounts:
            scale = abs(entity.balance(self.model.year))
        require_close(val, expected, 'value:' + prop, '%s.%s in %s' % (
            name, prop, self.model.year), scale=scale)

    def after(self, op):
        """ Invariants checked as the history proceeds. """
        if self.prop == 'P32':
            self.check_relations()
        self.steps += 1
        if self.prop == 'P02' and (
                len(self.plan['ops']) < 100 or self.steps % 9 == 0):
            with self.disarmed():
                self.check_snapshots()

    @contextlib.contextmanager
    def disarmed(self):
        """ The oracle's own reads meet no faults. """
        arms, self.arms = self.arms, {}
        yield
        self.arms = arms

    def after_year(self):
        if self.prop == 'P02':
            self.check_snapshots()
            self.take_snapshot()
        elif self.prop in ('P01', 'P06', 'P09', 'P26', 'P10', 'P03', 'P28',
                           'P27', 'P32'):
            # Half of the time, look only at the end: a look may itself
            # repair (or break) what is looked at.
            if (self.plan['seed'] + self.model.year) % 2:
                self.compare_all()

    def compare_all(self):
        for name in self.real:
            for prop in self.props(name):
                self.exact(name, prop, getattr(self.real[name], prop))
                if self.focused(name, prop):
                    self.compare_value(
                        name, prop, getattr(self.real[name], prop))
        if self.prop in ('P26', 'P01'):
            with self.disarmed():
                self.check_terms()
        self.check_ages()
        if self.prop == 'P10':
            for name, account in self.model.accounts.items():
                if account.type == 'RRSP':
                    require_close(
                        self.real[name].min_outflow_limit,
                        account.limit('min_outflow'), 'rrif-minimum',
                        '%s minimum withdrawal in %s' % (
                            name, self.model.year))
                    if account.minimum_distribution(self.model.year):
                        SIM.probe('rrif_minimum')
                    require(
                        self.real[name].rrif_conversion_year ==
                        account.conversion_year(), 'rrif-year',
                        '%s converts in %s, expected %s', name,
                        self.real[name].rrif_conversion_year,
                        account.conversion_year())

    def check_ages(self):
        """ Ages in a year, on a birthday and before it. """
        if self.prop != 'P10':
            return
        year = self.model.year
        for name, person in self.model.people.items():
            birth, age = person.spec['birth'], person.age(year)
            when = datetime.strptime(
                lasting(str(year) + birth[4:]), '%Y-%m-%d')
            eve = when - timedelta(1)
            for date, expected in (
                    (year, age), (str(year), age), (when, age),
                    (str(when.date()), age),
                    (eve, age - 1), (eve.strftime('%d %B %Y'), age - 1)):
                got = self.real[name].age(date)
                require(got == expected, 'age', 'Someone born on %s is %s in '
                        '(or on) %s, expected %s', birth, got, date, expected)

    def check_terms(self):
        """ Raises (or rates) to come are those which were entered. """
        year = self.model.year + 1
        for name, real in self.real.items():
            if name in self.model.people and self.prop == 'P26':
                what, first = 'raise_rate', 'raises'
            elif name in self.model.accounts and self.prop == 'P01':
                what = first = 'rate'
            else:
                continue
            entity = self.entity(name)
            if 'alloc' in entity.spec:
                continue
            require_close(
                getattr(real, what + '_callable')(year), yearly(
                    entity.terms(year, entity.spec[first]), year,
                    self.model.initial_year), 'terms',
                '%s.%s_callable for %s' % (name, what, year))

    def take_snapshot(self):
        for name, obj in self.real.items():
            for prop in self.props(name):
                hist = getattr(obj, prop + '_history')
                for year in range(self.entity(name).first, self.model.year):
                    require(year in hist, 'history-gap',
                            '%s.%s_history has no %s', name, prop, year)
                    self.snapshots.setdefault(
                        (name, prop, year), freeze(hist[year]))

    def check_snapshots(self):
        for (name, prop, year), old in self.snapshots.items():
            hist = getattr(self.real[name], prop + '_history')
            require(
                year in hist and frozen_close(freeze(hist[year]), old, 0),
                'history-changed', '%s.%s_history[%s] was %s, now %s', name,
                prop, year, old, show(hist.get(year)))

    def outcome(self):
        """ Everything that a user could see at the end. """
        result = {}
        for name in self.real:
            for prop in self.props(name):
                hist = getattr(self.real[name], prop + '_history')
                if prop == 'transactions':
                    val = {y: nonzero(hist[y]) for y in hist
                           if y <= self.model.year}
                else:
                    val = {y: hist[y] for y in hist if y <= self.model.year}
                result[(name, prop)] = freeze(val)
            if name in self.model.accounts:
                for which in FLOWS:
                    result[(name, which)] = freeze(
                        getattr(self.real[name], which + '_limit'))
        return result

    def finish(self):
        self.arms.clear()
        self.interrupt = 0
        for name in self.real:
            for prop in self.props(name):
                hist = getattr(self.real[name], prop + '_history')
                SIM.event(name, prop, freeze({
                    y: hist[y] for y in hist if y <= self.model.year}))
                for year in range(self.entity(name).first, self.model.year):
                    self.exact(name, '%s_history[%s]' % (prop, year),
                               hist[year])
        if self.prop in ('P02', 'P05'):
            self.check_snapshots()
            return
        self.compare_all()
        for name in self.real:
            for prop in self.props(name):
                if self.focused(name, prop):
                    hist = getattr(self.real[name], prop + '_history')
                    self.compare_history(name, prop, hist)
        if self.prop == 'P01':
            self.check_rollforward()

    def check_rollforward(self):
        """ closing = opening + flows + returns, from the records alone. """
        for name, account in self.model.accounts.items():
            real = self.real[name]
            balances, returns = real.balance_history, real.returns_history
            flows = real.transactions_history
            for year in range(account.first, self.model.year):
                if any(account.inp(p, y) is not None for p, y in (
                        ('balance', year + 1), ('returns', year))):
                    continue
                expected = float(balances[year]) + float(
                    returns[year]) + sum(
                        float(v) for v in flows[year].values())
                require_close(
                    balances[year + 1], expected, 'roll-forward',
                    '%s opening balance in %s' % (name, year + 1))


def execute(plan, prop):
    """ Runs the plan and checks the property. """
    run = Run(plan, prop)
    run.run()
    if prop in ('P04', 'P05'):
        mine = run.outcome()
        SIM.event('outcome', len(mine))
        if prop == 'P04':
            ops = [op for op in plan['ops'] if op[0] not in (
                'read', 'hist', 'all', 'query', 'scalar', 'arm',
                'interrupt', 'item', 'at', 'reach', 'allocate')]
            other = Run(plan, 'none', ops=ops)
        else:
            other = Run(plan, 'none', canonical=True)
        other.prop = 'none'
        other.run_quietly()
        theirs = other.outcome()
        for key in sorted(mine):
            if run.untrusted(*key):
                continue
            require(
                frozen_close(mine[key], theirs[key], 1e-8),
                'reads-matter' if prop == 'P04' else 'order-matters',
                '%s.%s is %s, but %s %s', key[0], key[1], mine[key],
                theirs[key], 'if nothing had been read'
                if prop == 'P04' else 'if stepped in the usual order')


def _run_quietly(self):
    for op in self.ops:
        self.arms.clear()
        self.interrupt = 0
        if op[0] not in ('arm', 'interrupt'):
            getattr(self, 'op_' + op[0])(*op[1:])


Run.run_quietly = _run_quietly
