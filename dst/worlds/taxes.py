"""World: tax treatments under a long series of questions.

Real code: Tax, TaxMulti, TaxCanada with its jurisdictions and constants,
Person, Account, RRSP, TaxableAccount.
Simulated: which questions are asked of which treatment, in which order,
and for which years; transactions and year-ends in between; inflation and
accounts' credits (client code), which may fail in the middle of an answer;
interrupts; set order and hashes.
"""
import copy

from dst.build import Family, gen_account, gen_person, money
from dst.client import Interrupter, gen_interrupt
from dst.core import (
    SIM, ClientFault, Interrupt, freeze, frozen_close, require,
    require_close, show)

SHRINK_LISTS = ['steps', 'accounts', 'people', 'taxes']
SHRINK_KEEP = {'mode', 'year'}
BEFORE, SPAN = 12, 30   # years of a scenario


# --- generation -------------------------------------------------------------
def gen_schedule(rng, year, zero):
    years = sorted(rng.sample(range(year - 4, year + 7),
                              rng.choice([1, 1, 2, 3])))
    result = {}
    for each in years:
        count = rng.randint(1, 5)
        low = 0 if zero or rng.random() < 0.8 else rng.randint(1, 5000)
        floors = [low] + sorted(rng.sample(
            range(6000, 150000, 500), count - 1))
        rates = sorted(round(rng.uniform(0, 0.55), 3) for _ in floors)
        if rng.random() < 0.15:
            rng.shuffle(rates)
        pairs = list(zip(floors, rates))
        rng.shuffle(pairs)
        result[str(each)] = pairs
    return result


def gen_per_year(rng, year, low, high, digits):
    if rng.random() < 0.25:
        return None
    years = rng.sample(range(year - 4, year + 7), rng.choice([1, 1, 2]))
    return {str(y): round(rng.uniform(low, high), digits) for y in years}


def gen_jurisdiction(rng, year, zero=False):
    return {'brackets': gen_schedule(rng, year, zero),
            'deduction': gen_per_year(rng, year, 0, 15000, 2),
            'rate': gen_per_year(rng, year, 0, 0.3, 3)}


def gen_index(rng, year):
    """ Inflation year by year, and how the treatments are told of it. """
    rates = [round(rng.uniform(-0.02, 0.12), 4) for _ in range(SPAN)]
    shape = rng.choice(['constant', 'list', 'dict'])
    if shape == 'constant':
        rates = [rates[0]] * SPAN
    return {'rates': rates, 'shape': shape,
            'base': year + rng.randint(-4, 6),
            'form': rng.choice(['scenario', 'adjustments', 'function'])}


def gen_income(rng):
    return rng.choice([0, 0, 10000, money(rng, 0, 30000),
                       money(rng, 0, 300000), 1e6])


def generate(rng, prop, tier):
    deep, vast = tier != 'quick', tier == 'vast'
    years = rng.randint(1, 3 if not deep else 6)
    year = rng.choice([2017, 2018, 2020])
    people = [gen_person(rng, 'p%d' % n, year, years)
              for n in range(rng.randint(1, 9 if vast else 6 if deep else 4))]
    for number, person in enumerate(people):
        person['treatment'] = None
        person['spouse'] = False
        if number % 2 and rng.random() < 0.7:
            person['spouse'] = people[number - 1]['id']
        person['income'] = rng.choice([
            person['income'], money(rng, 5000, 40000)])
    names = [p['id'] for p in people]
    accounts = []
    for number in range(rng.randint(0, 4)):
        kind = rng.choice(['RRSP', 'RRSP', 'Credit', 'TaxableAccount'])
        spec = gen_account(rng, 'a%d' % number, (
            'Account' if kind == 'Credit' else kind), names, years)
        spec['type'] = kind
        if kind == 'Credit':
            spec['gives'] = [rng.choice([0, money(rng, 0, 5000)])
                             for _ in range(3)]
        accounts.append(spec)
    taxes = []
    for _ in range(rng.randint(1, 2 if not deep else 3)):
        pick = rng.random()
        if pick < 0.45:
            taxes.append({'kind': 'tax', 'parts': [
                gen_jurisdiction(rng, year)]})
        elif pick < 0.7:
            taxes.append({'kind': 'multi', 'parts': [
                gen_jurisdiction(rng, year)
                for _ in range(rng.randint(2, 3))]})
        else:
            taxes.append({'kind': 'canada'})
        if rng.random() < 0.4:
            # Another one, built from the very same objects.
            taxes.append({'kind': 'same', 'of': len(taxes) - 1,
                          'inflation': rng.random() < 0.5})
    steps = []
    faulty = rng.random() < 0.5
    for _ in range(rng.randint(3, 14 if not deep else 50)):
        pick = rng.random()
        if pick < 0.8:
            kinds = ['person', 'people', 'people', 'spouses']
            if prop == 'P21':
                kinds = ['money', 'money', 'marginal', 'brackets', 'accum',
                         'deduction', 'rate', 'person', 'timing']
            elif prop == 'P29':
                kinds = ['factor', 'factor', 'factors', 'extend', 'made',
                         'brackets', 'deduction', 'money']
            fault = None
            if faulty and rng.random() < 0.4:
                fault = rng.choice([
                    ['infl', rng.randint(1, 6)],
                    ['interrupt', gen_interrupt(rng, 40, 300)]])
            steps.append(['ask', rng.randrange(4), rng.choice(kinds), {
                'year': year + rng.randint(-8, 12), 'back': rng.randint(0, 4),
                'income': gen_income(rng),
                'who': [rng.choice(names)
                        for _ in range(rng.randint(1, 5))],
                'as': rng.choice(['list', 'tuple', 'set', 'iter', 'dict']),
                'extra': [[rng.choice(names), money(rng, 0, 20000),
                           money(rng, 0, 3000)]
                          for _ in range(rng.choice([0, 0, 1, 2]))],
                'only': rng.choice([None, None, 0, 1]),
                'other': year + rng.randint(-8, 12),
                'pick': rng.random()}, fault])
        elif prop == 'P29' and pick < 0.9:
            steps.append(['swap', gen_index(rng, year)])
        elif pick < 0.92 and accounts:
            steps.append(['flow', rng.choice(accounts)['id'],
                          rng.choice([1, -1, -1]) * money(rng, 10, 9000),
                          rng.choice([0, 0.5, 1])])
        else:
            steps.append(['year'])
    return {'mode': 'f' if rng.random() < 0.8 else 'd', 'year': year,
            'years': years,
            'index': gen_index(rng, year) if prop == 'P29' or
            rng.random() < 0.25 else None,
            'inflation': rng.choice([None, 0.02, round(
                rng.uniform(-0.02, 0.1), 4)]),
            'people': people, 'accounts': accounts, 'taxes': taxes,
            'steps': steps}


# --- the reference ------------------------------------------------------------
def nearest(years, year):
    """ The latest year up to `year`, or else the earliest one after it. """
    before = [y for y in years if y <= year]
    return max(before) if before else min(years)


class Jurisdiction:
    """ What a tax schedule says, worked out afresh for every question. """

    def __init__(self, brackets, deduction, rate, level):
        self.given = brackets
        self.deductions = deduction or {min(brackets): 0.0}
        self.rates = rate or {min(brackets): 1.0}
        self.level = level

    def brackets(self, year):
        base = nearest(self.given, year)
        factor = 1.0 if base == year else self.level(year, base)
        return sorted((float(f) * factor, float(r))
                      for f, r in self.given[base].items())

    def deduction(self, year):
        return self.indexed(self.deductions, year)

    def indexed(self, values, year):
        base = nearest(values, year)
        return float(values[base]) * (
            1.0 if base == year else self.level(year, base))

    def rate(self, year):
        return float(self.rates[nearest(self.rates, year)])

    def gross(self, income, year):
        brackets = self.brackets(year)
        if income < brackets[0][0]:
            return (income - brackets[0][0]) * brackets[0][1]
        total = 0.0
        for number, (floor, rate) in enumerate(brackets):
            top = (brackets[number + 1][0] if number + 1 < len(brackets)
                   else float('inf'))
            total += max(min(income, top) - floor, 0.0) * rate
        return total

    def tax(self, income, year, deduction=0.0, credit=0.0):
        return max(self.gross(income - deduction, year) -
                   credit * self.rate(year), 0.0)

    def floor(self, income, year):
        brackets = self.brackets(year)
        return max((b for b, _ in brackets if b < income),
                   default=brackets[0][0])

    def marginal(self, income, year):
        brackets = dict(self.brackets(year))
        return brackets[self.floor(income, year)]

    # --- people ---
    def net(self, person, year):
        return (float(person.taxable_income_history[year]) -
                self.deduction(year) -
                float(person.tax_deduction_history[year]))

    def credit(self, person, year):
        return float(person.tax_credit_history[year])

    def person(self, person, year, deduction=0.0, credit=0.0):
        return self.tax(self.net(person, year), year, deduction,
                        self.credit(person, year) + credit)


class Canadian(Jurisdiction):

    # As shipped: brackets, deduction, credit rate, pension and spousal
    # amounts, all for 2017.
    BRACKETS = {0: 0.15, 45961.23: 0.205, 91921.45: 0.26, 142493.82: 0.29,
                203000.0: 0.33}
    SHIPPED = {'Federal': (11635, 0.15, 2000, 11635),
               'BC': (10208, 0.0506, 1000, 9614)}

    def __init__(self, name, level):
        deduction, rate, pension, spousal = self.SHIPPED[name]
        super().__init__({2017: dict(self.BRACKETS)}, {2017: deduction},
                         {2017: rate}, level)
        self.pension, self.spousal = {2017: pension}, {2017: spousal}

    def credit(self, person, year):
        from forecaster.canada.accounts import RRSP
        result = super().credit(person, year)
        drawn = sum(
            -float(v) for a in person.accounts if isinstance(a, RRSP)
            for v in a.transactions_history.get(year, {}).values() if v < 0)
        result += min(drawn, self.indexed(self.pension, year))
        if person.spouse is not None:
            other = self.net(person.spouse, year)
            if self.net(person, year) > other:
                most = self.indexed(self.spousal, year)
                result += min(max(most - other, 0.0), most)
        return result


class Path:
    """ The inflation of a scenario, year by year. """

    def __init__(self, index, year):
        self.index = index
        self.first = year - BEFORE

    def __call__(self, target, base):
        low, high = sorted((target, base))
        factor = 1.0
        for rate in self.index['rates'][low - self.first:high - self.first]:
            factor *= 1 + rate
        return factor if base <= target else 1 / factor


# --- the world ----------------------------------------------------------------
class World(Family):

    def __init__(self, plan, prop):
        self.prop = prop
        self.initial = plan['year']
        self.now = plan['year']
        super().__init__(dict(plan, accounts=[]))
        self.plan = plan
        self.add_accounts()
        self.index = plan.get('index')
        if self.index:
            self.source = self.scenario(self.index)
            self.factors = self.source.inflation_adjust
        self.treatments = []
        for spec in plan['taxes']:
            self.treatments.append(self.build_tax(spec))

    def scenario(self, index):
        from forecaster.scenario import Scenario
        rates, first = self.num_list(index['rates']), self.initial - BEFORE
        if index['shape'] == 'constant':
            rates = rates[0]
        elif index['shape'] == 'dict':
            rates = {first + n: rate for n, rate in enumerate(rates)}
        return Scenario(first, SPAN + 1, inflation=rates)

    def num_list(self, vals):
        return [self.num(val) for val in vals]

    def indexing(self):
        """ What treatments are given to index amounts with, and the
        model's counterpart. """
        index = self.plan.get('index')
        if not index:
            return self.client('infl', self.adjust), self.inflation
        if index['form'] == 'adjustments':
            # A table says the same in whatever order it was written.
            adjust = self.scenario(index).inflation_adjustments(
                index['base'])
            adjust = dict(sorted(adjust.items(), key=lambda entry:
                                 (entry[0] * 7919) % 31))
        else:
            adjust = self.scenario(index).inflation_adjust
            if index['form'] == 'function':
                adjust = self.client('infl', adjust)
        return adjust, Path(index, self.initial)

    def add_accounts(self):
        """ Also accounts of a kind which the client has invented. """
        from forecaster import accounts as base
        from forecaster.ledger import recorded_property
        world = self

        class Credit(base.Account):
            """ Gives credits and deductions, and earns taxable income. """
            gives = (0, 0, 0)

            @recorded_property
            def tax_credit(self):
                return world.num(self.gives[0])

            @recorded_property
            def tax_deduction(self):
                return world.num(self.gives[1])

            @recorded_property
            def taxable_income(self):
                return world.num(self.gives[2])
        specs = self.plan['accounts']
        self.plan = dict(self.plan, people=[], accounts=[
            s for s in specs if s['type'] != 'Credit'])
        self.build()
        for spec in specs:
            if spec['type'] == 'Credit' and spec['owner'] in self.people:
                account = Credit(
                    self.people[spec['owner']],
                    balance=self.num(spec['balance']),
                    rate=self.per_year(spec['id'], spec['rate']),
                    nper=spec['nper'], high_precision=self.high)
                account.gives = spec['gives']
                account.label = spec['id']
                self.accounts[spec['id']] = account

    def build_tax(self, spec):
        """ A tax treatment: (real one, model's jurisdictions, inputs). """
        from forecaster.canada.constants import ConstantsCanada
        from forecaster.canada.tax import TaxCanada
        from forecaster.tax import Tax, TaxMulti
        adjust, level = self.indexing()
        same, inputs = spec, None
        while same['kind'] == 'same':
            if not spec['inflation']:
                adjust, level = None, (lambda _year, _base: 1.0)
            if not self.plan['taxes'][:same['of'] + 1]:
                return None
            inputs = self.treatments[same['of']]['inputs']
            same = self.plan['taxes'][same['of']]
        kind = same['kind']
        if kind == 'canada':
            if inputs is None:
                inputs = ConstantsCanada(high_precision=self.high)
            if adjust is None:
                adjust = (lambda _year, _base: 1)
            real = TaxCanada(adjust, 'BC', constants=inputs,
                             high_precision=self.high)
            parts = [Canadian(name, level)
                     for name in ('Federal', 'BC')]
            names = sorted(n for n in dir(inputs) if n.startswith('TAX_'))
            return {'kind': kind, 'real': real, 'parts': parts,
                    'inputs': inputs, 'watch': lambda: {
                        n: getattr(inputs, n) for n in names}}
        if inputs is None:
            inputs = [{
                'tax_brackets': {
                    int(y): {self.num(f): self.num(r) for f, r in pairs}
                    for y, pairs in part['brackets'].items()},
                'personal_deduction': part['deduction'] and {
                    int(y): self.num(v)
                    for y, v in part['deduction'].items()},
                'credit_rate': part['rate'] and {
                    int(y): self.num(v) for y, v in part['rate'].items()}}
                      for part in same['parts']]
        taxes = [Tax(inflation_adjust=adjust, high_precision=self.high,
                     **part) for part in inputs]
        parts = [Jurisdiction(
            copy.deepcopy(part['tax_brackets']),
            copy.deepcopy(part['personal_deduction']),
            copy.deepcopy(part['credit_rate']), level) for part in inputs]
        return {'kind': kind, 'parts': parts, 'inputs': inputs,
                'real': taxes[0] if kind == 'tax' else TaxMulti(taxes),
                'watch': lambda: inputs}

    # --- questions ---
    def step_ask(self, number, kind, spec, fault):
        treatment = self.treatments[number % len(self.treatments)]
        if treatment is None:
            return
        inputs = copy.deepcopy(treatment['watch']())
        people = self.recorded()
        ask = getattr(self, 'ask_' + kind)
        if fault is not None:
            try:
                if fault[0] == 'interrupt':
                    with Interrupter(fault[1]):
                        ask(treatment, spec, False)
                else:
                    self.arms = {fault[0]: fault[1]}
                    ask(treatment, spec, False)
            except (ClientFault, Interrupt):
                SIM.probe('asked_again')
            self.arms = {}
        ask(treatment, spec, True)
        SIM.op('ask:' + kind)
        SIM.state(treatment['kind'], kind, fault and fault[0], spec['as'],
                  spec['year'] - self.initial, len(set(spec['who'])),
                  len(self.treatments))
        require(treatment['watch']() == inputs, 'inputs-changed',
                'Asking for %s of %s changed the treatment\'s inputs from '
                '%s to %s', kind, treatment['kind'], show(inputs),
                show(treatment['watch']()))
        require(frozen_close(self.recorded(), people), 'people-changed',
                'Asking for %s changed what is recorded for people', kind)

    def recorded(self):
        return freeze({
            name: [dict(getattr(person, prop)) for prop in (
                'gross_income_history', 'taxable_income_history',
                'tax_deduction_history', 'tax_credit_history')]
            for name, person in self.people.items()})

    def compare(self, actual, expected, what, *args):
        SIM.event(what % args, round(float(actual), 6))
        require_close(actual, expected, 'tax', what % args, 1e-9, 1e4)

    def ask_money(self, treatment, spec, judged):
        income, year = self.num(spec['income']), spec['year']
        extra = spec['extra'][:1] and [
            self.num(v) for v in spec['extra'][0][1:3]]
        actual = self.call(treatment, 'money', income, spec, year, extra)
        if judged:
            less = [float(v) for v in extra] or [0.0, 0.0]
            self.compare(actual, sum(
                part.tax(float(income), year, *(
                    less if self.helped(spec, number) else (0.0, 0.0)))
                for number, part in enumerate(treatment['parts'])),
                'Tax of %s for %s with %s', income, year, extra)

    def helped(self, spec, number):
        """ True if an extra deduction is given to this jurisdiction. """
        only = spec.get('only')
        return only is None or number == only

    def call(self, treatment, what, subject, spec, year, extra):
        """ Asks a treatment, with extra deductions and credits. """
        real, kind = treatment['real'], treatment['kind']
        direct = spec['pick'] < 0.5
        ask = getattr(real, 'tax_' + what) if direct else real
        if not extra:
            return ask(subject, year)
        deduction, credit = extra
        if kind == 'tax':
            if not self.helped(spec, 0):
                return ask(subject, year)
            return ask(subject, year, deduction=deduction, credit=credit)
        if kind == 'canada' and not direct and spec['pick'] < 0.9:
            kwargs = {}
            for number, name in enumerate(('federal', 'provincial')):
                if self.helped(spec, number):
                    kwargs[name + '_deduction'] = deduction
                    kwargs[name + '_credit'] = credit
            return ask(subject, year, **kwargs)
        taxes = [t for n, t in enumerate(real.jurisdictions)
                 if self.helped(spec, n)]
        return ask(subject, year,
                   deductions={t: deduction for t in taxes},
                   credits_={t: credit for t in taxes})

    def ask_marginal(self, treatment, spec, judged):
        income, year = float(spec['income']), spec['year']
        if any(abs(income - floor) < 0.01 and income
               for part in treatment['parts']
               for floor, _ in part.brackets(year)):
            return
        rate = treatment['real'].marginal_rate(self.num(income), year)
        floor = treatment['real'].marginal_bracket(self.num(income), year)
        if judged:
            self.compare(rate, sum(
                p.marginal(income, year) for p in treatment['parts']),
                'Marginal rate at %s for %s', income, year)
            self.compare(floor, max(
                p.floor(income, year) for p in treatment['parts']),
                'Marginal bracket of %s for %s', income, year)

    def combined(self, treatment, year):
        """ The model's combined schedule: [(floor, rate, tax so far)]. """
        parts = treatment['parts']
        floors = []
        for floor in sorted(f for p in parts for f, _ in p.brackets(year)):
            if not floors or floor - floors[-1] > 1e-6:
                floors.append(floor)
        result, total = [], 0.0
        for number, floor in enumerate(floors):
            rate = sum(
                max((b for b in p.brackets(year) if b[0] <= floor + 1e-6),
                    default=(0, 0.0))[1] for p in parts)
            if number:
                total += (floor - floors[number - 1]) * result[-1][1]
            result.append((floor, rate, total))
        return result

    def ask_brackets(self, treatment, spec, judged):
        brackets = treatment['real'].tax_brackets(spec['year'])
        if not judged:
            return
        model = self.combined(treatment, spec['year'])
        actual = sorted((float(f), float(r)) for f, r in brackets.items())
        actual = [(f, r) for n, (f, r) in enumerate(actual)
                  if n + 1 == len(actual) or actual[n + 1][0] - f > 1e-6]
        SIM.event('brackets', spec['year'], [
            [round(v, 6) for v in pair] for pair in actual])
        for floor, rate in brackets.items():
            one = treatment['real'].tax_brackets(spec['year'], floor)
            require(one == rate, 'schedule', 'The rate from %s in %s is %s, '
                    'or %s', floor, spec['year'], rate, one)
        require(len(actual) == len(model) and all(
            abs(a - b) < 1e-6 and abs(r - q) < 1e-9
            for (a, r), (b, q, _) in zip(actual, model)), 'schedule',
                'Brackets for %s are %s rather than %s', spec['year'],
                show(actual), show(model))

    def ask_accum(self, treatment, spec, judged):
        accum = treatment['real'].accum(spec['year'])
        if not judged:
            return
        model = self.combined(treatment, spec['year'])
        require(len(accum) == len(model), 'schedule', 'Total taxes at %s for '
                '%s, but brackets %s', show(accum), spec['year'], show(model))
        for floor, total in sorted(accum.items()):
            same = [t for f, _, t in model
                    if abs(f - float(floor)) < 1e-5]
            require(same, 'schedule', 'A total tax at %s for %s, where no '
                    'bracket starts (%s)', floor, spec['year'], show(model))
            self.compare(total, same[0], 'Tax below %.4f for %s',
                         floor, spec['year'])
            self.compare(treatment['real'].accum(spec['year'], bracket=floor),
                         same[0], 'Tax below just %.4f for %s', floor,
                         spec['year'])

    def ask_deduction(self, treatment, spec, judged):
        actual = treatment['real'].personal_deduction(spec['year'])
        if judged:
            self.compare(
                actual, treatment['parts'][0].deduction(spec['year']),
                'Personal deduction for %s', spec['year'])

    def ask_rate(self, treatment, spec, judged):
        actual = treatment['real'].credit_rate(spec['year'])
        if judged:
            self.compare(actual, treatment['parts'][0].rate(spec['year']),
                         'Credit rate for %s', spec['year'])

    def ask_timing(self, treatment, spec, judged):
        """ The timings of payments and refunds may be replaced. """
        real = treatment['real']
        when = self.num(round(spec['pick'], 2))
        real.payment_timing = when
        real.refund_timing = {self.num(0): self.num(1), when: self.num(1)}
        if judged:
            require(dict(real.payment_timing) == {when: 1}, 'timing',
                    'Taxes set to be paid at %s are paid at %s', when,
                    dict(real.payment_timing))
            require(set(real.refund_timing) == {self.num(0), when},
                    'timing', 'Refunds set for 0 and %s come at %s', when,
                    dict(real.refund_timing))

    # --- inflation ---
    def ask_factor(self, _treatment, spec, judged):
        target, base = spec['year'], spec['other']
        level = Path(self.index, self.initial)
        if not judged:
            return
        self.compare(self.factors(target, base), level(target, base),
                     'Inflation from %s to %s', base, target)
        self.compare(
            self.source.accumulation_function(base, target),
            level(target, base), 'Accumulation from %s to %s', base, target)
        self.compare(self.factors(target), level(
            target, self.initial - BEFORE), 'Inflation to %s', target)

    def ask_factors(self, _treatment, spec, judged):
        base = spec['other']
        factors = self.source.inflation_adjustments(base)
        if not judged:
            return
        level = Path(self.index, self.initial)
        first = self.initial - BEFORE
        require(sorted(factors) == list(range(first, first + SPAN + 1)) ==
                list(self.source) and len(self.source) == SPAN + 1, 'years',
                'The scenario covers %s, but its factors %s',
                [first, first + SPAN], sorted(factors))
        for year, factor in factors.items():
            self.compare(factor, level(year, base),
                         'Inflation from %s to %s', base, year)

    def ask_made(self, _treatment, spec, judged):
        """ What makes functions of inflation out of other things. """
        from forecaster.utility import build_inflation_adjust
        target, base = spec['year'], spec['other']
        years = {target, base, self.initial + int(spec['pick'] * 20) - 10,
                 self.initial + spec['back'] - 5}
        factors = {year: self.factors(year, self.initial) for year in years}
        order = sorted(factors, key=lambda year: (
            (year * 7919 + int(spec['pick'] * 1000)) % 31, year))
        real = build_inflation_adjust({year: factors[year]
                                       for year in order})
        got = real(target, base), real(target), real(target, base_year=base)
        none = build_inflation_adjust()
        flat = none(target, base), none(target), none()
        same = build_inflation_adjust(self.factors)
        if not judged:
            return
        level = Path(self.index, self.initial)
        self.compare(got[0], level(target, base), 'Inflation by a table of '
                     '%s from %s to %s', order, base, target)
        self.compare(got[1], level(target, min(years)), 'Inflation by a '
                     'table of %s to %s', order, target)
        self.compare(got[2], level(target, base), 'Inflation by a table of '
                     '%s from %s to %s', order, base, target)
        require(flat == (1, 1, 1), 'none', 'Without inflation, amounts '
                'change by %s', flat)
        require(same == self.factors, 'same', 'A function of inflation was '
                'replaced')

    def ask_extend(self, _treatment, spec, judged):
        """ Amounts of any shape, known for some years. """
        from forecaster.utility import extend_inflation_adjusted
        known = sorted({spec['other'], spec['other'] + 3, self.initial})
        income, target = spec['income'], spec['year']

        def amounts(year):
            return [income + year, income / 3, 0]
        shape = ('one', 'list', 'tuple', 'dict')[int(spec['pick'] * 4)]

        def shaped(vals):
            vals = self.num_list(vals)
            return {'one': vals[0], 'list': vals, 'tuple': tuple(vals),
                    'dict': {'xyz'[n]: v for n, v in enumerate(vals)}}[shape]
        table = {year: shaped(amounts(year)) for year in known}
        before = copy.deepcopy(table)
        got = extend_inflation_adjusted(table, self.factors, target)
        if not judged:
            return
        require(table == before, 'inputs-changed', 'Indexing %s changed them '
                'to %s', show(before), show(table))
        base = nearest(known, target)
        factor = Path(self.index, self.initial)(target, base)
        require(type(got) is type(table[base]) or shape == 'one', 'tax',
                'Indexing %s gives %s', show(table[base]), show(got))
        values = ([got] if shape == 'one' else
                  [got[k] for k in 'xyz'] if shape == 'dict' else list(got))
        for have, want in zip(values, amounts(base)):
            self.compare(have, want * factor, 'Indexed amount of %s from %s '
                         'in %s', want, base, target)

    def step_swap(self, index):
        """ The forecast moves on to another scenario. """
        if not self.plan.get('index'):
            return
        self.index = index
        self.source = self.scenario(index)
        self.factors.scenario = self.source
        SIM.op('swap')

    # --- people ---
    def fit(self, treatment, people, year):
        """ False where the law leaves it open who claims a credit. """
        for person in people:
            if treatment['kind'] != 'canada' or person.spouse is None:
                continue
            for part in treatment['parts']:
                if abs(part.net(person, year) -
                       part.net(person.spouse, year)) < 0.01:
                    return False
        return True

    def when(self, spec):
        return max(self.now - spec['back'], self.initial)

    def extras(self, spec):
        deduction, credit = {}, {}
        for name, less, credits_ in spec['extra']:
            if name in self.people:
                deduction[self.people[name]] = self.num(less)
                credit[self.people[name]] = self.num(credits_)
        return deduction, credit

    def ask_person(self, treatment, spec, judged):
        person, year = self.people.get(spec['who'][0]), self.when(spec)
        if person is None or not self.fit(treatment, [person], year):
            return
        deduction, credit = self.extras(spec)
        extra = person in deduction and [deduction[person], credit[person]]
        actual = self.call(treatment, 'person', person, spec, year, extra)
        if judged:
            less = [float(v) for v in extra or (0, 0)]
            self.compare(actual, sum(
                part.person(person, year, *(
                    less if self.helped(spec, number) else (0.0, 0.0)))
                for number, part in enumerate(treatment['parts'])),
                'Tax of %s for %s with %s', person.name, year, show(less))
            real, first = treatment['real'], treatment['parts'][0]
            self.compare(real.deduction(person, year), first.deduction(
                year) + float(person.tax_deduction_history[year]),
                'Deductions of %s for %s', person.name, year)
            given = self.num(less[0])
            if treatment['kind'] != 'tax':
                given = {real.jurisdictions[0]: given}
            for got in (real.credit(person, year),
                        real.credit(person, year, deduction=given)):
                self.compare(got, first.credit(person, year),
                             'Credits of %s for %s', person.name, year)

    def expected(self, treatment, people, spec, year, deduction, credit):
        return sum(part.person(
            person, year, float(deduction.get(person, 0)),
            float(credit.get(person, 0)))
            if self.helped(spec, number) else part.person(person, year)
            for person in people
            for number, part in enumerate(treatment['parts']))

    def ask_people(self, treatment, spec, judged):
        people = [self.people[n] for n in spec['who'] if n in self.people]
        year = self.when(spec)
        members = []
        for person in people:
            if person not in members:
                members.append(person)
        if not self.fit(treatment, members, year):
            return
        deduction, credit = self.extras(spec)
        group = {
            'list': list, 'tuple': tuple, 'set': set, 'iter': iter,
            'dict': lambda x: {p: None for p in x}}[spec['as']](people)
        actual = self.call(treatment, 'people', group, spec, year,
                           spec['extra'] and [deduction, credit])
        if judged:
            SIM.probe('couple' if any(
                p.spouse in members for p in members
                if p.spouse is not None) else 'group')
            self.compare(actual, self.expected(
                treatment, members, spec, year, deduction, credit),
                'Tax of %s of %s for %s', spec['as'],
                [p.name for p in people], year)

    def ask_spouses(self, treatment, spec, judged):
        person, year = self.people.get(spec['who'][0]), self.when(spec)
        if person is None or person.spouse is None:
            return
        pair = [person, person.spouse]
        if not self.fit(treatment, pair, year):
            return
        deduction, credit = self.extras(spec)
        if treatment['kind'] == 'tax':
            actual = treatment['real'].tax_spouses(
                set(pair), year, *(
                    (deduction, credit) if self.helped(spec, 0) else ()))
        else:
            taxes = [t for n, t in enumerate(treatment['real'].jurisdictions)
                     if self.helped(spec, n)]
            actual = treatment['real'].tax_spouses(
                set(pair), year, {t: deduction for t in taxes},
                {t: credit for t in taxes})
        if judged:
            SIM.probe('couple')
            self.compare(actual, self.expected(
                treatment, pair, spec, year, deduction, credit),
                'Tax of spouses %s for %s', [p.name for p in pair], year)

    # --- what happens in between ---
    def step_flow(self, name, value, when):
        account = self.accounts.get(name)
        if account is None:
            return
        if type(account).__name__ == 'TaxableAccount':
            # (What an overdrawn taxable account's gains are is
            # unspecified.)
            value = abs(value)
        account.add_transaction(self.num(value), self.num(when))
        SIM.op('flow')

    def step_year(self):
        if self.now - self.initial >= self.plan['years']:
            return
        self.now += 1
        for ledgers in (self.people, self.accounts):
            for name in sorted(ledgers):
                while ledgers[name].this_year < self.now:
                    ledgers[name].next_year()
        SIM.years(1)
        SIM.op('year')


def execute(plan, prop):
    number = 0
    while number < len(plan['taxes']):
        spec = plan['taxes'][number]
        if spec['kind'] == 'same' and not 0 <= spec['of'] < number:
            del plan['taxes'][number]
        else:
            number += 1
    if not plan['taxes'] or not plan['people']:
        return
    world = World(plan, prop)
    for step in plan['steps']:
        getattr(world, 'step_' + step[0])(*step[1:])
    SIM.checked()
