"""World: whole forecasts, from a household's plan to its records.

Real code: Forecaster, Forecast and its five stages, TransactionStrategy,
TransactionTraversal, LivingExpensesStrategy, Tax, TaxCanada, Scenario,
Person and all account types.
Simulated: client callables (rates, raises, withholding, inflation,
strategies, taxes), which may fail at a chosen call, or look at the household
when they are called; set order and hashes; the clock; interrupts.
"""
import collections
import copy

from dst import seams
from dst.build import Family, gen_account, gen_person, gen_rates, money
from dst.client import Interrupter, Mapping, gen_interrupt
from dst.model import Inflation
from dst.core import (
    SIM, ClientFault, Interrupt, Violation, close, freeze, frozen_close,
    nonzero, num, require, require_close, show)

# Properties whose forecasts may follow failed ones.
DISTURBED = ('P13', 'P14', 'P18', 'P20', 'P23', 'P28')
SHRINK_LISTS = ['accounts', 'people', 'looks', 'faults', 'others']
SHRINK_KEEP = {'mode', 'year', 'route'}

STAGES = ('income', 'living_expenses', 'saving', 'withdrawal', 'tax')
STAGE_PROPS = {
    'income': ('asset_sale', 'carryover', 'gross_income', 'tax_withheld',
               'net_income', 'transactions'),
    'living_expenses': ('living_expenses', 'transactions'),
    'saving': ('debt_repayment', 'retirement_savings', 'total',
               'transactions'),
    'withdrawal': ('gross_withdrawals', 'net_withdrawals', 'transactions'),
    'tax': ('tax_withheld', 'tax_owing', 'tax_adjustment', 'transactions'),
}
FORECAST_PROPS = ('income', 'living_expenses', 'savings', 'principal',
                  'withdrawals', 'tax')
PERSON_PROPS = ('gross_income', 'net_income', 'raise_rate', 'tax_withheld',
                'taxable_income', 'tax_deduction', 'tax_credit')
ACCOUNT_PROPS = ('balance', 'rate', 'returns', 'transactions',
                 'taxable_income', 'tax_withheld', 'tax_deduction',
                 'tax_credit')
EXTRA_PROPS = {'TaxableAccount': ('acb', 'capital_gain'),
               'RRSP': ('contribution_room',), 'TFSA': ('contribution_room',)}

WORKING = ['Constant contribution', 'Constant living expenses',
           'Percentage of net income', 'Percentage of gross income',
           'Percentage of earnings growth']
RETIRED = ['Constant living expenses', 'Percentage of principal at retirement',
           'Percentage of net income at retirement',
           'Percentage of gross income at retirement']


KINDS = {
    'Account': ['Account'], 'TaxableAccount': ['Account'],
    'Debt': ['Account'],
    'RRSP': ['RegisteredAccount', 'LinkedLimitAccount', 'Account'],
    'TFSA': ['RegisteredAccount', 'LinkedLimitAccount', 'Account']}


# --- generation -------------------------------------------------------------
def gen_living(rng, names):
    return {'strategy': rng.choice(names),
            'base': rng.choice([0, money(rng, 100, 60000)]),
            'rate': round(rng.uniform(0, 1.1), 3),
            'adjust': rng.random() < 0.6}


def gen_weights(rng, kinds):
    """ Distinct weights, keyed by type or by a type it derives from. """
    keys = sorted(set(kinds))
    weights = rng.sample([1, 2, 3, 4, 5, 6, 7, 8], len(keys))
    result = dict(zip(keys, weights))
    if rng.random() < 0.3 and len(keys) > 1:
        # Fall back to the base type for one of them.
        result['Account'] = result.pop(keys[rng.randrange(len(keys))])
    if rng.random() < 0.25:
        # Some types go by what they're kinds of (the nearest counts).
        for key in keys:
            if key in result and rng.random() < 0.5:
                result[rng.choice(KINDS[key])] = result.pop(key)
        for number, kind in enumerate(
                ('Account', 'LinkedLimitAccount', 'RegisteredAccount')):
            if rng.random() < 0.5:
                result.setdefault(kind, 9 + number)
    return result


def gen_strategy(rng, kinds):
    strategy = rng.choice(['Ordered', 'Ordered', 'Weighted'])
    weights = gen_weights(rng, kinds)
    if strategy == 'Weighted' and rng.random() < 0.25:
        weights = dict.fromkeys(weights, 2)
    return {'strategy': strategy, 'weights': weights,
            'debts': rng.choice(['Avalanche', 'Snowball', None]),
            'threshold': rng.choice([None, None, 0, 0.05, 0.1])}


def gen_tax(rng, year):
    if rng.random() < 0.35:
        return {'kind': 'canada', 'province': 'BC'}
    count = rng.randint(1, 4)
    floors = [0] + sorted(rng.sample(range(1000, 150000, 500), count - 1))
    rates = sorted(round(rng.uniform(0, 0.55), 3) for _ in floors)
    return {'kind': 'tax', 'brackets': list(zip(floors, rates)),
            'deduction': rng.choice([None, money(rng, 0, 15000)]),
            'credit_rate': rng.choice([None, round(rng.uniform(0, 0.3), 3)]),
            'payment': rng.choice(['start', 'end', 0.5, 'Q']),
            'refund': rng.choice(['start', 'end', 0.25])}


ALLOCATIONS = ['n-age', 'Transition to constant']


def gen_market(rng, years):
    """ Returns on stocks, bonds and others, in each form they may take. """
    market = {}
    for kind in ('stock', 'bond', 'other'):
        market[kind] = [
            rng.choice(['constant', 'list', 'dict']),
            [round(rng.uniform(-0.2, 0.3), 4) for _ in range(years)]]
        if market[kind][0] == 'constant':
            market[kind][1] = market[kind][1][0]
    return market


def gen_allocation(rng, names):
    name = rng.choice(names)
    low, high = sorted(rng.choice([0, 0, 0.3, 0.5, 0.8, 1, 1,
                                   round(rng.random(), 3)])
                       for _ in range(2))
    table = []
    for _ in range(rng.randint(1, 4)):
        stocks = rng.choice([0, 1, round(rng.random(), 2)])
        bonds = rng.choice([0, 1, round(rng.random(), 2)]) * (1 - stocks)
        table.append([stocks, round(bonds, 6)])
    return {
        'name': name, 'low': low, 'high': high,
        'target': rng.choice([100, 110, 120, 65, rng.randint(60, 140)])
        if name == 'n-age' else round(rng.random(), 2),
        'standard': rng.choice([65, 65, 60, 70]),
        'period': rng.choice([20, 10, 1, 5]),
        'adjust': rng.random() < 0.6, 'table': table}


def returns_of(market, year, num):
    """ Scenario's arguments for a market. """
    returns = {}
    for kind, (form, vals) in market.items():
        vals = num(vals) if form == 'constant' else [num(v) for v in vals]
        returns[kind + '_return'] = vals if form != 'dict' else {
            year + n: val for n, val in enumerate(vals)}
    return returns


def allocator(cls, spec, num, high, retold=False):
    """ An allocation strategy, perhaps one that was another before. """
    values = {
        'target': num(spec['target']), 'min_equity': num(spec['low']),
        'max_equity': num(spec['high']),
        'standard_retirement_age': spec['standard'],
        'risk_transition_period': spec['period'],
        'adjust_for_retirement_plan': spec['adjust']}
    if not retold:
        return cls(spec['name'], high_precision=high, **values)
    other = next(s for s in sorted(cls.strategies) if s != spec['name'])
    strategy = cls(other, num(0.4), min_equity=num(0.3), max_equity=num(0.8),
                   adjust_for_retirement_plan=not spec['adjust'],
                   high_precision=high)
    retell(strategy, strategy=spec['name'], **values)
    return strategy


def retell(made, **values):
    """ A client looks at a strategy which it made, then changes its mind. """
    for name, value in values.items():
        getattr(made, name)
        setattr(made, name, value)
    SIM.probe('strategy_changed')


def gen_investing(rng, plan, num_years):
    plan['market'] = gen_market(rng, num_years + 2)
    plan['investing'] = gen_allocation(rng, ALLOCATIONS)
    for account in plan['accounts']:
        if account['type'] != 'Debt' and rng.random() < 0.7:
            account['invested'] = True


def generate(rng, prop, tier):
    deep, vast = tier != 'quick', tier == 'vast'
    num_years = rng.randint(*(12, 30) if vast else (2, 12 if deep else 5))
    year = rng.choice([2017, 2017, 2018])
    plan = {
        'mode': 'f' if rng.random() < 0.85 else 'd', 'year': year,
        'num_years': num_years,
        'route': rng.choice(['direct', 'forecaster']),
        'inflation': rng.choice([None, 0.02, round(
            rng.uniform(-0.02, 0.1), 4)]),
        'returns': round(rng.uniform(0, 0.1), 3)}
    if rng.random() < 0.3 and year == 2017:
        plan['inflation'] = [round(rng.uniform(-0.01, 0.08), 3)
                             for _ in range(num_years + 1)]
    people = []
    for number in range(rng.choice([1, 1, 2, 2, 3] if not vast else [3, 5])):
        people.append(gen_person(
            rng, 'p%d' % number, year, num_years, number == 1))
    plan['people'] = people
    names = [p['id'] for p in people]
    kinds = ['Account', 'RRSP', 'TFSA', 'TaxableAccount', 'Debt', 'Debt']
    plan['accounts'] = [
        gen_account(rng, 'a%d' % n, rng.choice(kinds), names, num_years)
        for n in range(rng.randint(1, 9 if vast else 6 if deep else 4))]
    if prop in ('P23',):
        plan['accounts'].append(
            gen_account(rng, 'a9', 'RRSP', names, num_years))
    have = [a['type'] for a in plan['accounts']]
    plan['saving'] = gen_strategy(rng, have)
    plan['withdrawal'] = gen_strategy(
        rng, [k for k in have if k != 'Debt'] or ['Account'])
    plan['living'] = gen_living(rng, WORKING)
    if rng.random() < 0.5:
        plan['living']['retired'] = gen_living(rng, RETIRED)
        if rng.random() < 0.4:
            plan['living']['minimum'] = gen_living(
                rng, ['Constant living expenses'])
        for person in people:
            # Retirees' spending refers to their records of that year.
            if int(person['retire'][:4]) < year:
                person['retire'] = '%d%s' % (year, person['retire'][4:])
    plan['tax'] = gen_tax(rng, year)
    if len(people) > 1 and rng.random() < 0.15 and not (
            plan['tax']['kind'] == 'canada' and people[1]['spouse']):
        # (Which of two spouses that earn the same comes first is undefined.)
        for name in rng.choice([['income'], ['income', 'raises'],
                                ['income', 'raises', 'treatment', 'timing']]):
            people[1][name] = copy.deepcopy(people[0][name])
    if prop == 'P28' or rng.random() < 0.15:
        gen_investing(rng, plan, num_years)
    plan['plain'] = rng.random() < 0.3
    plan['retold'] = rng.random() < 0.15
    plan['looks'] = []
    plan['faults'] = []
    plan['others'] = []
    if prop in ('P04', 'P02'):
        for _ in range(rng.randint(1, 8)):
            plan['looks'].append([
                rng.choice(['living', 'saving', 'withdrawal', 'tax']),
                rng.randint(1, num_years), rng.choice(['all', 'one']),
                rng.randint(0, 60)])
    if prop == 'P17' or prop in DISTURBED and rng.random() < 0.25:
        for _ in range(rng.randint(1, 3 if prop == 'P17' else 2)):
            if rng.random() < 0.7:
                plan['faults'].append(['call', rng.choice(
                    names + [a['id'] for a in plan['accounts']] +
                    ['infl', 'economy', 'living', 'saving', 'withdrawal',
                     'tax']),
                    rng.choice([1, 2, rng.randint(1, 12)])])
            else:
                plan['faults'].append(
                    ['interrupt', gen_interrupt(rng, 400, 20000)])
        if prop == 'P17':
            plan['route'] = 'forecaster'
    if prop == 'P15':
        plan['route'] = 'forecaster'
        for _ in range(rng.randint(1, 4)):
            plan['others'].append([
                rng.choice(['run', 'other', 'settings', 'param', 'touch',
                            'get']), rng.randint(0, 1000)])
        if rng.random() < 0.4:
            # Express the same plan as settings.
            plan['built'] = True
            plan['living'] = gen_living(rng, WORKING)
            plan['living']['adjust'] = True
            for other in plan['others']:
                if rng.random() < 0.4:
                    other[0] = rng.choice(['tweak', 'tweak', 'set'])
            for which in ('saving', 'withdrawal'):
                plan[which].update(debts=None, threshold=None)
            plan['tax']['refund'] = 'start'
    if prop in ('P02', 'P12'):
        plan['shorter'] = rng.randint(1, num_years)
    if prop == 'P02':
        plan['pokes'] = [
            [rng.choice(['clear', 'clear', 'forget', 'undo', 'call', 'year',
                         'tx', 'look']), rng.randint(0, 60)]
            for _ in range(rng.randint(0, 6))]
    if prop == 'P16':
        plan['salts'] = [rng.getrandbits(32), rng.randint(-4000, 4000)]
        if rng.random() < 0.12:
            plan['hash_seed'] = rng.randint(1, 4000)
        if rng.random() < 0.15:
            round_sums(rng, plan)
        if rng.random() < 0.3:
            plan['ties'] = rng.choice(['rate', 'balance'])
    return plan


def round_sums(rng, plan):
    """ Everyone lives on the same round sum from each of several accounts,
    right where the rate of withholding changes. """
    plan['accounts'] = [
        spec for spec in plan['accounts'] if spec['type'] != 'Debt']
    share = rng.choice([5000, 15000])
    for spec in plan['accounts']:
        spec['balance'] = rng.choice([20, 40, 60]) * share
    for person in plan['people']:
        person['income'] = 0.0
    plan['living'] = {
        'strategy': 'Constant living expenses', 'adjust': False, 'rate': 0,
        'base': share * max(len(plan['accounts']), 1)}
    plan['withdrawal'].update(
        strategy=rng.choice(['Ordered', 'Weighted']), weights={'Account': 1})
    SIM.probe('round_sums')


class ScenarioInflation(Inflation):
    """ Inflation as a scenario's list of yearly rates has it. """

    def _rate(self, year):
        if not isinstance(self.spec, list):
            return self.spec
        place = year - self.initial_year
        return self.spec[place] if 0 <= place < len(self.spec) else 0.0


# --- one forecast -------------------------------------------------------------
class Household(Family):
    """ A family together with its scenario, strategies and taxes. """

    def __init__(self, plan):
        from forecaster.scenario import Scenario
        self.plan = plan
        self.num_years = plan['num_years']
        inflation = plan['inflation']
        if isinstance(inflation, list):
            inflation = inflation[:plan['num_years'] + 1]
            if len(inflation) < plan['num_years'] + 1:
                inflation = inflation + [0] * (
                    plan['num_years'] + 1 - len(inflation))
            plan['inflation'] = inflation
        mode = (lambda v: v)
        if plan['mode'] == 'd':
            from decimal import Decimal
            mode = (lambda v: Decimal(str(v)))
        if inflation is None:
            rates = mode(0)
        elif isinstance(inflation, list):
            rates = [mode(v) for v in inflation]
        else:
            rates = mode(inflation)
        returns = {kind + '_return': mode(plan['returns'])
                   for kind in ('stock', 'bond', 'other')}
        if plan.get('market'):
            returns = returns_of(plan['market'], plan['year'], mode)
        self.arms = {}
        if any(fault[:2] == ['call', 'economy'] for fault in plan['faults']):
            # The scenario looks its rates up in a source that may fail.
            rates = Mapping(self, 'economy', {
                plan['year'] + n: rate for n, rate in enumerate(rates)}) if (
                    isinstance(rates, list)) else Mapping(
                        self, 'economy', {}, rates)
        self.scenario = Scenario(
            plan['year'], plan['num_years'], inflation=rates,
            management_fees=mode(0), **returns)
        self.mode = mode
        self.investing = None
        if plan.get('investing'):
            from decimal import Decimal
            from forecaster.strategy import AllocationStrategy
            self.investing = allocator(
                AllocationStrategy, plan['investing'],
                (lambda v: v) if plan.get('plain') else mode,
                Decimal if plan['mode'] == 'd' else None, plan.get('retold'))
        self.tax_object = self.make_tax()
        super().__init__(plan, tax=self.tax_object)
        self.inflation = ScenarioInflation(plan['inflation'], plan['year'])
        self.living = self.client('living', self.build_living())
        self.saving = self.client('saving', self.build_strategy('saving'))
        self.withdrawal = self.client(
            'withdrawal', self.build_strategy('withdrawal'))
        self.tax_client = self.client('tax', self.tax_object)
        self.forecast = None
        self.withheld = None

    def rate_of(self, spec):
        if spec.get('invested') and self.investing is not None:
            return self.investing.rate_function(
                self.people[spec['owner']], self.scenario)
        return super().rate_of(spec)

    def make_tax(self):
        from forecaster.tax import Tax
        from forecaster.canada.tax import TaxCanada
        plan, mode = self.plan, self.mode
        spec = plan['tax']
        high = None
        if plan['mode'] == 'd':
            from decimal import Decimal as high
        if spec['kind'] == 'canada':
            return TaxCanada(
                self.scenario.inflation_adjust, spec['province'],
                high_precision=high)
        kwargs = {}
        if spec['deduction'] is not None:
            kwargs['personal_deduction'] = {
                plan['year']: mode(spec['deduction'])}
        if spec['credit_rate'] is not None:
            kwargs['credit_rate'] = {
                plan['year']: mode(spec['credit_rate'])}
        return Tax(
            {plan['year']: {mode(f): mode(r)
                            for f, r in spec['brackets']}},
            inflation_adjust=self.scenario.inflation_adjust,
            payment_timing=(
                mode(spec['payment']) if spec['payment'] == 0.5
                else spec['payment']),
            refund_timing=(
                mode(spec['refund']) if spec['refund'] == 0.25
                else spec['refund']), high_precision=high, **kwargs)

    def build_living(self):
        from forecaster.strategy import (
            LivingExpensesStrategy, LivingExpensesStrategySchedule)

        def one(spec):
            values = {'base_amount': self.given(spec['base']),
                      'rate': self.given(spec['rate'])}
            adjust = self.scenario.inflation_adjust if spec['adjust'] else None
            if not self.plan.get('retold'):
                return LivingExpensesStrategy(
                    self.method(LivingExpensesStrategy, spec['strategy']),
                    inflation_adjust=adjust, high_precision=self.high,
                    **values)
            strategy = LivingExpensesStrategy(
                'Constant contribution', self.num(1), self.num(0.5),
                inflation_adjust=adjust, high_precision=self.high)
            retell(strategy, strategy=spec['strategy'], **values)
            return strategy
        spec = self.plan['living']
        if not spec.get('retired'):
            return one(spec)
        return LivingExpensesStrategySchedule(
            one(spec), one(spec['retired']),
            one(spec['minimum']) if spec.get('minimum') else None)

    def method(self, cls, name):
        """ A strategy may be given by its method, not only its name. """
        return cls.strategies[name] if self.plan.get('plain') else name

    def given(self, val):
        """ Some numbers may be given plainly, and are converted. """
        return val if self.plan.get('plain') else self.num(val)

    def build_strategy(self, which):
        from forecaster.strategy import TransactionStrategy
        spec = self.plan[which]
        kwargs = {}
        if spec['debts'] is not None:
            kwargs['debt_strategy'] = spec['debts']
        weights = {k: self.num(v) for k, v in spec['weights'].items()}
        if not self.plan.get('retold'):
            return TransactionStrategy(
                self.method(TransactionStrategy, spec['strategy']), weights,
                high_interest_threshold=self.num(spec['threshold']),
                high_precision=self.high, **kwargs)
        strategy = TransactionStrategy(
            'Ordered', {}, high_interest_threshold=self.num(0.01),
            high_precision=self.high, **kwargs)
        retell(strategy, strategy=spec['strategy'], weights=weights,
               high_interest_threshold=self.num(spec['threshold']))
        return strategy

    def forecaster(self):
        from forecaster.canada.forecaster import ForecasterCanada
        from forecaster.forecaster import Forecaster
        cls = (ForecasterCanada if self.plan['tax']['kind'] == 'canada'
               else Forecaster)
        return cls(
            scenario=self.scenario, living_expenses_strategy=self.living,
            saving_strategy=self.saving,
            withdrawal_strategy=self.withdrawal,
            tax_treatment=self.tax_client, high_precision=self.high)

    def watched(self):
        """ The objects which are being forecast, in a stable order. """
        return list(self.everything().values())

    def inputs(self):
        return (set(self.people.values()), set(self.accounts.values()),
                set(self.debts.values()))

    def run(self, forecaster=None):
        """ The forecast of this household. """
        people, accounts, debts = self.inputs()
        if self.plan['route'] == 'forecaster' or forecaster is not None:
            if forecaster is None:
                forecaster = self.forecaster()
            self.forecast = forecaster.run_forecast(people, accounts, debts)
        else:
            self.forecast = self.direct(people, accounts, debts)
        return self.forecast

    def direct(self, people, accounts, debts):
        from forecaster.forecast import (
            Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
            TaxForecast, WithdrawalForecast)

        self.openings = openings = {}

        class SpiedIncome(IncomeForecast):
            """ Notes the cash on hand at the start of each year. """
            def __call__(self, available):
                openings[self.this_year] = dict(available)
                return super().__call__(available)
        spy = self.withheld

        def withheld(stage, accounts):
            return stage.precision_convert(0) + sum(
                account.tax_withheld for account in accounts)

        class SpiedSaving(SavingForecast):
            """ Notes what is withheld from this stage's withdrawals. """
            def __call__(self, available):
                if spy is None:
                    return super().__call__(available)
                before = withheld(self, self.retirement_accounts)
                super().__call__(available)
                spy['saving', self.this_year] = float(
                    withheld(self, self.retirement_accounts) - before)

        class SpiedWithdrawal(WithdrawalForecast):
            """ Notes what is withheld from this stage's withdrawals. """
            def __call__(self, available):
                if spy is None:
                    return super().__call__(available)
                before = withheld(self, self.accounts)
                super().__call__(available)
                spy['withdrawal', self.this_year] = float(
                    withheld(self, self.accounts) - before)
        high = self.high
        return Forecast(
            SpiedIncome(self.year, people, high_precision=high),
            LivingExpensesForecast(
                self.year, people, self.living, high_precision=high),
            SpiedSaving(self.year, accounts, debts, self.saving,
                        high_precision=high),
            SpiedWithdrawal(self.year, people, accounts, self.withdrawal,
                               high_precision=high),
            TaxForecast(self.year, people, self.tax_client,
                        high_precision=high),
            self.scenario, high_precision=high)


def label(obj, cash):
    if obj is None:
        return 'outside'
    if obj is cash or isinstance(obj, dict):
        return 'cash'
    return getattr(obj, 'label', None) or getattr(obj, 'name', '?')


def flows_of(series, cash):
    """ {label: {when: value}} of a stage's transactions. """
    result = {}
    for key in series:
        flows = result.setdefault(label(key, cash), {})
        for when, value in series[key].items():
            when = round(float(when), 12)
            flows[when] = flows.get(when, 0.0) + float(value)
    return result


class Record:
    """ Everything that a finished forecast reports, by name. """

    def __init__(self, forecast):
        self.forecast = forecast
        self.values = {}
        self.cash = forecast.available
        first = forecast.initial_year
        self.years = list(range(first, forecast.this_year + 1))
        for prop in FORECAST_PROPS:
            self.take('forecast', forecast, prop)
        for name in STAGES:
            stage = getattr(forecast, name + '_forecast')
            for prop in STAGE_PROPS[name]:
                self.take(name, stage, prop)
        for person in forecast.people:
            for prop in PERSON_PROPS:
                self.take(person.name, person, prop)
        self.accounts = {a.label: a for a in forecast.assets}
        self.debts = {a.label: a for a in forecast.debts}
        self.people = {p.name: p for p in forecast.people}
        for name, account in list(self.accounts.items()) + list(
                self.debts.items()):
            props = ACCOUNT_PROPS + EXTRA_PROPS.get(
                type(account).__name__, ())
            for prop in props:
                self.take(name, account, prop)
        self.end_cash = {
            float(w): float(v) for w, v in forecast.available.items()}
        self.values[('forecast', 'available')] = self.end_cash

    def take(self, name, obj, prop):
        history = getattr(obj, prop + '_history')
        result = {}
        for year in self.years:
            require(year in history, 'history-gap', '%s.%s has no record '
                    'for %s', name, prop, year)
            val = history[year]
            if prop == 'transactions':
                if name in STAGES:
                    val = {k: nonzero(v) for k, v in flows_of(
                        val, self.cash).items()}
                    val = {k: v for k, v in val.items() if v}
                else:
                    val = nonzero(val)
            else:
                val = num(val)
            result[year] = val
        self.values[(name, prop)] = result

    def get(self, name, prop, year):
        return self.values[(name, prop)][year]

    def total(self, stage, who, year):
        """ Net flow to `who` in a stage. """
        return sum(self.get(stage, 'transactions', year).get(who, {}).values())

    def log(self):
        for key in sorted(self.values):
            SIM.event(key[0], key[1], self.values[key])


def rounded(val):
    """ A value for comparison between runs. """
    if isinstance(val, dict):
        return {k: rounded(v) for k, v in val.items()}
    return val


def compare(first, second, kind, what, tol=1e-7, years=None, skip=()):
    """ Two records say the same. """
    scale = max([1.0] + [
        abs(v) for (n, p), vals in first.values.items()
        if p in ('balance', 'gross_income') for v in vals.values()])
    for key in sorted(first.values):
        if key in skip:
            continue
        one, two = first.values[key], second.values.get(key)
        SIM.checked()
        if key == ('forecast', 'available'):
            if years is None and not same(one, two, tol, scale):
                raise Violation(kind, '%s: final cash is %s, and %s' % (
                    what, show(one), show(two)))
            continue
        for year in (years or first.years):
            if not same(one[year], two[year], tol, scale):
                raise Violation(kind, '%s: %s.%s in %s is %s, and %s' % (
                    what, key[0], key[1], year, show(one[year]),
                    show(two[year])))


def same(one, two, tol, scale):
    if isinstance(one, dict) or isinstance(two, dict):
        return all(
            same(one.get(k, {} if isinstance(two.get(k), dict) else 0.0),
                 two.get(k, {} if isinstance(one.get(k), dict) else 0.0),
                 tol, scale)
            for k in set(one) | set(two))
    return close(one, two, tol, scale) or abs(one - two) <= 2e-4


# --- looking ------------------------------------------------------------------
def attach_looks(house, looks, on_look=None):
    """ Makes client code look at the household while it is being called. """
    counts = collections.Counter()
    state = {'busy': False}
    if not looks:
        return

    def on_call(name):
        if state['busy'] or name not in (
                'living', 'saving', 'withdrawal', 'tax'):
            return
        counts[name] += 1
        for who, nth, style, pick in looks:
            if who == name and nth == counts[name]:
                state['busy'] = True
                try:
                    look(house, style, pick)
                finally:
                    state['busy'] = False
    house.on_call = on_call


def look(house, style, pick):
    """ Reads people and accounts, as a curious strategy might. """
    SIM.op('look')
    targets = []
    for obj in house.watched():
        name = type(obj).__name__
        props = PERSON_PROPS if name == 'Person' else (
            ACCOUNT_PROPS + EXTRA_PROPS.get(name, ()))
        for prop in props:
            targets.append((obj, prop))
            targets.append((obj, prop + '_history'))
    if style == 'one':
        targets = [targets[pick % len(targets)]]
    for obj, prop in targets:
        getattr(obj, prop)


def untie(plan):
    """ Debts are repaid in order of rates, and accounts in order of weights:
    equal ones may come in any order. Don't have any. """
    debts = [a for a in plan['accounts'] if a['type'] == 'Debt']
    ties = plan.get('ties') if len(debts) > 1 else None
    for account in plan['accounts']:
        more = 0.0001 * (1 + int(account['id'][1:]))
        if ties and account['type'] == 'Debt':
            # Debts may be as dear, or as large, as each other (not both).
            if ties == 'rate':
                account['rate'] = debts[0]['rate']
                account['balance'] -= int(account['id'][1:]) * 100
                continue
            account['balance'] = debts[0]['balance']
            SIM.probe('tied_debts')
        rates = account['rate']
        account['rate'] = (
            [round(round(r, 3) + more, 4) for r in rates]
            if isinstance(rates, list) else round(round(rates, 3) + more, 4))
    for which in ('saving', 'withdrawal'):
        weights = plan[which]['weights']
        if plan[which]['strategy'] == 'Weighted':
            continue
        for number, key in enumerate(sorted(weights)):
            if list(weights.values()).count(weights[key]) > 1:
                weights[key] += 0.001 * (number + 1)


def execute(plan, prop):
    from dst.worlds.forecast_checks import CHECKS
    if prop in ('P02', 'P04', 'P15', 'P16', 'P17', 'P18', 'P27'):
        untie(plan)
    CHECKS[prop](plan)


def finished(house, **kwargs):
    house.run(**kwargs)
    record = Record(house.forecast)
    SIM.years(len(record.years))
    SIM.op('forecast')
    return record


def note(plan, record):
    """ The run's event log and abstract state. """
    record.log()
    for year in record.years:
        SIM.state(
            tuple(sorted(a['type'] for a in plan['accounts'])),
            record.get('forecast', 'savings', year) > 0,
            record.get('forecast', 'withdrawals', year) > 0,
            len(record.get('saving', 'transactions', year)),
            len(record.get('withdrawal', 'transactions', year)),
            record.get('tax', 'tax_adjustment', year) > 0)

