"""Families of real people, accounts and debts for worlds that forecast."""
import calendar
from datetime import datetime
from decimal import Decimal

from dst.client import Callable
from dst.model import INF, Inflation, lasting, yearly


def money(rng, low, high):
    if low <= 1 < high and rng.random() < 0.03:
        return round(rng.uniform(0.01, 1), 2)
    return round(rng.uniform(low, high), 2)


def gen_rates(rng, years, low=-0.2, high=0.3):
    def one():
        return rng.choice([0.0, 0.05, round(rng.uniform(low, high), 4)])
    if rng.random() < 0.4:
        return one()
    return [one() for _ in range(rng.randint(2, years + 1))]


PAY_TIMINGS = ['BW', 'M', 'Q', 'start', 'end', 0.5, 0.25,
               [[0, 1], [0.5, 2]], [[0.25, 1], [1, 1]]]


DATE_FORMS = ['day'] * 6 + ['year', 'number', 'month', 'datetime']


def settle_dates(plan):
    """ Dates which are given in part are completed as documented: a date of
    retirement by the date of birth, and that by the first of January. """
    for spec in plan.get('people', ()):
        for key, default in (('birth', '-01-01'), ('retire', None)):
            form = spec.get(key + '_form', 'day')
            cut = {'year': 4, 'number': 4, 'month': 7}.get(form)
            if cut:
                spec[key] = lasting(spec[key][:cut] + (
                    default or spec['birth'][4:])[cut - 4:])


def gen_birth(rng, year):
    """ Someone's date of birth in that year. """
    if calendar.isleap(year) and rng.random() < 0.15:
        return '%d-02-29' % year
    return '%d-%02d-%02d' % (year, rng.randint(1, 12), rng.randint(1, 28))


def entered_date(spec, key):
    """ A date as the user enters it. """
    date, form = spec[key], spec.get(key + '_form', 'day')
    return {'year': lambda: date[:4], 'number': lambda: int(date[:4]),
            'month': lambda: date[:7],
            'datetime': lambda: datetime(*map(int, date.split('-'))),
            'day': lambda: date}[form]()


def gen_person(rng, name, year, years, first=None):
    birth = year - rng.choice([rng.randint(20, 50), rng.randint(50, 75)])
    retire = year + rng.choice(
        [-1, 0, 1, rng.randint(0, years), years + 3, years + 20])
    spec = {
        'id': name,
        'birth': gen_birth(rng, birth),
        'retire': '%d-%02d-%02d' % (
            retire, rng.randint(1, 12), rng.randint(1, 28)),
        'birth_form': rng.choice(DATE_FORMS),
        'retire_form': rng.choice(DATE_FORMS),
        'income': rng.choice([0.0, money(rng, 100, 20000),
                              money(rng, 20000, 200000)]),
        'raises': gen_rates(rng, years, -0.05, 0.1),
        'treatment': rng.choice(
            ['tax', 'tax', None, [round(rng.uniform(0, 0.5), 3),
                                  rng.choice([0, 10000])]]),
        'timing': rng.choice(PAY_TIMINGS),
        'spouse': bool(first and rng.random() < 0.6)}
    return spec


def gen_account(rng, name, kind, people, years):
    spec = {
        'id': name, 'type': kind, 'owner': rng.choice(people),
        'balance': rng.choice([0.0, money(rng, 10, 1000),
                               money(rng, 1000, 300000)]),
        'rate': gen_rates(rng, years, 0.0 if kind == 'Debt' else -0.15, 0.2),
        'nper': rng.choice([None, 'A', 'M', 2]),
        'timing': rng.choice([None, None, 'M', [[0.25, 1], [0.75, 3]]])}
    if kind == 'TaxableAccount':
        spec['balance'] = money(rng, 1000, 300000)
        spec['acb'] = rng.choice([None, round(
            spec['balance'] * rng.uniform(0.3, 1.2), 2)])
    elif kind == 'Debt':
        spec['balance'] = -money(rng, 100, 60000)
        spec['minpay'] = rng.choice([0, money(rng, 1, 2000)])
        spec['accel'] = rng.choice([None, 0, money(rng, 1, 20000)])
    elif kind in ('RRSP', 'TFSA'):
        spec['room'] = rng.choice([None, 0, money(rng, 0, 60000)])
        if kind == 'RRSP' and len(people) > 1 and rng.random() < 0.25:
            spec['contributor'] = rng.choice(people)
    return spec


class Family:
    """ The real objects of a plan, and control over their clients. """

    def __init__(self, plan, tax=None):
        self.plan = plan
        self.year = plan['year']
        self.high = Decimal if plan.get('mode') == 'd' else None
        self.arms = {}
        self.inflation = Inflation(plan.get('inflation'), self.year)
        self.people = {}
        self.accounts = {}
        self.debts = {}
        self.tax = tax
        self.calls = {}
        self.build()

    def num(self, val):
        if val is None:
            return None
        return Decimal(str(val)) if self.high else val

    def client(self, name, func):
        return Client(self, name, func)

    def timing(self, val, raw=False):
        from forecaster.utility import Timing
        if val is None:
            return Timing(high_precision=self.high)
        if isinstance(val, list):
            val = {self.num(w): self.num(v) for w, v in val}
        elif isinstance(val, (int, float)):
            val = self.num(val)
        return val if raw else Timing(val, high_precision=self.high)

    def per_year(self, name, val):
        return self.client(
            name, lambda year: self.num(yearly(val, year, self.year)))

    def rate_of(self, spec):
        return self.per_year(spec['id'], spec['rate'])

    def adjust(self, target_year, base_year=None):
        return self.num(self.inflation(target_year, base_year))

    def treatment(self, spec):
        val = spec['treatment']
        if val is None:
            return None
        if val == 'tax':
            if self.tax is None:
                return None
            return self.client(spec['id'], self.tax)
        rate, floor = self.num(val[0]), self.num(val[1])
        return self.client(
            spec['id'],
            lambda income, _: max(income - floor, self.num(0)) * rate)

    def build(self):
        from forecaster.person import Person
        from forecaster.accounts import Account, Debt
        from forecaster.canada import accounts as canada
        for spec in self.plan['people']:
            spouse = None
            if isinstance(spec.get('spouse'), str):
                spouse = self.people.get(spec['spouse'])
            elif spec.get('spouse') and 'p0' in self.people:
                spouse = self.people['p0']
            self.people[spec['id']] = Person(
                self.year, spec['id'], entered_date(spec, 'birth'),
                retirement_date=entered_date(spec, 'retire'),
                gross_income=self.num(spec['income']),
                raise_rate=self.per_year(spec['id'], spec['raises']),
                spouse=spouse, tax_treatment=self.treatment(spec),
                payment_timing=self.timing(
                    spec['timing'], int(spec['birth'][-1]) % 2),
                high_precision=self.high)
        for spec in self.plan['accounts']:
            if spec['owner'] not in self.people:
                continue
            kwargs = dict(
                balance=self.num(spec['balance']),
                rate=self.rate_of(spec),
                nper=spec['nper'], high_precision=self.high,
                default_timing=self.timing(
                    spec['timing'], spec['nper'] is None))
            kind = spec['type']
            cls = {'Account': Account, 'Debt': Debt}.get(kind)
            if cls is None:
                cls = getattr(canada, kind)
            if kind == 'Debt':
                kwargs['minimum_payment'] = self.num(spec['minpay'])
                kwargs['accelerated_payment'] = (
                    self.num(spec['accel']) if spec['accel'] is not None
                    else (Decimal('Infinity') if self.high else INF))
            elif kind == 'TaxableAccount':
                kwargs['acb'] = self.num(spec['acb'])
            elif kind in ('RRSP', 'TFSA'):
                kwargs['inflation_adjust'] = self.client(
                    'infl', self.adjust)
                kwargs['contribution_room'] = self.num(spec['room'])
                if spec.get('contributor') in self.people:
                    kwargs['contributor'] = self.people[spec['contributor']]
            account = cls(self.people[spec['owner']], **kwargs)
            account.label = spec['id']
            if kind == 'Debt':
                self.debts[spec['id']] = account
            else:
                self.accounts[spec['id']] = account

    def everything(self):
        result = dict(self.people)
        result.update(self.accounts)
        result.update(self.debts)
        return result


class Client(Callable):
    """ A callable which is not copied along with what refers to it, and
    which counts its calls. """

    def __deepcopy__(self, memo):
        return self

    def __call__(self, *args, **kwargs):
        self.world.calls[self.name] = self.world.calls.get(self.name, 0) + 1
        hook = getattr(self.world, 'on_call', None)
        if hook is not None:
            hook(self.name)
        return super().__call__(*args, **kwargs)

    def __getattr__(self, name):
        # A tax treatment may be asked for its timings, etc.
        if name in ('func', 'world', 'name') or name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.func, name)


