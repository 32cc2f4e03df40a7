"""Reference model of people and accounts.

Deliberately plain: every quantity is a function of the plan and of the
transactions made so far, worked out afresh, with no caching.  Written from
the documentation of the classes, not from their code.
"""
import calendar
import math

INF = float('inf')

RRSP_MAX = {2017: 25750.55}
RRSP_RATE = 0.18
RRIF_AGE = 71
WITHHOLDING = {2017: {0: 0.1, 5000: 0.2, 15000: 0.3}}
RRIF_MIN = {
    71: 0.0528, 72: 0.0540, 73: 0.0553, 74: 0.0567, 75: 0.0582, 76: 0.0598,
    77: 0.0617, 78: 0.0636, 79: 0.0658, 80: 0.0682, 81: 0.0708, 82: 0.0738,
    83: 0.0771, 84: 0.0808, 85: 0.0851, 86: 0.0899, 87: 0.0955, 88: 0.1021,
    89: 0.1099, 90: 0.1192, 91: 0.1306, 92: 0.1449, 93: 0.1634, 94: 0.1879,
    95: 0.2000}
TFSA_ACCRUAL = {
    2009: 5000, 2010: 5000, 2011: 5000, 2012: 5000, 2013: 5500, 2014: 5500,
    2015: 10000, 2016: 5500, 2017: 5500}
TFSA_AGE = 18
NPER = {None: None, 'C': None, 'D': 365, 'W': 52, 'BW': 26, 'SM': 24,
        'M': 12, 'BM': 6, 'Q': 4, 'SA': 2, 'A': 1}


def growth(rate, nper, time):
    """ Growth of $1 over `time` years. """
    if nper is None:
        return math.exp(rate * time)
    return (1 + rate / nper) ** (nper * time)


def yearly(val, year, initial_year):
    """ A per-year value: a constant, or a list that repeats its end. """
    if isinstance(val, list):
        index = min(max(year - initial_year, 0), len(val) - 1)
        return val[index]
    return val


def lasting(date):
    """ The date, or the day before where a year has no such leap day. """
    if date.endswith('-02-29') and not calendar.isleap(int(date[:4])):
        return date[:-2] + '28'
    return date


def retirement_age(spec):
    """ In whole years. """
    age = int(spec['retire'][:4]) - int(spec['birth'][:4])
    if spec['retire'] < lasting(spec['retire'][:4] + spec['birth'][4:]):
        age -= 1
    return age


def shares(spec, age, retirement):
    """ Shares of stocks, bonds and others at an age. """
    bonds = None
    if spec['name'] == 'Client':
        stocks, bonds = spec['table'][age % len(spec['table'])]
    elif spec['name'] == 'n-age':
        if spec['adjust']:
            age += spec['standard'] - retirement
        stocks = (spec['target'] - age) / 100
    else:
        last = retirement if spec['adjust'] else spec['standard']
        first = last - spec['period']
        if age <= first:
            stocks = spec['high']
        elif age >= last:
            stocks = spec['target']
        else:
            part = (age - first) / spec['period']
            stocks = spec['high'] * (1 - part) + spec['target'] * part
    final = min(max(stocks, spec['low']), spec['high'])
    if bonds is None or stocks == 1:
        return final, 1 - final, 0.0
    return final, (1 - final) * bonds / (1 - stocks), (1 - final) * (
        1 - stocks - bonds) / (1 - stocks)


class Inflation:
    """ Inflation factors between any two years. """

    def __init__(self, spec, initial_year):
        self.spec = spec
        self.initial_year = initial_year
        self._levels = {initial_year: 1.0}

    def level(self, year):
        if self.spec is None:
            return 1.0
        if year not in self._levels:
            if year > self.initial_year:
                self._levels[year] = self.level(year - 1) * (
                    1 + self._rate(year - 1))
            else:
                self._levels[year] = self.level(year + 1) / (
                    1 + self._rate(year))
        return self._levels[year]

    def _rate(self, year):
        if isinstance(self.spec, list):
            return self.spec[year % len(self.spec)]
        return self.spec

    def __call__(self, target, base=None):
        if base is None:
            base = self.initial_year
        return self.level(target) / self.level(base)


class Group:
    """ Accounts that share a limit. """

    def __init__(self):
        self.members = []
        self.limit = None


class Terms:
    """ Someone or something whose yearly rate may be set anew. """

    def terms(self, year, val):
        """ The terms in force in a year (`val` being the first ones). """
        for since, new in self.spec.get('terms', ()):
            if since <= year:
                val = new
        return val


class MPerson(Terms):
    def __init__(self, spec, model):
        self.spec = spec
        self.model = model
        self.id = spec['id']
        self.first = model.initial_year
        self.spouse = None
        self.accounts = []
        self.snap = {}      # {year: {prop: value}}
        self._gross = {}

    def inp(self, prop, year):
        return self.spec.get('inputs', {}).get(prop, {}).get(str(year))

    def age(self, year):
        return year - int(self.spec['birth'][:4])

    def retirement(self, year):
        """ The date of retirement, as it's planned in some year. """
        val = self.spec['retire']
        for since, new in self.spec.get('retirements', ()):
            if since <= year:
                val = new
        return val

    def retire_year(self, year):
        return int(self.retirement(year)[:4])

    def retirement_age(self, year):
        """ In whole years. """
        return retirement_age(
            {'birth': self.spec['birth'], 'retire': self.retirement(year)})

    def raise_rate(self, year):
        got = self.inp('raise_rate', year)
        if got is not None:
            return got
        return yearly(self.terms(year, self.spec['raises']), year,
                      self.model.initial_year)

    def gross_income(self, year):
        got = self.inp('gross_income', year)
        if got is not None:
            return got
        if year == self.model.initial_year:
            return self.spec['income']
        if self.retire_year(year) < year:
            return 0.0
        if year not in self._gross:
            self._gross[year] = self.gross_income(year - 1) * (
                1 + self.raise_rate(year))
        return self._gross[year]

    def tax_withheld(self, year):
        got = self.inp('tax_withheld', year)
        if got is not None:
            return got
        return self.model.treatment(
            self.spec.get('treatment'), self.gross_income(year), year)

    def net_income(self, year):
        got = self.inp('net_income', year)
        if got is not None:
            return got
        return self.gross_income(year) - self.tax_withheld(year)

    def value(self, prop, year):
        if year < self.model.year:
            return self.snap[year][prop]
        if prop in ('raise_rate', 'gross_income', 'net_income',
                    'tax_withheld'):
            return getattr(self, prop)(year)
        got = self.inp(prop, year)
        if got is not None:
            return got
        total = sum(a.value(prop, year) for a in self.accounts)
        if prop == 'taxable_income':
            total += self.gross_income(year)
        return total

    PROPS = ('gross_income', 'net_income', 'raise_rate', 'tax_withheld',
             'taxable_income', 'tax_deduction', 'tax_credit')

    def record(self, year):
        self.snap[year] = {p: self.value(p, year) for p in self.PROPS}

    def marry(self, other):
        """ Marriages are one-to-one. """
        for person in (self, other):
            if person is not None and person.spouse is not None:
                person.spouse.spouse = None
                person.spouse = None
        self.spouse = other
        if other is not None:
            other.spouse = self


class MAccount(Terms):
    def __init__(self, spec, model):
        self.spec = spec
        self.model = model
        self.id = spec['id']
        self.type = spec['type']
        self.owner = model.people.get(spec.get('owner'))
        self.snap = {}
        self.tx = {}
        self.tx_hist = {}
        self.nper = NPER[spec['nper']] if isinstance(
            spec['nper'], (str, type(None))) else spec['nper']
        if spec['nper'] is None:
            self.nper = 1       # not given: compounds once a year
        start = spec['balance']
        if self.type == 'Debt' and start > 0:
            start = -start
        self.first = spec.get('opened', model.initial_year)
        self.bal = {self.first: start}
        self.acb_start = {}
        if self.type == 'TaxableAccount':
            acb = spec.get('acb')
            self.acb_start[self.first] = (
                start if acb is None else acb)
        self.conversion = spec.get('conversion')
        self.groups = {}        # {'max_inflow': Group, ...}

    # -- inputs
    def inp(self, prop, year):
        return self.spec.get('inputs', {}).get(prop, {}).get(str(year))

    # -- basics
    def rate(self, year):
        got = self.inp('rate', year)
        if got is not None:
            return got
        if 'alloc' in self.spec and self.terms(year, None) is None:
            # (The function was made for whoever opened the account.)
            holder = self.model.people[self.spec['owner']]
            shares = self.model.allocation(
                self.spec['alloc'], holder.age(year),
                self.spec['retiring_at'] if year == self.first and
                'retiring_at' in self.spec else holder.retirement_age(year))
            return sum(share * yearly(
                self.model.plan['market'][kind][1], year,
                self.model.initial_year) for share, kind in zip(
                    shares, ('stock', 'bond', 'other')))
        return yearly(self.terms(year, self.spec['rate']), year,
                      self.model.initial_year)

    def balance(self, year):
        got = self.inp('balance', year)
        return self.bal[year] if got is None else got

    def transactions(self, year):
        got = self.inp('transactions', year)
        if got is not None:
            return {float(w): v for w, v in got}
        if year == self.model.year:
            return self.tx
        return self.tx_hist.get(year, {})

    def accum(self, year, time):
        return growth(self.rate(year), self.nper, time)

    def balance_at(self, time, year, extra=None):
        total = self.balance(year) * self.accum(year, time)
        for series in (self.transactions(year), extra or {}):
            for when, value in series.items():
                if when <= time:
                    total += value * self.accum(year, time - when)
        return total

    def reach(self, value, when, year):
        """ The first time from `when` on when there is (at least, or at
        most, if it starts with more) a balance; None if too close to
        call. """
        rate = math.log(self.accum(year, 1.0))
        moves = self.transactions(year)
        stops = sorted(w for w in moves if w > when)
        near = 1e-6 * max(1.0, abs(value))
        now, have = when, self.balance_at(when, year)
        while True:
            if abs(have - value) < near:
                return None
            grow = math.inf
            if have * value > 0 and abs(rate) > 1e-9:
                grow = math.log(value / have) / rate
                if grow < 0:
                    grow = math.inf
            elif have * value > 0 and rate:
                return None
            if not stops or now + grow < stops[0] - 1e-9:
                return now + grow
            later = stops.pop(0)
            before = have * self.accum(year, later - now)
            now, have = later, before + moves[later]
            if abs(before - value) < near or abs(have - value) < near:
                return None
            if (before < value) != (have < value):
                return now

    def inflows(self, year, extra=None):
        return sum(v for s in (self.transactions(year), extra or {})
                   for v in s.values() if v > 0)

    def outflows(self, year, extra=None):
        return sum(v for s in (self.transactions(year), extra or {})
                   for v in s.values() if v < 0)

    def returns(self, year):
        got = self.inp('returns', year)
        if got is not None:
            return got
        total = self.balance(year) * (self.accum(year, 1) - 1)
        for when, value in self.transactions(year).items():
            total += value * (self.accum(year, 1 - when) - 1)
        return total

    def next_balance(self, year):
        return self.balance_at(1, year)

    # -- taxable accounts
    def acb(self, year):
        got = self.inp('acb', year)
        return self.acb_start[year] if got is None else got

    def gains(self, year):
        """ (capital gain, adjusted cost base at year-end) """
        acb = self.acb(year)
        gain = 0.0
        for when in sorted(self.transactions(year)):
            value = self.transactions(year)[when]
            if value >= 0:
                acb += value
            else:
                before = self.balance_at(when, year) - value
                share = -value / before
                gain += -value - acb * share
                acb -= acb * share
        got = self.inp('capital_gain', year)
        return (gain if got is None else got), acb

    def feasible(self, year):
        """ True if no withdrawal empties a taxable account. """
        for when, value in self.transactions(year).items():
            if value < 0:
                after = self.balance_at(when, year)
                if after < 1 or (after - value) < 1:
                    return False
        return True

    # -- registered accounts
    def max_conversion(self):
        return self.first + RRIF_AGE - self.owner.age(self.first)

    def move(self, owner):
        self.owner.accounts.remove(self)
        self.owner = owner
        owner.accounts.append(self)

    def conversion_year(self):
        if self.conversion is not None:
            return self.conversion
        return self.max_conversion()

    def minimum_distribution(self, year):
        if self.conversion_year() >= year:
            return 0.0
        age = self.owner.age(year)
        if age in RRIF_MIN:
            return RRIF_MIN[age] * self.balance(year)
        if age > max(RRIF_MIN):
            return max(RRIF_MIN.values()) * self.balance(year)
        return self.balance(year) / (90 - age)

    def tax_withheld(self, year):
        got = self.inp('tax_withheld', year)
        if got is not None:
            return got
        if self.type != 'RRSP':
            return 0.0
        taxable = self.taxable_income(year)
        if self.conversion_year() <= year:
            taxable = max(taxable - max(self.minimum_distribution(year), 0),
                          0.0)
        table = WITHHOLDING[2017]
        real = taxable * self.model.inflation(2017, year)
        below = [b for b in table if b + 1e-5 < real]
        return taxable * table[max(below) if below else min(table)]

    def contribution_room(self, year):
        got = self.inp('contribution_room', year)
        if got is not None:
            return got
        return self.groups['max_inflow'].limit

    def tax_deduction(self, year):
        got = self.inp('tax_deduction', year)
        if got is not None:
            return got
        return self.inflows(year) if self.type == 'RRSP' else 0.0

    def tax_credit(self, year):
        got = self.inp('tax_credit', year)
        return 0.0 if got is None else got

    def taxable_income(self, year):
        got = self.inp('taxable_income', year)
        if got is not None:
            return got
        if self.type == 'RRSP':
            return -self.outflows(year)
        if self.type in ('TFSA', 'PrincipleResidence'):
            return 0.0
        if self.type == 'TaxableAccount':
            return self.gains(year)[0] / 2
        return max(self.returns(year), 0.0)

    # -- limits
    def limit(self, which):
        """ The account's own scalar limit, signed, for the year. """
        year = self.model.year
        if which in self.groups and which == 'max_inflow':
            return self.groups[which].limit
        if self.type == 'Debt':
            return {'min_inflow': self.spec['minpay'],
                    'max_inflow': self.spec['minpay'] + (
                        INF if self.spec['accel'] is None
                        else self.spec['accel']),
                    'min_outflow': 0.0, 'max_outflow': 0.0}[which]
        if which in self.groups:
            limit = self.groups[which].limit
        else:
            limit = {'min_inflow': 0.0, 'max_inflow': INF,
                     'min_outflow': 0.0, 'max_outflow': -INF}[which]
        if self.type == 'RRSP' and which == 'min_outflow':
            limit = min(-self.minimum_distribution(year), limit)
        return limit

    def flows(self, which, timing, cap=None, balance_limit=None,
              extra=None, group_extra=None):
        """ The {when: value} series which max_inflows etc. should give. """
        year = self.model.year
        inflow = which.endswith('inflow')
        flow = 'inflows' if inflow else 'outflows'
        own_extra = extra
        if own_extra is None and group_extra is not None:
            own_extra = group_extra.get(self.id)
        left = self.limit(which) - getattr(self, flow)(year, own_extra)
        if which in self.groups:
            for other in self.groups[which].members:
                if other is not self:
                    left -= getattr(other, flow)(
                        year, (group_extra or {}).get(other.id))
        if cap is not None:
            left = min(left, cap) if inflow else max(left, cap)
        left = max(left, 0.0) if inflow else min(left, 0.0)
        if balance_limit is None:
            if inflow:
                balance_limit = 0.0 if self.type == 'Debt' else INF
            else:
                balance_limit = 0.0
        weights = normal(timing)
        change = balance_limit - self.balance_at(1, year, own_extra)
        per = sum(w * self.accum(year, 1 - t) for t, w in weights.items())
        total = change / per
        if inflow:
            total = max(min(total, left), 0.0)
        else:
            total = min(max(total, left), 0.0)
        return {t: total * w for t, w in weights.items()}

    PROPS = ('balance', 'rate', 'returns', 'taxable_income', 'tax_withheld',
             'tax_credit', 'tax_deduction')

    def props(self):
        extra = {'TaxableAccount': ('acb', 'capital_gain'),
                 'RRSP': ('contribution_room',),
                 'TFSA': ('contribution_room',)}.get(self.type, ())
        return self.PROPS + extra

    def value(self, prop, year):
        if year < self.model.year:
            return self.snap[year][prop]
        if prop == 'capital_gain':
            return self.gains(year)[0]
        return getattr(self, prop)(year)

    def record(self, year):
        self.snap[year] = {p: self.value(p, year) for p in self.props()}


def pairs(timing):
    """ [when, weight] pairs of a timing, however it is given. """
    if isinstance(timing, (int, float)):
        return [[timing, 1]]
    if timing in ('start', 'end'):
        return [[0 if timing == 'start' else 1, 1]]
    if isinstance(timing, str):
        count = NPER[timing]
        return [[(i + 0.5) / count, 1 / count] for i in range(count)]
    return timing


def normal(timing):
    """ {when: weight} as shares of 1, without zero weights. """
    total = sum(timing.values())
    if total == 0:
        timing = {when: 1.0 for when in timing}
        total = len(timing)
    return {w: v / total for w, v in timing.items() if v != 0}


class Model:
    """ A household: people, accounts, shared limits. """

    def __init__(self, plan):
        self.plan = plan
        self.initial_year = self.year = plan['year']
        self.inflation = Inflation(plan.get('inflation'), self.initial_year)
        self.people = {}
        self.accounts = {}
        self.groups = {}
        for spec in plan['people']:
            self.people[spec['id']] = MPerson(spec, self)

    def treatment(self, spec, income, _year):
        """ Tax withheld at source by a person's (simulated) employer. """
        if spec is None:
            return 0.0
        rate, floor = spec
        return max(income - floor, 0.0) * rate

    def allocation(self, index, age, retirement_age):
        specs = self.plan['allocations']
        return shares(specs[index % len(specs)], age, retirement_age)

    def group(self, owner, token):
        return self.groups.setdefault((owner, token), Group())

    def add_account(self, spec):
        """ Adds an account as its constructor would. """
        account = MAccount(spec, self)
        self.accounts[account.id] = account
        if account.owner is not None:
            account.owner.accounts.append(account)
        if account.type in ('RRSP', 'TFSA'):
            contributor = spec.get('contributor') or spec['owner']
            group = self.group(
                contributor, spec.get('token') or account.type)
            group.members.append(account)
            account.groups['max_inflow'] = group
            if spec.get('room') is not None:
                group.limit = spec['room']
            elif group.limit is None:
                group.limit = (0.0 if account.type == 'RRSP' else
                               self.initial_tfsa_room(account))
        elif account.type == 'LinkedLimitAccount':
            for which, (owner, token, limit) in spec['links'].items():
                group = self.group(owner, which + token)
                group.members.append(account)
                account.groups[which] = group
                if limit is not None:
                    group.limit = -limit if 'outflow' in which else limit
                if group.limit is None:
                    group.limit = None
        return account

    def initial_tfsa_room(self, account):
        owner, first = account.owner, account.first
        start, room = max(
            first - owner.age(first) + TFSA_AGE, min(TFSA_ACCRUAL)), 0.0
        past = [int(y) for y in account.spec.get('inputs', {}).get(
            'contribution_room', {}) if int(y) < first]
        if past:
            room = account.inp('contribution_room', max(past))
            start = max(past) + 1
        return float(room + sum(
            self.tfsa_accrual(account, y) for y in range(start, first + 1)))

    deflate_tfsa = False

    def tfsa_accrual(self, account, year):
        if account.owner.age(year) < TFSA_AGE:
            return 0.0
        if year in TFSA_ACCRUAL:
            return TFSA_ACCRUAL[year]
        first = min(TFSA_ACCRUAL)
        factor = (self.inflation(first, year) if self.deflate_tfsa
                  else self.inflation(year, first))
        # The limit is inflation-indexed and rounded to the nearest $500.
        return round(5000 * factor / 500) * 500

    def next_room(self, account, year):
        """ A registered account's (shared) room for year + 1. """
        group = account.groups['max_inflow']
        for member in group.members:
            got = member.inp('contribution_room', year + 1)
            if got is not None:
                return got
        room = account.contribution_room(year)
        if account.type == 'RRSP':
            contributor = self.people[
                account.spec.get('contributor') or account.spec['owner']]
            if contributor.age(year + 1) > RRIF_AGE:
                return 0.0
            most = RRSP_MAX[2017] * self.inflation(year + 1, 2017)
            return (min(contributor.gross_income(year) * RRSP_RATE, most)
                    + room - sum(m.inflows(year) for m in group.members))
        return (self.tfsa_accrual(account, year + 1) + room - sum(
            m.inflows(year) + m.outflows(year) for m in group.members))

    def advance(self):
        """ Everyone and everything moves to the next year. """
        year = self.year
        for person in self.people.values():
            person.record(year)
        for account in self.accounts.values():
            account.record(year)
        rooms = {}
        for account in self.accounts.values():
            if account.type in ('RRSP', 'TFSA'):
                group = account.groups['max_inflow']
                if id(group) not in rooms:
                    rooms[id(group)] = (group, self.next_room(account, year))
            account.bal[year + 1] = account.next_balance(year)
            if account.type == 'TaxableAccount':
                account.acb_start[year + 1] = account.gains(year)[1]
        for account in self.accounts.values():
            account.tx_hist[year] = dict(account.transactions(year))
            account.tx = {}
        self.year += 1
        for group, room in rooms.values():
            group.limit = room
