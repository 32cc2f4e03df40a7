"""World: forecasters at work - told, asked, run, refused and interrupted.

Real code: Forecaster and ForecasterCanada, Settings and SettingsCanada, and
everything they build: Scenario, the strategies, Tax and TaxCanada, Forecast.
Simulated: the user (who changes settings, hands over or takes back parts,
has parts built, and runs forecasts, in seeded order, with two forecasters
which may share their settings); values which are refused; interrupts at any
line; set order and hashes; the clock.
"""
import copy
from decimal import Decimal

from dst.build import money
from dst.client import Interrupter, gen_interrupt
from dst.core import (
    SIM, Interrupt, blame_code, close, freeze, num, require, require_close,
    show)
from dst.model import Inflation, shares
from dst.worlds import forecast
from dst.worlds.forecast import Household, Record, untie

SHRINK_LISTS = ['steps', 'accounts', 'people']
SHRINK_KEEP = {'mode', 'year', 'route'}

PARTS = ['scenario', 'living_expenses_strategy', 'saving_strategy',
         'withdrawal_strategy', 'allocation_strategy', 'tax_treatment']

# What each part is made of, and the setting which says what that is.
SOURCES = {
    'scenario': {
        name: name for name in (
            'initial_year', 'inflation', 'stock_return', 'bond_return',
            'other_return', 'management_fees', 'num_years')},
    'living_expenses_strategy': {
        'strategy': 'living_expenses_strategy',
        'base_amount': 'living_expenses_base_amount',
        'rate': 'living_expenses_rate'},
    'saving_strategy': {
        'strategy': 'saving_strategy', 'weights': 'saving_weights'},
    'withdrawal_strategy': {
        'strategy': 'withdrawal_strategy', 'weights': 'withdrawal_weights'},
    'allocation_strategy': {
        'strategy': 'allocation_strategy', 'target': 'allocation_target',
        'min_equity': 'allocation_min_equity',
        'max_equity': 'allocation_max_equity',
        'standard_retirement_age': 'allocation_std_retirement_age',
        'risk_transition_period': 'allocation_risk_trans_period',
        'adjust_for_retirement_plan': 'allocation_adjust_retirement'},
    'tax_treatment': {
        'tax_brackets': 'tax_brackets',
        'personal_deduction': 'tax_personal_deduction',
        'credit_rate': 'tax_credit_rate',
        'payment_timing': 'tax_payment_timing'}}
ORDER = {
    'scenario': ['initial_year', 'num_years', 'inflation', 'stock_return'],
    'living_expenses_strategy': ['strategy', 'base_amount', 'rate'],
    'saving_strategy': ['strategy', 'weights'],
    'withdrawal_strategy': ['strategy', 'weights'],
    'allocation_strategy': ['strategy', 'target', 'min_equity'],
    'tax_treatment': ['tax_brackets', 'personal_deduction', 'credit_rate']}
CANADA_TAX = {'province': 'tax_province'}

# Settings as they are before anyone changes them.
SHIPPED = {
    'inflation': 0.02, 'stock_return': 0.07, 'bond_return': 0.04,
    'other_return': 0.03, 'management_fees': 0.005, 'num_years': 100,
    'living_expenses_strategy': 'Constant living expenses',
    'living_expenses_base_amount': 60000, 'living_expenses_rate': 0.2,
    'saving_strategy': 'Ordered', 'saving_weights': {'Account': 1},
    'withdrawal_strategy': 'Ordered', 'withdrawal_weights': {'Account': 1},
    'allocation_strategy': 'n-age', 'allocation_min_equity': 0.3,
    'allocation_max_equity': 0.3, 'allocation_std_retirement_age': 65,
    'allocation_target': 65, 'allocation_risk_trans_period': 20,
    'allocation_adjust_retirement': True, 'tax_payment_timing': 'start'}
SHIPPED_CANADA = dict(
    SHIPPED, tax_province='BC',
    saving_weights={'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3},
    withdrawal_weights={'RRSP': 1, 'TFSA': 2, 'SavingsAccount': 3})

# What no part can be made of.
BAD = {
    'num_years': [0, -3], 'living_expenses_strategy': ['Spend it all'],
    'saving_strategy': ['Hope'], 'withdrawal_strategy': ['Hope'],
    'allocation_strategy': ['Guess']}

# Settings which may stand in for another (both are plain numbers).
PLAIN = ['inflation', 'stock_return', 'bond_return', 'other_return',
         'living_expenses_rate', 'allocation_min_equity']


# --- generation -------------------------------------------------------------
def gen_value(rng, name, plan):
    """ A value for a setting. """
    if name == 'initial_year':
        return plan['year']
    if name == 'num_years':
        return rng.randint(1, plan['num_years'])
    if name in ('inflation', 'stock_return', 'bond_return', 'other_return',
                'management_fees'):
        return round(rng.uniform(-0.02, 0.1), 4)
    if name == 'living_expenses_strategy':
        return rng.choice(forecast.WORKING)
    if name == 'living_expenses_base_amount':
        return rng.choice([0, money(rng, 100, 60000)])
    if name == 'living_expenses_rate':
        return round(rng.uniform(0, 1.1), 3)
    if name in ('saving_strategy', 'withdrawal_strategy'):
        return rng.choice(['Ordered', 'Weighted'])
    if name in ('saving_weights', 'withdrawal_weights'):
        have = [a['type'] for a in plan['accounts']]
        if name[0] == 'w':
            have = [k for k in have if k != 'Debt'] or ['Account']
        return forecast.gen_weights(rng, have)
    if name.startswith('allocation'):
        spec = forecast.gen_allocation(rng, forecast.ALLOCATIONS)
        return {
            'allocation_strategy': spec['name'],
            'allocation_target': rng.choice([0, 1, round(rng.random(), 2)])
            if rng.random() < 0.5 else rng.randint(60, 140),
            'allocation_min_equity': rng.choice([0, 0.1, 0.25]),
            'allocation_max_equity': rng.choice([0.3, 0.7, 1]),
            'allocation_std_retirement_age': spec['standard'],
            'allocation_risk_trans_period': spec['period'],
            'allocation_adjust_retirement': spec['adjust']}[name]
    if name == 'tax_payment_timing':
        return rng.choice(['start', 'end', 'Q', 'M'])
    if name == 'tax_province':
        return 'BC'
    if name == 'tax_brackets':
        spec = {'kind': None}
        while spec['kind'] != 'tax':
            spec = forecast.gen_tax(rng, plan['year'])
        return spec['brackets']
    if name == 'tax_personal_deduction':
        return money(rng, 0, 15000)
    if name == 'tax_credit_rate':
        return round(rng.uniform(0, 0.3), 3)
    raise KeyError(name)


def sources(plan):
    """ Settings of each part. """
    result = copy.deepcopy(SOURCES)
    if plan['tax']['kind'] == 'canada':
        result['tax_treatment'] = dict(CANADA_TAX)
    return result


def gen_args(rng, part, plan):
    """ Some arguments of a part, given outright. """
    known = sources(plan)[part]
    if rng.random() < 0.2 and set(ORDER[part]) <= set(known):
        names = ORDER[part][:rng.randint(1, len(ORDER[part]))]
        return dict({n: gen_value(rng, known[n], plan) for n in names},
                    placed=len(names))
    names = [n for n in sorted(known) if n != 'initial_year']
    picked = rng.sample(names, rng.randint(0, min(3, len(names))))
    args = {n: gen_value(rng, known[n], plan) for n in picked}
    if part in ('living_expenses_strategy', 'tax_treatment') and (
            rng.random() < 0.2):
        args['adjust'] = round(rng.uniform(-0.01, 0.08), 4)
    return args


def gen_step(rng, plan):
    """ One thing that the user does. """
    which = rng.choice([0, 0, 1])
    part = rng.choice(PARTS)
    names = sorted({
        s for p in sources(plan).values() for s in p.values()}
        - {'initial_year'})
    roll = rng.random()
    if roll < 0.28:
        name = rng.choice(names)
        return ['setting', which, name, gen_value(rng, name, plan)]
    if roll < 0.34:
        name = rng.choice(sorted(BAD))
        return ['setting', which, name, ['bad', rng.choice(BAD[name])]]
    if roll < 0.38:
        return ['restore', which, rng.choice(names)]
    if roll < 0.42:
        return ['settings', which, rng.randrange(3)]
    if roll < 0.52:
        return ['set', which, part, gen_args(rng, part, plan)]
    if roll < 0.57:
        return ['give', which, part, gen_args(rng, part, plan)]
    if roll < 0.63:
        return ['unset', which, part]
    if roll < 0.645:
        return [rng.choice(['kind', 'special']), which, part]
    if roll < 0.67:
        return ['source', which, rng.choice(PLAIN[:-1]), rng.choice(PLAIN)]
    if roll < 0.69:
        return ['text', which, rng.choice([
            '12', '-3', '0.25', '1e3', 'n-age', '', '1e-3', 'Infinity',
            '0.1000000000000000055', '12345678901234567891',
            str(rng.randint(0, 10 ** 6) / 1000)])]
    if roll < 0.82:
        args = gen_args(rng, part, plan)
        if part in ('living_expenses_strategy', 'saving_strategy',
                    'withdrawal_strategy') and rng.random() < 0.3:
            args['precise'] = rng.choice([True, False])
        return ['build', which, part, args]
    if roll < 0.91:
        return ['get', which, part]
    return ['run', which]


def generate(rng, prop, tier):
    deep = tier != 'quick'
    plan = forecast.generate(rng, 'planner', 'quick')
    plan['route'] = 'direct'
    plan['num_years'] = min(plan['num_years'], 3)
    plan['shared'] = rng.choice([True, True, False, False, None])
    steps = []
    for _ in range(rng.randint(4, 60 if tier == 'vast' else
                               25 if deep else 12)):
        step = gen_step(rng, plan)
        if rng.random() < 0.12 and step[0] in ('set', 'build', 'get', 'run'):
            step = ['interrupt', gen_interrupt(rng, 60, 600, 6000), step]
        steps.append(step)
    steps.append(['run', 0])
    if rng.random() < 0.5:
        steps.append(['get', 1, rng.choice(PARTS)])
    plan['steps'] = steps
    return plan


# --- the model ----------------------------------------------------------------
class Refused(Exception):
    """ The model: no such part can be made. """


class Told:
    """ What one forecaster has been told. """

    def __init__(self, settings, known):
        self.settings = settings
        self.sources = known
        self.given = dict.fromkeys(PARTS)
        self.kinds = {}
        self.special = {}

    def args_of(self, part, given):
        """ What a part is made of now. """
        args = {}
        for name, setting in self.sources[part].items():
            args[name] = self.settings[setting]
        args.update(given)
        args.pop('placed', None)
        adjust = args.pop('adjust', None)
        for name, val in args.items():
            if isinstance(val, list) and val and val[0] == 'bad':
                raise Refused(name)
        if part in ('living_expenses_strategy', 'tax_treatment'):
            args['scenario'] = self.args_now('scenario')
        if adjust is not None:
            # (Only inflation is given outright.)
            args['scenario'] = dict(args['scenario'], inflation=adjust)
        return args

    def args_now(self, part):
        """ What the part which is in use now is made of. """
        if self.given[part] is not None:
            return self.given[part][0]
        return self.args_of(part, {})


# --- the world ----------------------------------------------------------------
class World:
    def __init__(self, plan):
        from forecaster.canada.forecaster import ForecasterCanada
        from forecaster.canada.settings import SettingsCanada
        from forecaster.forecaster import Forecaster
        from forecaster.settings import Settings
        self.plan = plan
        self.year = plan['year']
        self.canada = plan['tax']['kind'] == 'canada'
        self.high = Decimal if plan['mode'] == 'd' else None
        make = SettingsCanada if self.canada else Settings
        self.shipped = dict(
            SHIPPED_CANADA if self.canada else SHIPPED)
        self.names = sorted({
            s for p in sources(plan).values() for s in p.values()})
        # Three sets of settings, of which two are in use to begin with.
        self.settings, self.says = [], []
        cls = ForecasterCanada if self.canada else Forecaster
        self.real_ones = []
        if plan['shared'] is None:
            # Each has settings of its own making.
            self.real_ones = [
                cls(high_precision=self.high) for _ in range(2)]
        for number in range(3):
            real = (self.real_ones[number].settings
                    if number < len(self.real_ones)
                    else make(high_precision=self.high))
            self.settings.append(real)
            says = dict(self.shipped)
            self.says.append(says)
            for name, val in (
                    ('initial_year', self.year),
                    ('num_years', plan['num_years'])):
                setattr(real, name, val)
                says[name] = val
            if not self.canada:
                for name, val in (
                        ('tax_brackets', [[0, 0.2], [20000, 0.3]]),
                        ('tax_personal_deduction', 5000),
                        ('tax_credit_rate', 0.1)):
                    setattr(real, name, self.real(name, val))
                    says[name] = val
        first = [0, 0 if plan['shared'] else 1]
        self.real_ones = self.real_ones or [
            cls(settings=self.settings[n], high_precision=self.high)
            for n in first]
        self.told = [
            Told(self.says[n], sources(plan)) for n in first]

    def num(self, val):
        if isinstance(val, bool) or not isinstance(val, (int, float)):
            return val
        return Decimal(str(val)) if self.high else val

    def real(self, name, val):
        """ A value as it's given to the real code. """
        if isinstance(val, list) and val and val[0] == 'bad':
            return val[1]
        if name in ('tax_personal_deduction', 'personal_deduction',
                    'tax_credit_rate', 'credit_rate'):
            return {self.year: self.num(val)}
        if name == 'tax_brackets':
            return {self.year: {self.num(f): self.num(r) for f, r in val}}
        if name.endswith('weights'):
            return {k: self.num(v) for k, v in val.items()}
        if name in ('num_years', 'initial_year') or name.endswith((
                'retirement_age', 'period')):
            return val
        return self.num(val)

    # --- steps ---
    def step(self, step):
        SIM.op(step[0])
        SIM.event(*map(repr, step))
        SIM.state(step[0], [
            (tuple(part for part in PARTS if told.given[part]),
             len(told.kinds), len(told.special)) for told in self.told],
             self.told[0].settings is self.told[1].settings)
        getattr(self, 'step_' + step[0])(*step[1:])

    def step_setting(self, which, name, val):
        told = self.told[which]
        setattr(self.real_ones[which].settings, name, self.real(name, val))
        told.settings[name] = val
        if isinstance(val, list) and val and val[0] == 'bad':
            SIM.fault('bad_setting')

    def step_restore(self, which, name):
        """ Back to the shipped value. """
        if name not in self.shipped:
            return
        val = self.shipped[name]
        if name == 'num_years':
            val = self.plan['num_years']
        self.step_setting(which, name, val)

    def step_settings(self, which, number):
        self.real_ones[which].settings = self.settings[number]
        self.told[which].settings = self.says[number]

    def step_source(self, which, target, source):
        """ One argument is taken from another setting from now on. """
        for part, names in self.told[which].sources.items():
            for name, setting in SOURCES[part].items():
                if setting == target and name in names:
                    names[name] = source
                    self.real_ones[which].default_values[part][name] = (
                        'settings.' + source)

    def step_kind(self, which, part):
        """ The part will be of another kind from now on. """
        types = self.real_ones[which].default_types

        class Special(types[part]):
            """ A kind of part of the user's own. """
        types[part] = self.told[which].kinds[part] = Special

    def step_special(self, which, part):
        """ The part will be built by the user's own method from now on. """
        forecaster, told = self.real_ones[which], self.told[which]
        told.special[part] = 0

        def builder(*args, **kwargs):
            told.special[part] += 1
            return forecaster.build_param(
                part, *args, _special_builder=False, **kwargs)
        setattr(forecaster, 'build_my_' + part, builder)
        forecaster.default_builders[part] = 'build_my_' + part

    def step_unset(self, which, part):
        setattr(self.real_ones[which], part, None)
        self.told[which].given[part] = None

    def step_text(self, which, text):
        """ A part may be text; text which is a number counts as one. """
        forecaster, told = self.real_ones[which], self.told[which]
        old, before = forecaster.allocation_strategy, self.state()
        forecaster.allocation_strategy = text
        got = forecaster.get_param('allocation_strategy')
        try:
            expected = Decimal(text)
        except ArithmeticError:
            expected = text
        if isinstance(expected, Decimal):
            require(not isinstance(got, str), 'text',
                    'the number %r is got as %r', text, got)
            if expected == expected.to_integral_value() and (
                    abs(expected) < 10 ** 30):
                require(isinstance(got, int) and got == int(expected),
                        'text', 'the number %r is got as %r', text, got)
            elif self.high:
                require(isinstance(got, Decimal) and got == expected,
                        'text', 'the number %r is got as %r', text, got)
            else:
                require(isinstance(got, float) and got == float(expected),
                        'text', 'the number %r is got as %r', text, got)
        else:
            require(got == expected, 'text', 'the text %r is got as %r',
                    text, got)
        forecaster.allocation_strategy = old
        require(self.state() == before, 'changed', 'getting text changes '
                'the forecaster (%s)', told)

    def wanted(self, call):
        """ (What the model says, or None where it's refused) """
        try:
            return call()
        except Refused:
            return None

    def attempt(self, what, call, expected):
        """ The result of a call, which is refused if nothing's expected. """
        try:
            result = call()
        except Exception as exc:
            if isinstance(exc, Interrupt) or not blame_code(exc):
                raise
            if expected is not None:
                raise
            SIM.probe('refused')
            return None
        require(expected is not None, 'accepted',
                '%s is made of values which can\'t be used', what)
        return result

    def kwargs(self, part, given):
        """ Arguments for the real code: by position, and by name. """
        given = dict(given)
        special = {}
        if 'adjust' in given:
            special['inflation_adjust'] = self.make('scenario', {
                'initial_year': self.year, 'num_years': 5,
                'inflation': given.pop('adjust'), 'stock_return': 0,
                'bond_return': 0, 'other_return': 0,
                'management_fees': 0}).inflation_adjust
        if 'precise' in given:
            special['high_precision'] = (
                Decimal if given.pop('precise') else None)
        placed = ORDER[part][:given.pop('placed', 0)]
        given = {n: self.real(SOURCES[part].get(n, n), v)
                 for n, v in given.items()}
        return [given.pop(n) for n in placed], dict(given, **special)

    def state(self):
        """ What no call may change unless asked to. """
        return [
            [id(getattr(f, part)) for part in PARTS] + [
                id(f.settings), freeze(f.default_values),
                sorted((k, id(v)) for k, v in f.default_types.items())]
            for f in self.real_ones] + [
                freeze({name: getattr(s, name) for name in self.names})
                for s in self.settings]

    def untouched(self, before, what):
        require(self.state() == before, 'changed',
                '%s changes the forecaster or its settings', what)

    def step_build(self, which, part, given):
        forecaster, told = self.real_ones[which], self.told[which]
        expected = self.wanted(lambda: told.args_of(part, given))
        before = self.state()
        args, kwargs = self.kwargs(part, given)
        own = part == 'allocation_strategy' and len(given) % 2
        if own:
            call = (lambda: forecaster.build_allocation_strategy(
                *args, **kwargs))
        else:
            call = (lambda: forecaster.build_param(part, *args, **kwargs))
        count = told.special.get(part)
        built = self.attempt('the ' + part, call, expected)
        self.untouched(before, 'building the ' + part)
        if built is not None:
            self.check_part(part, built, expected)
            if not own:
                self.check_kind(which, part, built)
            if part in told.special and not own:
                require(told.special[part] > count, 'special',
                        'the %s is not built by the user\'s method', part)

    def check_kind(self, which, part, built):
        """ A part is of the kind which is wanted. """
        kind = self.told[which].kinds.get(part)
        require(kind is None or type(built) is kind, 'kind',
                'the %s is a %s', part, type(built))

    def step_set(self, which, part, given):
        from forecaster.forecaster import Parameter
        forecaster, told = self.real_ones[which], self.told[which]
        expected = self.wanted(lambda: told.args_of(part, given))
        before = self.state()
        args, kwargs = self.kwargs(part, given)
        self.attempt('the ' + part, lambda: forecaster.set_param(
            Parameter(part), *args, **kwargs) or True, expected)
        if expected is None:
            self.untouched(before, 'failing to set the ' + part)
            return
        built = getattr(forecaster, part)
        self.check_part(part, built, expected)
        self.check_kind(which, part, built)
        told.given[part] = (copy.deepcopy(expected), built)

    def step_give(self, which, part, given):
        """ The user makes the part and hands it over. """
        told = self.told[which]
        expected = self.wanted(lambda: told.args_of(part, given))
        if expected is None:
            return
        expected = copy.deepcopy(expected)
        built = self.make(part, expected)
        setattr(self.real_ones[which], part, built)
        told.given[part] = (expected, built)

    def step_get(self, which, part):
        forecaster, told = self.real_ones[which], self.told[which]
        before = self.state()
        if told.given[part] is not None:
            got = forecaster.get_param(part)
            require(got is told.given[part][1], 'given',
                    'the %s is not the one given', part)
        else:
            expected = self.wanted(lambda: told.args_now(part))
            got = self.attempt(
                'the ' + part, lambda: forecaster.get_param(part), expected)
            if got is not None:
                self.check_part(part, got, expected)
                self.check_kind(which, part, got)
        self.untouched(before, 'getting the ' + part)

    def step_interrupt(self, count, step):
        """ The user stops a call at some line; then it's as it was. """
        if step[0] == 'run':
            house = Household(self.plan)
            which, part = step[1], None
            call = (lambda: self.real_ones[which].run_forecast(
                *house.inputs()))
        else:
            which, part = step[1:3]
            args, kwargs = self.kwargs(
                part, step[3] if len(step) > 3 else {})
            name = {'set': 'set_param', 'build': 'build_param',
                    'get': 'get_param'}[step[0]]
            call = (lambda: getattr(self.real_ones[which], name)(
                part, *args, **kwargs))
        before = self.state()
        old = getattr(self.real_ones[which], part) if part else None
        try:
            with Interrupter(count):
                call()
        except Interrupt:
            SIM.probe('interrupted')
        except Exception as exc:
            if not blame_code(exc):
                raise
            SIM.probe('refused')
        if step[0] == 'set':
            # It is set either in full, or not at all.
            told, now = self.told[which], getattr(
                self.real_ones[which], part)
            if now is not old:
                expected = told.args_of(part, step[3])
                self.check_part(part, now, expected)
                told.given[part] = (copy.deepcopy(expected), now)
            return
        self.untouched(before, 'an interrupted %s' % step[0])

    # --- parts ---
    def make(self, part, args):
        """ A part, made without any forecaster. """
        from forecaster.canada.tax import TaxCanada
        from forecaster.scenario import Scenario
        from forecaster.strategy import (
            AllocationStrategy, LivingExpensesStrategy, TransactionStrategy)
        from forecaster.tax import Tax
        kwargs = {n: self.real(SOURCES[part].get(n, n), v)
                  for n, v in args.items() if n != 'scenario'}
        if part == 'scenario':
            return Scenario(**kwargs)
        kwargs['high_precision'] = self.high
        if 'scenario' in args:
            kwargs['inflation_adjust'] = self.make(
                'scenario', args['scenario']).inflation_adjust
        return {
            'living_expenses_strategy': LivingExpensesStrategy,
            'saving_strategy': TransactionStrategy,
            'withdrawal_strategy': TransactionStrategy,
            'allocation_strategy': AllocationStrategy,
            'tax_treatment': TaxCanada if self.canada else Tax}[part](
                **kwargs)

    def check_part(self, part, got, args):
        """ A part is made of what it should be. """
        getattr(self, 'check_' + {
            'scenario': 'scenario', 'living_expenses_strategy': 'living',
            'saving_strategy': 'strategy', 'withdrawal_strategy': 'strategy',
            'allocation_strategy': 'allocation', 'tax_treatment': 'tax'
            }[part])(part, got, args)
        if part != 'scenario':
            wanted = (Decimal if args['precise'] else None) if (
                'precise' in args) else self.high
            require(got.high_precision is wanted, 'precision',
                    'the %s has another precision', part)

    def same(self, part, name, got, expected):
        if isinstance(expected, (int, float)) and not isinstance(
                expected, bool):
            require_close(got, expected, 'part', '%s of the %s' % (
                name, part), 1e-12)
        else:
            require(got == expected, 'part', '%s of the %s is %s, not %s',
                    name, part, show(got), show(expected))

    def check_scenario(self, part, got, args):
        self.same(part, 'initial_year', got.initial_year,
                  args['initial_year'])
        self.same(part, 'num_years', got.num_years, args['num_years'])
        self.same(part, 'years', list(got), list(range(
            args['initial_year'], args['initial_year'] + args['num_years'])))
        for name in ('inflation', 'stock_return', 'bond_return',
                     'other_return', 'management_fees'):
            for year in got:
                self.same(part, name, getattr(got, name)[year], args[name])
        self.check_inflation(part, got.inflation_adjust, args)

    def check_inflation(self, part, adjust, args):
        first = args['initial_year']
        model = Inflation(args['inflation'], first)
        for year in range(first, first + args['num_years']):
            self.same(part, 'inflation to %s' % year, num(adjust(year)),
                      model(year, first))

    def check_living(self, part, got, args):
        self.same(part, 'strategy', got.strategy, args['strategy'])
        self.same(part, 'base_amount', got.base_amount, args['base_amount'])
        self.same(part, 'rate', got.rate, args['rate'])
        self.check_inflation(part, got.inflation_adjust, args['scenario'])

    def check_strategy(self, part, got, args):
        self.same(part, 'strategy', got.strategy, args['strategy'])
        require(freeze(got.weights) == freeze({
            k: self.num(v) for k, v in args['weights'].items()}), 'part',
                'weights of the %s are %s, not %s', part, got.weights,
                args['weights'])

    def check_allocation(self, part, got, args):
        spec = {
            'name': args['strategy'], 'target': args['target'],
            'low': args['min_equity'], 'high': args['max_equity'],
            'standard': args['standard_retirement_age'],
            'period': args['risk_transition_period'],
            'adjust': args['adjust_for_retirement_plan']}
        for age in (20, 44, 57, 66, 90):
            for retirement in (60, 67):
                require(all(
                    close(one, two, 1e-9) for one, two in zip(
                        got(age, retirement_age=retirement),
                        shares(spec, age, retirement))), 'part',
                        'shares at %s (retiring at %s) are %s by %s', age,
                        retirement, got(age, retirement_age=retirement),
                        spec)

    def check_tax(self, part, got, args):
        other = self.make(part, args)
        first = args['scenario']['initial_year']
        for year in {first, first + args['scenario']['num_years'] - 1}:
            for income in (12000, 55000, 180000):
                income = self.num(income)
                require_close(
                    got(income, year), other(income, year), 'part',
                    'tax on %s in %s' % (income, year), 1e-9)
            if not self.canada:
                model = Inflation(args['scenario']['inflation'], first)
                self.same(part, 'deduction', num(got.personal_deduction(
                    year)), args['personal_deduction'] * model(year, first))
                self.same(part, 'credit rate', num(got.credit_rate(year)),
                          args['credit_rate'])
        for name in ('payment_timing', 'refund_timing'):
            self.same(part, name, {
                num(w): num(v) for w, v in getattr(got, name).items()}, {
                    num(w): num(v) for w, v in getattr(other, name).items()})

    # --- forecasts ---
    def step_run(self, which):
        """ A forecast is that of the parts now in use, put together. """
        forecaster, told = self.real_ones[which], self.told[which]

        def parts():
            return {part: told.args_now(part) for part in PARTS
                    if part != 'allocation_strategy'}
        expected = self.wanted(parts)
        before = self.state()
        SIM.rehash()
        house = Household(self.plan)
        result = self.attempt('a forecast', lambda: forecaster.run_forecast(
            *house.inputs()), expected)
        self.untouched(before, 'a forecast')
        if result is None:
            return
        for name, part in (
                ('living_expenses_forecast.living_expenses_strategy',
                 'living_expenses_strategy'),
                ('scenario', 'scenario')):
            used = result
            for word in name.split('.'):
                used = getattr(used, word)
            if told.given[part] is not None:
                require(used is told.given[part][1], 'given',
                        'the %s used is not the one given', part)
            else:
                self.check_kind(which, part, used)
        record = Record(result)
        record.log()
        SIM.rehash()
        other = Household(self.plan)
        scenario = self.make('scenario', expected['scenario'])
        other.scenario = scenario
        for name, part in (
                ('living', 'living_expenses_strategy'),
                ('saving', 'saving_strategy'),
                ('withdrawal', 'withdrawal_strategy'),
                ('tax_client', 'tax_treatment')):
            setattr(other, name, self.make(part, expected[part]))
        reference = Record(other.direct(*other.inputs()))
        forecast.compare(record, reference, 'forecast', 'A forecaster\'s '
                         'forecast, and one of the parts it uses', 1e-6)
        require(result.scenario.num_years == scenario.num_years and len(
            record.years) == scenario.num_years, 'forecast',
                'the forecast covers %s', record.years)
        SIM.years(len(record.years))


def execute(plan, prop):
    untie(plan)
    for step in plan['steps']:
        # (Nor are there ties among weights given later.)
        if step[0] == 'interrupt':
            step = step[2]
        for val in (step[-1].values() if isinstance(step[-1], dict)
                    and step[0] in ('set', 'build', 'give')
                    else [step[-1]]):
            if isinstance(val, dict):
                for number, key in enumerate(sorted(val)):
                    if list(val.values()).count(val[key]) > 1:
                        val[key] += 0.001 * (number + 1)
    world = World(plan)
    for step in plan['steps']:
        world.step(step)
    SIM.checked()
