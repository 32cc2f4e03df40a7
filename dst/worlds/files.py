"""World: settings kept in files on a disk which fails.

Real code: ValueReader, Settings, SettingsCanada, ConstantsCanada, the JSON
encoder.
Simulated: the disk (see dst/disk.py): which operation fails, how, or is cut
short; where the process is killed or interrupted or the power cut, and what
was durable then; several processes saving and loading at once, one disk
operation at a time in a seeded order; client-supplied serialisers which
fail; process ids.
"""
import itertools
import json
import os
from decimal import Decimal

from dst.client import Interrupter, gen_interrupt
from dst.core import (
    SIM, ClientFault, Interrupt, PowerLoss, require, show)
from dst.disk import REAL, Disk, Scheduler

SHRINK_LISTS = ['steps']
SHRINK_KEEP = {'mode', 'kind'}

WORDS = ['', 'CAD', 'Ordered', 'n-age', 'Constant living expenses',
         'R\u00e9gime \u2713', 'a "quoted"\nline', 'x' * 9000, 'true', 'null',
         'None', ' ', '\\', '1 2', '2017-01-01']
NAMES = ['initial_year', 'currency', 'inflation', 'num_years',
         'living_expenses_strategy', 'living_expenses_inflation_adjust',
         'saving_weights', 'tax_brackets', 'tax_payment_timing',
         'stock_return', 'allocation_adjust_retirement', 'tax_credit_rate',
         'living_expenses_base_amount']
# What other programs write in files, and what it means: (text, in ordinary
# numbers, in high precision).
FOREIGN = [
    ['"5"', 5, 5], ['"5.0"', 5, 5], ['5.0', 5, 5], ['"0.1"', 0.1,
                                                   {'dec': '0.1'}],
    ['"1e3"', 1000, 1000], ['Infinity', float('inf'), float('inf')],
    ['-Infinity', float('-inf'), float('-inf')],
    ['"Infinity"', float('inf'), float('inf')],
    ['"-inf"', float('-inf'), float('-inf')],
    ['"9007199254740993"', 2 ** 53 + 1, 2 ** 53 + 1],
    ['9007199254740993', 2 ** 53 + 1, 2 ** 53 + 1],
    ['0.30000000000000004123', 0.3 + 4.123e-17,
     {'dec': '0.30000000000000004123'}],
    ['"0.30000000000000004123"', 0.3 + 4.123e-17,
     {'dec': '0.30000000000000004123'}],
    ['"9007199254740993.5"', 9007199254740994, {'dec': '9007199254740993.5'}],
    ['{"2017": {"0.15": 1, "Infinity": "0.5"}}',
     {'pairs': [[2017, {'pairs': [[0.15, 1], [float('inf'), 0.5]]}]]},
     {'pairs': [[2017, {'pairs': [[{'dec': '0.15'}, 1], [
         float('inf'), {'dec': '0.5'}]]}]]}],
    ['["1", {"x": ["2.5", null, true]}]',
     [1, {'pairs': [['x', [2.5, None, True]]]}],
     [1, {'pairs': [['x', [{'dec': '2.5'}, None, True]]]}]],
    ['"R\u00e9gime \u2713"'] + ['R\u00e9gime \u2713'] * 2,
    ['"-"', '-', '-'], ['"5 000"', '5 000', '5 000'],
    ['{"\u00e9t\u00e9": ""}', {'pairs': [['\u00e9t\u00e9', '']]},
     {'pairs': [['\u00e9t\u00e9', '']]}],
    ['-0.5e-3', -0.0005, {'dec': '-0.0005'}], ['false', False, False]]
OTHER = ['extra', 'R\u00e9gime', 'a b', 'values']
FILES = ['one.json', 'two.json', 'link.json']


# --- generation -------------------------------------------------------------
def gen_number(rng):
    return rng.choice([
        0, 1, -3, 2017, 2 ** 70, -10 ** 25,
        0.1, 0.5, -0.02, 1e-9, 1e20, 1.5e300, 1 / 3, 2.0,
        round(rng.uniform(-1e6, 1e6), 2), rng.uniform(0, 1),
        float('inf'), float('-inf'), 2 ** 70 + 1,
        {'dec': '0.30000000000000004123'}, {'dec': '9007199254740993.5'},
        {'dec': '-12345678901234567890.125'}])


def gen_value(rng, depth=0):
    pick = rng.random()
    if pick < 0.4:
        return gen_number(rng)
    if pick < 0.6:
        return rng.choice(WORDS)
    if pick < 0.7:
        return rng.choice([True, False, None])
    if depth > 2:
        return 7
    if pick < 0.8:
        return [gen_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    # Dicts are listed as pairs: in a plan, keys may be numbers.
    if rng.random() < 0.5:
        keys = rng.sample(['Account', 'RRSP', 'a b', '\u00e9', 'true'],
                          rng.randint(0, 3))
    else:
        keys = rng.sample([
            2017, 2018, 0, 50000, -5, 0.25, 1e6 + 0.5, 1 / 3, 2 ** 70 + 1,
            float('inf'), {'dec': '9007199254740993.5'},
            {'dec': '0.30000000000000004123'}],
                          rng.randint(1, 3))
    return {'pairs': [[k, gen_value(rng, depth + 1)] for k in keys]}


def gen_fault(rng):
    how = rng.choice(['eio', 'eio', 'full', 'full', 'denied', 'short',
                      'crash', 'crash', 'crash', 'power', 'power', 'power',
                      'interrupt'])
    if how == 'interrupt':
        return [how, gen_interrupt(rng, 70), None]
    return [how, rng.choice([1, 2, 3, 4, 5, rng.randint(1, 16)]),
            rng.choice([None, 0.5, round(rng.random(), 2)])]


def generate(rng, prop, tier):
    deep = tier != 'quick'
    readers = ['r%d' % n for n in range(rng.randint(1, 3))]
    steps = []
    for _ in range(rng.randint(3, 10 if not deep else 30)):
        pick = rng.random()
        who = rng.choice(readers)
        where = rng.choice(FILES)
        if pick < 0.3:
            steps.append(['set', who, rng.choice(NAMES + OTHER),
                          gen_value(rng)])
        elif pick < 0.36:
            steps.append(['del', who, rng.choice(NAMES + OTHER)])
        elif pick < 0.6:
            what = rng.choice([None, None, 'other', 'dict'])
            steps.append(['save', who, where, (
                rng.choice(readers) if what == 'other' else
                [[rng.choice(NAMES + OTHER), gen_value(rng)]
                 for _ in range(rng.randint(0, 4))] if what == 'dict'
                else None), prop == 'P25' and rng.random() < 0.8 and
                          gen_fault(rng) or None])
        elif pick < 0.75:
            steps.append(['load', who, where,
                          prop == 'P25' and rng.random() < 0.5 and
                          gen_fault(rng) or None])
        elif pick < 0.81:
            steps.append(['refuse', who, where, rng.choice(
                ['object', 'nested', 'serialiser', 'key'])])
        elif pick < 0.86:
            steps.append(['garbage', where, rng.choice(
                ['', '{', '[1, 2]', '"text"', '{"a": NaN}', '{"a": 1}}'])])
        elif pick < 0.89:
            steps.append(['foreign', where, [
                [rng.choice(NAMES + OTHER)] + rng.choice(FOREIGN)
                for _ in range(rng.randint(1, 3))]])
        elif pick < 0.92:
            steps.append(['raw', where, rng.random() < 0.5])
        elif pick < 0.95:
            steps.append(['restart', who, rng.choice(
                ['ValueReader', 'Settings', 'SettingsCanada',
                 'ConstantsCanada', 'Client']), where, rng.random() < 0.8])
        elif prop == 'P25':
            actors = []
            for _ in range(rng.randint(2, 3 if not deep else 4)):
                fault = rng.random() < 0.3 and gen_fault(rng) or None
                if fault and fault[0] in ('interrupt', 'power'):
                    fault = ['crash', rng.randint(1, 9), fault[2]]
                actors.append([rng.choice(['save', 'save', 'load']), fault])
            steps.append(['race', where, actors, [
                rng.randrange(6) for _ in range(40)]])
    return {'mode': rng.choice(['f', 'f', 'd']), 'readers': readers,
            'own_way': rng.random() < 0.5,
            'kind': [rng.choice(['ValueReader', 'Settings', 'SettingsCanada',
                                 'Client'])
                     for _ in readers],
            'files': [f for f in FILES if rng.random() < 0.8],
            'steps': steps}


# --- what is expected of values -----------------------------------------------
def same(actual, expected, high):
    """ A value as it comes back, and as it was saved. """
    if isinstance(expected, dict):
        return (isinstance(actual, dict) and len(actual) == len(expected) and
                all(any(same(k, key, high) and same(v, val, high)
                        for k, v in actual.items())
                    for key, val in expected.items()))
    if isinstance(expected, (list, tuple)):
        return (isinstance(actual, list) and len(actual) == len(expected) and
                all(same(a, e, high) for a, e in zip(actual, expected)))
    if isinstance(expected, (bool, str)) or expected is None:
        return type(actual) is type(expected) and actual == expected
    if isinstance(actual, (bool, str)) or actual is None:
        return False
    if not isinstance(actual, (int, float, Decimal)):
        return False
    if high and isinstance(actual, float):
        return False
    return actual == expected


class Opaque:
    """ Something which no encoder knows. """


# --- the world ----------------------------------------------------------------
class World:

    def __init__(self, plan, prop, disk):
        self.plan = plan
        self.prop = prop
        self.disk = disk
        self.high = Decimal if plan['mode'] == 'd' else None
        self.fail = [0]
        self.readers = {}
        self.model = {}
        self.defaults = {}
        # What each file holds: None if nothing, 'garbage', or values.
        self.saved = {}
        os.mkdir(os.path.join(disk.root, 'real'))
        self.link = os.path.join(disk.root, 'link.json')
        REAL['symlink'](os.path.join(disk.root, 'target.json'), self.link)
        os.rmdir(os.path.join(disk.root, 'real'))
        for name in plan['files']:
            self.put(name, '{"currency": "XYZ", "initial_year": 2001}')
            self.saved[name] = {'currency': 'XYZ', 'initial_year': 2001}
        for name, kind in zip(plan['readers'], plan['kind']):
            self.make(name, kind, None, True)

    # --- helpers ---
    def value(self, spec):
        if isinstance(spec, dict) and 'dec' in spec:
            return Decimal(spec['dec']) if self.high else float(spec['dec'])
        if isinstance(spec, dict):
            return {self.value(k): self.value(v) for k, v in spec['pairs']}
        if isinstance(spec, list):
            return [self.value(v) for v in spec]
        if self.high and isinstance(spec, float):
            return Decimal(str(spec))
        return spec

    def path(self, name):
        return os.path.join(self.disk.root, name)

    def put(self, name, text):
        """ Another program writes a file. """
        path = os.path.realpath(self.path(name))
        with REAL['open'](path, 'w', encoding='utf-8') as file:
            file.write(text)
        REAL['chmod'](path, 0o640)

    @staticmethod
    def client_class():
        """ A client's own kind of settings, with defaults of its own. """
        from forecaster.value_reader import ValueReader, ValueReaderAttribute

        class Client(ValueReader):
            inflation = ValueReaderAttribute(0)
            currency = ValueReaderAttribute('')
            tax_brackets = ValueReaderAttribute({})
            living_expenses_inflation_adjust = ValueReaderAttribute(False)
            num_years = ValueReaderAttribute()
        return Client

    def make(self, name, kind, filename, defaults):
        import forecaster.settings
        import forecaster.value_reader
        import forecaster.canada.constants
        import forecaster.canada.settings
        cls = {
            'ValueReader': forecaster.value_reader.ValueReader,
            'Settings': forecaster.settings.Settings,
            'SettingsCanada': forecaster.canada.settings.SettingsCanada,
            'ConstantsCanada': forecaster.canada.constants.ConstantsCanada,
            'Client': self.client_class(),
        }[kind]
        if filename is None:
            filename = self.path('initial.json')
            self.put('initial.json', '{}')
        reader = cls(filename, high_precision=self.high,
                     high_precision_serialize=(
                         None if self.plan.get('own_way') else self.serialise),
                     use_defaults=defaults)
        self.readers[name] = reader
        self.model[name] = {}
        self.defaults[name] = defaults
        if os.path.exists(self.path('initial.json')):
            os.remove(self.path('initial.json'))
        return reader

    def serialise(self, val):
        """ A client's own serialiser, which may fail. """
        if self.fail[0]:
            self.fail[0] -= 1
            if not self.fail[0]:
                SIM.fault('callable_raises')
                raise ClientFault('serialiser')
        return str(val)

    # --- what must hold at all times ---
    def check_reader(self, name):
        reader, model = self.readers[name], self.model[name]
        require(same(reader.values, model, self.high), 'values',
                '%s has %s rather than %s', name, show(reader.values),
                show(model))
        for attr in NAMES:
            if not self.has(reader, attr):
                continue
            if attr in model:
                require(same(getattr(reader, attr), model[attr], self.high),
                        'attribute', '%s.%s is %s rather than %s', name,
                        attr, show(getattr(reader, attr)), show(model[attr]))
                continue
            try:
                found = (getattr(reader, attr),)
            except KeyError:
                found = None
            default = vars(self.owner(reader, attr))[attr].default
            if not self.defaults[name] or default is None:
                require(found is None, 'attribute', '%s.%s is %s although '
                        'it has none', name, attr, show(found))
            else:
                require(found is not None and found[0] == default,
                        'attribute', '%s.%s is %s rather than its default '
                        '%s', name, attr, show(found), show(default))

    @staticmethod
    def owner(reader, attr):
        for cls in type(reader).__mro__:
            if attr in vars(cls):
                return cls
        raise KeyError(attr)

    @staticmethod
    def has(reader, attr):
        return attr in NAMES and any(
            attr in vars(cls) for cls in type(reader).__mro__)

    def content(self, name):
        """ What a new program finds in a file: ('none',), ('garbage',) or
        ('values', values). """
        from forecaster.value_reader import ValueReader
        path = self.path(name)
        if not os.path.exists(path):
            return ('none',)
        try:
            return ('values', ValueReader(
                path, high_precision=self.high).values)
        except (ValueError, TypeError):
            return ('garbage',)

    def holds(self, name, expected):
        """ A file holds this: None, 'garbage' or values. """
        found = self.content(name)
        if expected is None:
            return found[0] == 'none'
        if isinstance(expected, str):
            return found[0] == 'garbage'
        return found[0] == 'values' and same(found[1], expected, self.high)

    def check_files(self, tidy=True):
        for name in FILES:
            require(self.holds(name, self.saved.get(name)), 'file',
                    '%s holds %s rather than %s', name,
                    show(self.content(name)), show(self.saved.get(name)))
        require(os.path.islink(self.link), 'link-lost',
                'A link was replaced by a file')
        if tidy:
            allowed = set(FILES) | {'target.json'}
            found = [n for n in sorted(REAL['listdir'](self.disk.root))
                     if n not in allowed]
            require(not found, 'debris', 'Saving left %d other file(s) '
                    'behind', len(found))
        for name, values in self.saved.items():
            if values is not None and name in self.plan['files']:
                mode = REAL['stat'](self.path(name)).st_mode & 0o777
                require(mode == 0o640, 'mode', '%s now has permissions %o',
                        name, mode)

    # --- steps ---
    def step_set(self, who, name, spec):
        reader = self.readers[who]
        value = self.value(spec)
        if self.has(reader, name):
            setattr(reader, name, value)
        else:
            reader.values[name] = value
        self.model[who][name] = value
        SIM.op('set')
        SIM.event('set', who, name, show(value))
        SIM.state('set', type(reader).__name__, name, type(value).__name__)
        self.check_reader(who)

    def step_del(self, who, name):
        reader = self.readers[who]
        had = name in self.model[who]
        try:
            if self.has(reader, name):
                delattr(reader, name)
            else:
                del reader.values[name]
        except KeyError:
            require(not had, 'attribute', '%s could not be deleted', name)
        else:
            require(had, 'attribute', '%s could be deleted, although there '
                    'was none', name)
        self.model[who].pop(name, None)
        SIM.op('del')
        SIM.event('del', who, name, had)
        self.check_reader(who)

    def attempt(self, func, fault):
        """ Runs one operation of one process against the disk.

        Returns: 'done', 'failed' (the process goes on), or 'killed'.
        """
        disk = self.disk
        interrupter = None
        if fault is not None and fault[0] == 'interrupt':
            interrupter, fault = Interrupter(fault[1]), None
        disk.begin(fault)
        result = 'done'
        try:
            if interrupter is not None:
                with interrupter:
                    func()
            else:
                func()
        except PowerLoss:
            result = 'killed'
        except (Interrupt, OSError):
            if disk.dead:
                result = 'killed'
            else:
                result = 'failed'
                require(interrupter is not None or
                        fault is not None and disk.count >= fault[1] or
                        not self.allowed_to_fail, 'unexpected-error',
                        'An operation failed although the disk did not')
        finally:
            ops, dead = list(disk.ops), disk.dead
            disk.end()
        if result == 'done' and fault is not None and fault[0] == 'power':
            # The power fails right afterwards.
            dead, result = 'power', 'killed'
            SIM.fault('power_after')
        if dead == 'power':
            disk.lose_power('%s/%d' % (self.plan.get('seed'), SIM.ops))
        SIM.state(result, fault and fault[0], tuple(ops))
        SIM.event('disk', result, ops)
        return result
    allowed_to_fail = True

    def step_save(self, who, name, what, fault):
        reader = self.readers[who]
        if what is None:
            args, values = (), self.model[who]
        elif isinstance(what, str):
            if what not in self.readers:
                return
            args, values = (self.readers[what],), self.model[what]
        else:
            values = {k: self.value(v) for k, v in what}
            args = (values,)
        values = dict(values)
        result = self.attempt(
            lambda: reader.write(self.path(name), *args), fault)
        SIM.op('save:' + result)
        SIM.event('save', who, name, show(values), result)
        old = self.saved.get(name)
        if result == 'done':
            require(self.holds(name, values), 'not-saved',
                    'Saved %s, but a new program finds %s', show(values),
                    show(self.content(name)))
            self.saved[name] = values
        elif self.holds(name, values):
            self.saved[name] = values
        else:
            require(self.holds(name, old), 'lost', 'Saving over %s (%s) '
                    'leaves %s', show(old), fault and fault[0],
                    show(self.content(name)))
            SIM.probe('kept_old')
        if result == 'killed':
            # A new program: what it may find besides is left open.
            for other in sorted(REAL['listdir'](self.disk.root)):
                if other not in FILES and other != 'target.json':
                    SIM.probe('debris_of_killed')
                    if SIM.rng.random() < 0.5:
                        REAL['remove'](self.path(other))
            if SIM.rng.random() < 0.5:
                self.step_save_again(who, name)
            for other in sorted(REAL['listdir'](self.disk.root)):
                if other not in FILES and other != 'target.json':
                    REAL['remove'](self.path(other))
        self.check_reader(who)
        self.check_files()

    def step_save_again(self, who, name):
        """ A process that was killed is started again, and saves. """
        result = self.attempt(
            lambda: self.readers[who].write(self.path(name)), None)
        require(result == 'done', 'not-saved', 'Can no longer save')
        self.saved[name] = dict(self.model[who])

    def step_load(self, who, name, fault):
        reader = self.readers[who]
        held = self.saved.get(name)
        self.allowed_to_fail = held is not None
        try:
            result = self.attempt(
                lambda: reader.read(self.path(name)), fault)
        except (ValueError, TypeError):
            require(held == 'garbage', 'not-loaded', 'Cannot load %s',
                    show(held))
            result = 'garbage'
        self.allowed_to_fail = True
        SIM.op('load:' + result)
        SIM.event('load', who, name, show(held), result)
        if result == 'done':
            require(isinstance(held, dict), 'load', 'Loaded %s from a file '
                    'with %s', show(reader.values), held)
            self.model[who] = dict(held)
        elif result == 'killed':
            self.model[who] = {}
            kind = type(reader).__name__
            self.make(who, kind, None, self.defaults[who])
        elif fault is not None and fault[0] == 'interrupt':
            if isinstance(held, dict) and same(
                    reader.values, held, self.high):
                self.model[who] = dict(held)
        self.check_reader(who)
        self.check_files()

    def step_refuse(self, who, name, how):
        """ Values which can't be saved. """
        if how == 'serialiser' and self.high and self.plan.get('own_way'):
            return
        reader = self.readers[who]
        values = dict(self.model[who])
        values['extra'] = {
            'object': Opaque(), 'nested': [1, {'a': Opaque()}],
            'serialiser': [Decimal('0.1'), Decimal('0.2')],
            'key': {(1, 2): 3}}[how]
        if how == 'serialiser' and self.high:
            self.fail[0] = 2
        elif how == 'serialiser':
            values['extra'] = Decimal('0.1')
        refused = False
        self.disk.begin()
        try:
            reader.write(self.path(name), values)
        except (TypeError, ClientFault):
            refused = True
        finally:
            self.disk.end()
        self.fail[0] = 0
        require(refused, 'not-refused', 'Saved values which can\'t be saved '
                '(%s)', how)
        SIM.op('refuse')
        SIM.event('refuse', who, name, how)
        self.check_reader(who)
        self.check_files()

    def step_garbage(self, name, text):
        if self.saved.get(name) is None:
            return
        self.put(name, text)
        self.saved[name] = 'garbage'
        SIM.op('garbage')
        SIM.event('garbage', name, text)

    def step_foreign(self, name, items):
        """ Another program writes values, in its own way. """
        if self.saved.get(name) is None:
            return
        held = {item[0]: item for item in items}
        self.put(name, '{%s}' % ', '.join('%s: %s' % (
            json.dumps(key, ensure_ascii=False), item[1])
            for key, item in held.items()))
        self.saved[name] = {
            key: self.value(item[3 if self.high else 2])
            for key, item in held.items()}
        SIM.op('foreign')
        SIM.event('foreign', name, show(self.saved[name]))
        self.check_files()

    def step_raw(self, name, at_once):
        """ A program which wants text to stay text. """
        from forecaster.value_reader import ValueReader
        if not isinstance(self.saved.get(name), dict):
            return
        path = self.path(name)
        if at_once:
            reader = ValueReader(
                path, high_precision=self.high, numeric_convert=False)
        else:
            reader = ValueReader(high_precision=self.high)
            reader.read(path, numeric_convert=False)
        number = self.high or float
        with REAL['open'](os.path.realpath(path), encoding='utf-8') as file:
            expected = json.load(
                file, parse_float=number, parse_constant=number)
        require(reader.values == expected, 'text', '%s reads as %s rather '
                'than %s when numbers in text aren\'t to be converted', name,
                show(reader.values), show(expected))
        SIM.op('raw')
        SIM.event('raw', name, show(expected))
        self.check_files()

    def step_restart(self, who, kind, name, defaults):
        held = self.saved.get(name)
        old = self.readers[who], self.model[who], self.defaults[who]
        try:
            self.make(who, kind, self.path(name), defaults)
        except (OSError, ValueError, TypeError):
            require(not isinstance(held, dict), 'not-loaded',
                    'A new %s can\'t load %s', kind, show(held))
            self.readers[who], self.model[who], self.defaults[who] = old
        else:
            require(isinstance(held, dict), 'load', 'A new %s has loaded '
                    'a file with %s', kind, held)
            self.model[who] = dict(held)
        SIM.op('restart')
        SIM.event('restart', who, kind, name, show(held))
        self.check_reader(who)

    # --- several processes ---
    def step_race(self, name, actors, picks):
        from forecaster.value_reader import ValueReader
        disk = self.disk
        scheduler = Scheduler(disk, picks)
        path = self.path(name)
        old = self.saved.get(name)
        values = []

        def saver(number):
            mine = {'currency': 'of process %d' % number, 'pad': [
                number] * (1 + 700 * (number % 3)), 'n': number}
            values.append(mine)
            reader = ValueReader(high_precision=self.high)
            reader.values = mine
            return lambda: reader.write(path)

        def loader():
            values.append(None)
            reader = ValueReader(high_precision=self.high)

            def load():
                try:
                    reader.read(path)
                except FileNotFoundError:
                    return None
                except (ValueError, TypeError):
                    return 'garbage'
                return reader.values
            return load
        for number, (kind, fault) in enumerate(actors):
            scheduler.add(saver(number) if kind == 'save' else loader(),
                          fault)
        disk.begin()
        try:
            scheduler.run()
        finally:
            disk.end()
        SIM.op('race')
        SIM.probe('race')
        SIM.state('race', tuple(scheduler.order), tuple(disk.ops))
        SIM.event('race', scheduler.order, disk.ops)
        # (When the disk is full, it is for all processes.)
        full = any(f and f[0] == 'full' for _, f in actors)
        saves, loads = [], []
        for (kind, fault), actor, value in zip(
                actors, scheduler.actors, values):
            error = actor.error
            if error is not None and not (
                    isinstance(error, (PowerLoss, OSError)) and
                    fault is not None and actor.count >= fault[1]) and not (
                        full and isinstance(error, OSError)):
                require(not isinstance(error, (OSError, ValueError)),
                        'race', 'A process fails (%s) although its disk '
                        'does not', type(error).__name__)
                raise error
            if kind == 'save':
                saves.append((actor, value, error is None))
            elif error is None:
                loads.append((actor, actor.result))
        final = self.content(name)
        final = None if final[0] == 'none' else (
            'garbage' if final[0] == 'garbage' else final[1])
        require(self.linear(saves, loads, old, final), 'race',
                'Processes which save %s and load %s from a file with %s '
                'leave %s', [[v['n'], a.started, a.ended, done]
                             for a, v, done in saves],
                [[show(v)[:60], a.started, a.ended] for a, v in loads],
                show(old)[:80], show(final)[:80])
        self.saved[name] = final
        for other in sorted(REAL['listdir'](disk.root)):
            if other not in FILES and other != 'target.json':
                require(any(a.error is not None for a in scheduler.actors),
                        'debris', 'Saving left other files behind')
                REAL['remove'](self.path(other))
        self.check_files()

    def linear(self, saves, loads, old, final):
        """ Some order of complete saves and loads explains what was seen.

        Saves which failed may or may not have happened.
        """
        maybe = [s for s in saves if not s[2]]
        sure = [s for s in saves if s[2]]
        for count in range(len(maybe) + 1):
            for extra in itertools.combinations(maybe, count):
                chosen = sure + list(extra)
                items = [('save', a, v) for a, v, _ in chosen] + [
                    ('load', a, v) for a, v in loads]
                for order in itertools.permutations(items):
                    if self.explains(order, old, final):
                        return True
        return False

    def explains(self, order, old, final):
        for first, second in itertools.combinations(order, 2):
            if second[1].error is None and second[1].ended < \
                    first[1].started:
                return False
        held = old
        for kind, _, value in order:
            if kind == 'save':
                held = value
            elif not self.equal(value, held):
                return False
        return self.equal(final, held)

    def equal(self, found, held):
        if isinstance(found, dict) and isinstance(held, dict):
            return same(found, held, self.high)
        return type(found) is type(held) and found == held


def execute(plan, prop):
    # The plan stays as it is in JSON.
    json.dumps(plan)
    with Disk() as disk:
        world = World(plan, prop, disk)
        world.check_files()
        for step in plan['steps']:
            if step[0] in ('garbage', 'race', 'foreign', 'raw'):
                getattr(world, 'step_' + step[0])(*step[1:])
            elif step[1] in world.readers:
                getattr(world, 'step_' + step[0])(*step[1:])
    SIM.checked()
