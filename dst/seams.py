"""Seams over the code under test: installed once per process.

Nothing here changes what the code computes from its inputs; it only decides
what the language leaves open (hash values, set order, object identity) and
what the environment supplies (the clock).
"""
import datetime as _datetime
import inspect
import sys
import time as _time

from dst.core import REPO, SIM

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class SeededSet(set):
    """ A set walked in an order that the current run's seed decides. """

    def __iter__(self):
        return iter(sorted(
            set.__iter__(self),
            key=lambda p: (SIM.order_key(getattr(p, '__name__', '')),
                           getattr(p, '__name__', ''))))


class Clock:
    """ The simulated wall clock. """
    offset_days = 0
    base = _datetime.datetime(2024, 3, 5, 12, 0, 0)
    reads = 0

    @classmethod
    def now(cls):
        cls.reads += 1
        return cls.base + _datetime.timedelta(days=cls.offset_days)


class _FakeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls.REAL)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls.REAL)


class FakeDatetime(_datetime.datetime, metaclass=_FakeMeta):
    """ datetime whose notion of "now" is the simulated clock's. """
    REAL = _datetime.datetime

    @classmethod
    def today(cls):
        return Clock.now()

    @classmethod
    def now(cls, tz=None):
        return Clock.now()

    @classmethod
    def utcnow(cls):
        return Clock.now()


class FakeDate(_datetime.date, metaclass=_FakeMeta):
    """ Likewise for date. """
    REAL = _datetime.date

    @classmethod
    def today(cls):
        return Clock.now().date()


class _FakeTime:
    """ The time module, by the simulated clock. """

    def __init__(self):
        for name in dir(_time):
            if not name.startswith('__'):
                setattr(self, name, getattr(_time, name))
        self.time = lambda: Clock.now().timestamp()
        self.time_ns = lambda: int(Clock.now().timestamp()) * 10 ** 9
        self.localtime = lambda secs=None: _time.localtime(
            Clock.now().timestamp() if secs is None else secs)
        self.gmtime = lambda secs=None: _time.gmtime(
            Clock.now().timestamp() if secs is None else secs)
        self.strftime = lambda form, when=None: _time.strftime(
            form, self.localtime() if when is None else when)


class _FakeModule:
    """ The datetime module with FakeDatetime in place of datetime. """

    def __init__(self):
        for name in dir(_datetime):
            if not name.startswith('__'):
                setattr(self, name, getattr(_datetime, name))
        self.datetime = FakeDatetime
        self.date = FakeDate


_INSTALLED = []


def _classes(base):
    for sub in base.__subclasses__():
        yield sub
        yield from _classes(sub)


def seed_recorded_sets():
    """ Gives each ledger class's set of recorded properties seeded order. """
    from forecaster.ledger import Ledger, recorded_property
    for cls in [Ledger] + list(_classes(Ledger)):
        for name, val in list(vars(cls).items()):
            if (type(val) is set and val and
                    all(isinstance(p, recorded_property) for p in val)):
                setattr(cls, name, SeededSet(val))


def seed_births(cls):
    """ Has the simulator know of every new object of this class. """
    if '__new__' in vars(cls):
        return

    def seeded_new(sub, *_args, **_kwargs):
        obj = super(cls, sub).__new__(sub)
        SIM.born(obj)
        return obj
    cls.__new__ = seeded_new


def install():
    """ Installs the seams (idempotent). """
    if _INSTALLED:
        seed_recorded_sets()
        return
    _INSTALLED.append(True)
    import forecaster
    import forecaster.canada
    import forecaster.canada.accounts
    import forecaster.canada.forecaster
    import forecaster.canada.tax
    from forecaster.ledger import Ledger
    from forecaster.strategy.transaction import TransactionNode

    def seeded_hash(self):
        return SIM.hash_of(self)
    for cls in (Ledger, TransactionNode):
        seed_births(cls)
        # Leave alone any class that defines equality of its own.
        if '__hash__' not in vars(cls) and '__eq__' not in vars(cls):
            cls.__hash__ = seeded_hash
    seed_recorded_sets()
    # Clock: wherever the package looks the time up.
    # (and its parser of dates, which completes them by it).
    for name, module in list(sys.modules.items()):
        if name != 'forecaster' and not name.startswith((
                'forecaster.', 'dateutil.parser')):
            continue
        for attr, val in list(vars(module).items()):
            if val is _datetime.datetime:
                setattr(module, attr, FakeDatetime)
            elif val is _datetime.date:
                setattr(module, attr, FakeDate)
            elif val is _datetime:
                setattr(module, attr, _FakeModule())
            elif val is _time:
                setattr(module, attr, _FakeTime())
            elif val is _time.time:
                setattr(module, attr, lambda: Clock.now().timestamp())
    # Identity: modules which use id() as a key get a seeded one.
    for name, module in list(sys.modules.items()):
        if name.startswith('forecaster') and inspect.ismodule(module):
            try:
                src = inspect.getsource(module)
            except (OSError, TypeError):
                continue
            if 'id(' in src:
                module.id = SIM.id_of
