"""Simulated clients: callables which fail on demand, and interrupts."""
import dis
import sys

from dst import core
from dst.core import SIM, ClientFault, Interrupt


class Callable:
    """ A client-supplied function which fails on demand. """

    def __init__(self, world, name, func):
        self.world = world
        self.name = name
        self.func = func

    def __call__(self, *args, **kwargs):
        armed = self.world.arms.get(self.name, 0)
        if armed:
            self.world.arms[self.name] = armed - 1
            if armed == 1:
                SIM.fault('callable_raises')
                raise ClientFault(self.name)
        return self.func(*args, **kwargs)


class Mapping(dict):
    """ A client-supplied mapping whose lookups fail on demand. """

    def __init__(self, world, name, values, default=None):
        super().__init__(values)
        self.ask = Callable(world, name, super().__getitem__)
        self.default = default

    def __getitem__(self, key):
        return self.ask(key)

    def __missing__(self, key):
        if self.default is None:
            raise KeyError(key)
        return self.default


NOP = dis.opmap['NOP']


STORES = frozenset(dis.opmap[name] for name in (
    'STORE_SUBSCR', 'STORE_ATTR', 'DELETE_SUBSCR', 'DELETE_ATTR',
    'STORE_SLICE', 'STORE_GLOBAL', 'STORE_DEREF') if name in dis.opmap)
CHANGES = frozenset((
    'add', 'append', 'appendleft', 'clear', 'discard', 'extend', 'insert',
    'pop', 'popitem', 'remove', 'setdefault', 'sort', 'update', '__setitem__',
    '__delitem__', 'setattr', '__setattr__'))
KNOWN_CHANGING = {}


def changing_lines(code):
    """ The lines of `code` which (may) change some object. """
    if code not in KNOWN_CHANGING:
        lines, line = set(), None
        for inst in dis.get_instructions(code):
            if inst.positions is not None and inst.positions.lineno:
                line = inst.positions.lineno
            named = inst.argval if any(
                kind in inst.opname for kind in (
                    'NAME', 'ATTR', 'METHOD', 'GLOBAL')) else None
            if inst.opcode in STORES or named in CHANGES:
                lines.add(line)
        KNOWN_CHANGING[code] = lines
    return KNOWN_CHANGING[code]


def gen_interrupt(rng, *most):
    """ Where an interrupt comes.

    A number: when that many lines have been run (up to any of `most`). Or
    else, so that lines which are seldom run are reached as well: at the
    `times`-th run of the `nth` *new* line, or of the `nth` new line among
    those that come straight after a line which changes some object.
    """
    if rng.random() < 0.5:
        return rng.randint(1, rng.choice(most))
    kind = rng.choice(['line', 'change'])
    top = min(max(most), 900 if kind == 'line' else 150)
    return [kind, rng.randint(1, rng.choice([top, max(1, top // 8)])),
            rng.choice([1, 1, 1, 2, 3, rng.randint(1, 30)])]


class Interrupter:
    """ Raises Interrupt at the given place (see `gen_interrupt`). """

    def __init__(self, where):
        if isinstance(where, list):
            self.kind, self.nth, self.times = where
            self.left = None
        else:
            self.kind, self.left = None, where
        self.seen = set()
        self.chosen = None
        self.prefix = core.REPO + '/'
        self.fired = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *_):
        sys.settrace(self.old)

    def trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.kind == 'change':
            return self.local(changing_lines(frame.f_code))
        return self.line

    def local(self, changing):
        """ Follows one frame, for lines just after changes. """
        last = None

        def line(frame, event, _arg):
            nonlocal last
            if event == 'line':
                if last in changing:
                    self.reach(frame)
                last = frame.f_lineno
            return line
        return line

    def line(self, frame, event, _arg):
        if event == 'line':
            if self.kind is None:
                self.left -= 1
                if self.left <= 0:
                    self.fire(frame)
            else:
                self.reach(frame)
        return self.line

    def reach(self, frame):
        """ A line that may be the chosen one. """
        where = (frame.f_code, frame.f_lineno)
        if self.chosen is None and where not in self.seen:
            self.seen.add(where)
            if len(self.seen) >= self.nth:
                self.chosen = where
        if where == self.chosen:
            self.times -= 1
            if self.times <= 0:
                self.fire(frame)

    def fire(self, frame):
        # The bare `try:` runs nothing, so nothing interrupts it (and no
        # handler around it would be told).
        if not self.fired and frame.f_code.co_code[frame.f_lasti] != NOP:
            self.fired = True
            SIM.fault('interrupt')
            raise Interrupt()
