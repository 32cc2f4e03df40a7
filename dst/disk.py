"""A simulated disk under the code's file operations.

Real files in a scratch folder, but every operation on them passes through
here, as a numbered step: the simulator may make it fail, cut it short, stop
the process there (nothing that it does afterwards reaches the disk) or cut
the power (which also takes what was never made durable), and decides which
of several simulated processes takes its next step.
"""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile
import threading

from dst.core import SIM, PowerLoss

REAL = {'open': builtins.open, 'io_open': io.open}
for _name in ('open', 'fsync', 'fdatasync', 'replace', 'rename', 'remove',
              'unlink', 'chmod', 'link', 'symlink', 'truncate', 'ftruncate',
              'write', 'close', 'getpid', 'stat', 'lstat', 'mkdir', 'rmdir',
              'listdir', 'utime'):
    REAL[_name if _name != 'open' else 'os_open'] = getattr(os, _name)

ERRORS = {'eio': errno.EIO, 'full': errno.ENOSPC, 'denied': errno.EACCES,
          'stale': errno.ESTALE}


class SimFile(io.FileIO):
    """ An open file of the simulated disk. """

    def __init__(self, disk, path, mode, opener=None):
        self.disk = disk
        self.path = path
        self.done = False
        fresh = not isinstance(path, int) and not os.path.lexists(path)
        disk.step('open', path)
        super().__init__(path, mode, opener=opener)
        if isinstance(path, int):
            self.path = disk.fds.get(path, path)
        elif opener is None:
            if fresh:
                disk.meta.append(('create', os.fspath(path), self.ino()))
            disk.fds[self.fileno()] = path

    def ino(self):
        return os.fstat(self.fileno()).st_ino

    def write(self, data):
        if self.disk.dead_here():
            return len(bytes(data))
        data = bytes(data)
        count = self.disk.step('write', self.path, len(data))
        if count is None:
            return super().write(data)
        part, then = count
        written = super().write(data[:part]) if part else 0
        if then is not None:
            self.disk.stop(then)
        return written

    def readinto(self, buffer):
        self.disk.step('read', self.path)
        return super().readinto(buffer)

    def readall(self):
        self.disk.step('read', self.path)
        return super().readall()

    def truncate(self, size=None):
        self.disk.step('truncate', self.path)
        return super().truncate(size)

    def close(self):
        if self.closed or self.done:
            return super().close()
        self.done = True
        try:
            if not self.disk.dead_here():
                self.disk.step('close', self.path)
        finally:
            try:
                self.disk.fds.pop(self.fileno(), None)
            except ValueError:
                pass
            super().close()
        return None


class Disk:
    """ The simulated disk, and the processes which use it. """

    def __init__(self):
        folder = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        # (realpath: a path is recognised by where it starts.)
        self.root = os.path.realpath(
            tempfile.mkdtemp(prefix='dst-disk-', dir=folder))
        self.fds = {}
        self.meta = []
        self.synced = {}
        self.base = {}
        self.fault = None
        self.count = 0
        self.dead = False
        self.full = False
        self.pending = False
        self.sched = None
        self.active = False
        self.ops = []
        self.installed = False

    # --- set-up ---
    def __enter__(self):
        patches = {
            (builtins, 'open'): self.open, (io, 'open'): self.open,
            (os, 'open'): self.os_open, (os, 'write'): self.os_write,
            (os, 'close'): self.os_close, (os, 'fsync'): self.fsync,
            (os, 'fdatasync'): self.fsync, (os, 'getpid'): self.getpid}
        for name in ('replace', 'rename', 'link', 'symlink'):
            patches[os, name] = self.two(name)
        for name in ('remove', 'unlink', 'chmod', 'truncate', 'stat',
                     'lstat', 'mkdir', 'rmdir', 'listdir', 'utime'):
            patches[os, name] = self.one(name)
        self.saved = {key: getattr(*key) for key in patches}
        for (module, name), func in patches.items():
            setattr(module, name, func)
        return self

    def __exit__(self, *_):
        for (module, name), func in self.saved.items():
            setattr(module, name, func)
        self.active = False
        shutil.rmtree(self.root, ignore_errors=True)

    def mine(self, path):
        if not self.active:
            return False
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return os.path.abspath(path).startswith(self.root)

    # --- steps ---
    def dead_here(self):
        if self.sched is not None:
            actor = self.sched.current()
            if actor is not None:
                return actor.dead
        return self.dead

    def stop(self, how):
        """ The process (or machine) stops here. """
        SIM.fault(how)
        if self.sched is not None and self.sched.current() is not None:
            self.sched.current().dead = True
        else:
            self.dead = how
        raise PowerLoss()

    def step(self, kind, path, size=None):
        """ One operation on the disk.

        Returns: None, or for a write that is cut short, how much of it is
        done and what happens then.
        """
        if not self.active:
            return None
        if self.dead_here():
            raise PowerLoss()
        fault = self.fault
        if self.sched is not None and self.sched.current() is not None:
            self.sched.pause()
            actor = self.sched.current()
            if actor.dead:
                raise PowerLoss()
            actor.count += 1
            fault, count = actor.fault, actor.count
        else:
            self.count += 1
            count = self.count
        self.ops.append(kind)
        if self.full and kind == 'write':
            raise OSError(errno.ENOSPC, 'No space left on device')
        if fault is None or fault[1] > count or (
                fault[1] != count and not self.pending):
            return None
        how = fault[0]
        if how in ERRORS and kind in ('stat', 'lstat'):
            # (The standard library takes a failure to look a name up for
            # the name not being there.) The next operation fails instead.
            self.pending = True
            return None
        self.pending = False
        if how in ('crash', 'power'):
            if kind == 'write' and fault[2] is not None:
                return int(size * fault[2]), how
            self.stop(how)
        if how == 'short':
            if kind == 'write' and size > 1:
                SIM.fault('short_write')
                return max(1, int(size * (fault[2] or 0.5))), None
            return None
        SIM.fault(how + '_' + kind)
        if how == 'full':
            self.full = True
            if kind == 'write' and fault[2] is not None:
                return int(size * fault[2]), None
        raise OSError(ERRORS[how], os.strerror(ERRORS[how]))

    # --- the operations ---
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return REAL['open'](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
        raw_mode = ''.join(c for c in mode if c in 'rwxa+')
        raw = SimFile(self, file, raw_mode, opener)
        if '+' in mode:
            result = io.BufferedRandom(raw)
        elif 'r' in mode:
            result = io.BufferedReader(raw)
        elif buffering == 0:
            return raw
        else:
            result = io.BufferedWriter(raw)
        if 'b' in mode:
            return result
        return io.TextIOWrapper(
            result, encoding, errors, newline, buffering == 1)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or not self.mine(path):
            return REAL['os_open'](path, flags, mode, dir_fd=dir_fd)
        fresh = not REAL_lexists(path)
        self.step('open', path)
        result = REAL['os_open'](path, flags, mode)
        self.fds[result] = path
        if fresh:
            self.meta.append(
                ('create', os.fspath(path), os.fstat(result).st_ino))
        return result

    def os_write(self, number, data):
        if not self.mine(number):
            return REAL['write'](number, data)
        if self.dead_here():
            raise PowerLoss()
        count = self.step('write', self.fds[number], len(data))
        if count is None:
            return REAL['write'](number, data)
        part, then = count
        done = REAL['write'](number, bytes(data)[:part]) if part else 0
        if then is not None:
            self.stop(then)
        return done

    def os_close(self, number):
        if self.mine(number):
            self.fds.pop(number)
            if not self.dead_here():
                self.step('close', number)
        return REAL['close'](number)

    def fsync(self, number):
        if hasattr(number, 'fileno'):
            number = number.fileno()
        if not self.mine(number):
            return REAL['fsync'](number)
        self.step('fsync', number)
        info = os.fstat(number)
        path = '/proc/self/fd/%d' % number
        try:
            with REAL['open'](path, 'rb') as file:
                self.synced[info.st_ino] = file.read()
        except OSError:
            pass  # (A folder.)
        return None

    def getpid(self):
        if not self.active:
            return REAL['getpid']()
        actor = self.sched and self.sched.current()
        return 4000 + (actor.number if actor else 0)

    def one(self, name):
        real = REAL[name]

        def operation(path='.', *args, **kwargs):
            if not self.mine(path):
                return real(path, *args, **kwargs)
            self.step(name, path)
            result = real(path, *args, **kwargs)
            if name in ('remove', 'unlink'):
                self.meta.append(('unlink', os.fspath(path), None))
            return result
        return operation

    def two(self, name):
        real = REAL[name]

        def operation(source, target, *args, **kwargs):
            if not self.mine(target):
                return real(source, target, *args, **kwargs)
            self.step(name, target)
            result = real(source, target, *args, **kwargs)
            kind = 'rename' if name in ('replace', 'rename') else name
            self.meta.append((kind, os.fspath(source), os.fspath(target)))
            return result
        return operation

    # --- durability ---
    def files(self):
        """ What the disk holds: {path: (inode, mode, content or link)}. """
        result = {}
        for name in sorted(REAL['listdir'](self.root)):
            path = os.path.join(self.root, name)
            if os.path.islink(path):
                result[path] = (None, None, os.readlink(path))
            else:
                info = REAL['stat'](path)
                with REAL['open'](path, 'rb') as file:
                    result[path] = (
                        info.st_ino, info.st_mode & 0o777, file.read())
        return result

    def begin(self, fault=None):
        """ From here on all operations count, and may fail. """
        self.base = self.files()
        self.synced = {ino: data for ino, _, data in self.base.values()
                       if ino is not None}
        self.meta = []
        self.fault = fault
        self.count = 0
        self.dead = self.full = self.pending = False
        self.ops = []
        self.active = True

    def end(self):
        """ The process(es) of before are gone, or done. """
        self.active = False
        self.fault = None
        self.full = False
        self.fds.clear()

    def lose_power(self, seed):
        """ Leaves only what was durable.

        Changes to names last up to some point in time. The content of a
        file lasts if it was synced, and if it changed afterwards it may
        be anything between.
        """
        rng = random.Random('power-%s' % seed)
        now = {ino: (mode, data) for ino, mode, data in
               self.files().values() if ino is not None}
        names = {path: ino for path, (ino, _, _) in self.base.items()
                 if ino is not None}
        modes = {ino: mode for ino, mode, _ in self.base.values()}
        lasting = rng.choice([
            len(self.meta), rng.randint(0, len(self.meta))])
        for kind, one, two in self.meta[:lasting]:
            if kind == 'create':
                names[one] = two
            elif kind == 'unlink':
                names.pop(one, None)
            elif kind == 'rename' and one in names:
                names[two] = names.pop(one)
            elif kind == 'link' and one in names:
                names[two] = names[one]
        for path, (ino, _, _) in self.files().items():
            if ino is not None:
                REAL['remove'](path)
        for path, ino in sorted(names.items()):
            mode, data = now.get(
                ino, (modes.get(ino, 0o644), self.synced.get(ino, b'')))
            safe = self.synced.get(ino)
            if safe != data:
                data = rng.choice([
                    safe or b'', data, b'', data[:len(data) // 2],
                    bytes(len(data)), data[:rng.randint(0, len(data))]])
            with REAL['open'](path, 'wb') as file:
                file.write(data)
            REAL['chmod'](path, mode)
        SIM.fault('power_cut_state')


def REAL_lexists(path):
    try:
        REAL['lstat'](path)
    except OSError:
        return False
    return True


# --- several processes -----------------------------------------------------
class Actor:
    """ A simulated process: what it runs, and when it was running. """

    def __init__(self, number, func, fault):
        self.number = number
        self.func = func
        self.fault = fault
        self.count = 0
        self.dead = False
        self.go = threading.Semaphore(0)
        self.result = None
        self.error = None
        self.started = None
        self.ended = None
        self.over = False


class Scheduler:
    """ Runs actors one disk step at a time, in the order it is told. """

    def __init__(self, disk, picks):
        self.disk = disk
        self.picks = list(picks)
        self.actors = []
        self.back = threading.Semaphore(0)
        self.running = threading.local()
        self.time = 0
        self.order = []

    def add(self, func, fault=None):
        self.actors.append(Actor(len(self.actors) + 1, func, fault))

    def current(self):
        return getattr(self.running, 'actor', None)

    def pause(self):
        actor = self.current()
        self.back.release()
        actor.go.acquire()

    def body(self, actor):
        self.running.actor = actor
        actor.go.acquire()
        try:
            actor.result = actor.func()
        except BaseException as exc:  # pylint: disable=broad-except
            actor.error = exc
        actor.over = True
        self.back.release()

    def run(self):
        """ Runs all actors to their ends. """
        self.disk.sched = self
        threads = [threading.Thread(target=self.body, args=(a,), daemon=True)
                   for a in self.actors]
        for thread in threads:
            thread.start()
        while True:
            ready = [a for a in self.actors if not a.over]
            if not ready:
                break
            pick = self.picks.pop(0) if self.picks else 0
            actor = ready[pick % len(ready)]
            self.time += 1
            if actor.started is None:
                actor.started = self.time
            self.order.append(actor.number)
            actor.go.release()
            self.back.acquire()
            if actor.over:
                actor.ended = self.time
        for thread in threads:
            thread.join()
        self.disk.sched = None
