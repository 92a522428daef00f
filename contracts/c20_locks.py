"""C20 locks are released exactly when they were taken, however a section ends."""
import asyncz.file_locking as fl
import asyncz.locks as locks
from asyncz.locks import FileLockProtected, LockProtected, NullLockProtected, RLockProtected

NOTE = ("protected() of every lock class and with_lock are verified for every outcome of the attempt and every way the "
        "section ends (normally, by an exception, by generator exit). flock itself and threading locks are taken by contract.")
ASSUMPTIONS = ["threading locks and flock behave as documented (taken by contract)",
               "POSIX branch of file_locking (the Windows branch is not importable here)"]


class Boom(Exception):
    pass


class Exit(BaseException):
    pass


class Raw:
    """a lock by contract: acquire reports, release only when held"""

    def __init__(self, E, log, available):
        self.E, self.log, self.available = E, log, available
        self.held = 0

    def acquire(self, blocking=True, timeout=-1):
        E = self.E
        E.prove("a non-blocking attempt does not wait", blocking or timeout == -1)
        got = True if blocking and timeout == -1 else self.available
        if got:
            self.held += 1
        self.log.add("acquire", got)
        return got

    def release(self):
        self.E.prove("released only while held", self.held > 0)
        self.held -= 1
        self.log.add("release")


def _section(E, cm, held, ends):
    """run the section; returns (reported, outcome)"""
    seen = []

    def body():
        with cm() as got:
            seen.append(got)
            held(got)
            if ends == "raises":
                raise Boom()
            if ends == "exits":
                raise Exit()

    r = E.run_call(body)
    E.prove("the section ran once", len(seen) == 1)
    E.prove("the section's own outcome is passed on", r.ok if ends == "normally" else
            r.raised(Boom) if ends == "raises" else r.raised(Exit))
    return seen[0]


ENDS = ("normally", "raises", "exits")


def thread_lock(E):
    log = E.log("lock")
    available = E.choice("available", True, False)
    ends = E.choice("section", *ENDS)
    cls = E.choice("class", LockProtected, RLockProtected)
    blocking = E.choice("blocking", False, True)
    timeout = E.choice("timeout", None, 3, 0) if blocking else None
    raw = Raw(E, log, available)
    p = E.obj(cls, lock=raw)
    want = True if blocking and timeout is None else available

    def held(got):
        E.prove("reports whether the lock was obtained", got == want)
        E.prove("held during the section exactly when obtained", raw.held == (1 if want else 0))

    _section(E, lambda: E.call(p.protected, blocking, timeout) if E.choice("style", "pos", "kw") == "pos"
             else E.call(p.protected, blocking=blocking, timeout=timeout), held, ends)
    E.prove_entries("released exactly once, exactly when taken", log,
                    [("acquire", want)] + (["release"] if want else []))


def default_attempt(E):
    """without arguments the attempt is non-blocking"""
    log = E.log("lock")
    available = E.choice("available", True, False)
    raw = Raw(E, log, available)
    p = E.obj(LockProtected, lock=raw)
    _section(E, lambda: E.call(p.protected), lambda got: E.prove("reports the outcome", got == available), "normally")
    E.prove("not held afterwards", raw.held == 0)


def file_lock(E):
    log = E.log("lock")
    available = E.choice("available", True, False)
    ends = E.choice("section", *ENDS)
    blocking = E.choice("blocking", False, True)
    state = {"held": 0, "open": 0}

    class F:
        def __enter__(self):
            state["open"] += 1
            return self

        def __exit__(self, *a):
            state["open"] -= 1
            if state["held"]:
                state["held"] = 0  # closing drops the lock

    def lock(f, flags):
        E.prove("a non-blocking attempt does not wait", bool(flags & fl.LOCK_NB) == (not blocking))
        E.prove("exclusive", bool(flags & fl.LOCK_EX))
        got = True if blocking else available
        state["held"] += 1 if got else 0
        log.add("lock", got)
        return got

    def unlock(f):
        E.prove("released only while held", state["held"] > 0)
        state["held"] -= 1
        log.add("unlock")
        return True

    E.patch(locks, "lock", lock)
    E.patch(locks, "unlock", unlock)
    E.patch(locks, "open", lambda *a, **k: F())
    p = E.obj(FileLockProtected, file_path="/nonexistent/lock")
    want = True if blocking else available

    def held(got):
        E.prove("reports whether the lock was obtained", got == want)
        E.prove("held during the section exactly when obtained", state["held"] == (1 if want else 0))
        E.prove("the file stays open during the section", state["open"] == 1)

    _section(E, lambda: E.call(p.protected, blocking=blocking), held, ends)
    E.prove_entries("released exactly once, exactly when taken", log,
                    [("lock", want)] + (["unlock"] if want else []))
    E.prove("the file is closed", state["open"] == 0)


def null_lock(E):
    ends = E.choice("section", *ENDS)
    p = E.obj(NullLockProtected)
    _section(E, lambda: E.call(p.protected), lambda got: E.prove("always obtained", got is True), ends)


def with_file(E):
    """with_lock releases exactly when it took the lock"""
    log = E.log("lock")
    available = E.choice("available", True, False)
    ends = E.choice("section", *ENDS)
    flags = E.choice("flags", fl.LOCK_EX, fl.LOCK_SH, fl.LOCK_EX | fl.LOCK_NB)
    f = E.stub("file")
    held = [0]

    def lock(x, fl_):
        E.prove("the given file and mode", x is f and fl_ == flags)
        got = available or not flags & fl.LOCK_NB
        held[0] += bool(got)
        log.add("lock", bool(got))
        return bool(got)

    def unlock(x):
        E.prove("released only while held", held[0] > 0)
        held[0] -= 1
        log.add("unlock")
        return True

    E.patch(fl, "lock", lock)
    E.patch(fl, "unlock", unlock)
    want = bool(available or not flags & fl.LOCK_NB)
    _section(E, lambda: E.call(fl.with_lock, f, flags),
             lambda got: E.prove("gives the file while held", got is f and held[0] == (1 if want else 0)), ends)
    E.prove_entries("released exactly once, exactly when taken", log,
                    [("lock", want)] + (["unlock"] if want else []))


def flock(E):
    """lock() reports False when the lock is taken elsewhere and True otherwise"""
    log = E.log("flock")
    how = E.choice("flock", "free", "taken", "error")
    f = E.stub("file", None, fileno=lambda: 7)
    flags = E.choice("flags", fl.LOCK_EX, fl.LOCK_SH, fl.LOCK_EX | fl.LOCK_NB)

    def flock_(fd, fl_):
        log.add(fd, fl_)
        if how == "taken":
            raise BlockingIOError()
        if how == "error":
            raise OSError("bad")

    E.patch(fl, "fcntl", E.stub("fcntl", None, flock=flock_, LOCK_UN=fl.fcntl.LOCK_UN))
    r = E.run_call(fl.lock, f, flags)
    E.prove_entries("one flock call with these flags", log, [(7, flags)])
    if how == "error":
        E.prove("other errors are raised", r.raised(OSError))
    else:
        E.prove("reports whether it is held", r.ok and r.value is (how == "free"))


UNITS = [thread_lock, default_attempt, file_lock, null_lock, with_file, flock]
