"""C09 the durable stores implement the store contract."""
import datetime as dt
import fcntl
import io
import os
import pathlib
import pickle
import shutil
import tempfile

import sqlalchemy
from sqlalchemy.exc import IntegrityError

from asyncz.datastructures import TaskState
from asyncz.exceptions import ConflictIdError, TaskLookupError
from asyncz.shapes import resolve_shape
from asyncz.stores import file as filemod
from asyncz.stores import sqlalchemy as sqlmod
from asyncz.stores.file import FileStore
from asyncz.stores.sqlalchemy import SQLAlchemyStore
from asyncz.tasks import Task
from asyncz.triggers import IntervalTrigger

from .util import UTC

NOTE = ("Every operation of the file and SQL stores on one task is verified against a directory / table that may hold a record of that "
        "id, another arbitrary record and anything else, for all run times, with serialization failing at any of its steps. Which "
        "tasks of a file store are due, its next run time and the tasks an SQL store makes of its rows are verified for any number of "
        "tasks; reading a directory and answering SQL queries for up to three records with symbolic times (that number is bounded). "
        "Random histories against a reference dictionary run natively on real directories and SQLite (bounded).")
ASSUMPTIONS = ["the file system and SQL are modelled by small doubles: exclusive creation, truncation, unlinking; insert, update, delete, "
               "select with where, order by (nulls last) and limit, transactions that are rolled back unless they are committed",
               "pickle.dumps of a record gives bytes that pickle.loads restores (C10, C11), or raises",
               "the databases tried natively are SQLite; columns of other databases that hold whole seconds only would round run times",
               "ids of file stores are valid (no separator, colon or leading dot)", "one operation at a time (C20)"]
QUICK_S = 120
SUFFIX = ".task"


def target(*a, **k):
    """the callable of the stored tasks"""


REF = f"{__name__}:target"


class Bad:
    """does not survive pickling"""

    def __reduce__(self):
        raise pickle.PicklingError("no")


# ------------------------------------------------------------------ the state of a task
def make_state(E, id, nxt, marker):
    vals = dict(id=id, name="n", fn=REF, fn_reference=REF, trigger=None, executor="e", args=(), kwargs={}, coalesce=True,
                mistrigger_grace_time=None, max_instances=marker, next_run_time=nxt, scheduler=None, store_alias=None,
                submitted=False, pending=False)
    return E.obj(TaskState, **{k: v for k, v in vals.items() if k in TaskState.model_fields})


class Given:
    """a task that is handed to the store"""

    def __init__(self, state, how):
        self.state, self.how = state, how
        self.id, self.next_run_time = state.id, state.next_run_time

    def __getstate__(self):
        if self.how == "state fails":
            raise ValueError("This Task cannot be serialized")
        return self.state


class Blob:
    """what pickle makes of a record"""

    def __init__(self, obj):
        self.obj = obj


def blobs(E, fault):
    """pickle by its contract"""
    def dumps(obj, protocol=None, **k):
        if fault == "pickle fails":
            raise pickle.PicklingError("no")
        return Blob(obj)

    def loads(data, **k):
        if isinstance(data, Blob):
            return data.obj
        raise EOFError("no record")

    if E.sym:
        E.patch(pickle, "dumps", dumps)
        E.patch(pickle, "loads", loads)


def plain(data):
    return data if isinstance(data, Blob) else b"" if data == [] else data


class Double:
    """what this stand-in does not know is a limit of the check, never a violation"""

    def __getattr__(self, n):
        if n.startswith("__") or n == "_vc_user":
            raise AttributeError(n)
        try:
            from pyvc.values import CUR, Unsupported
        except ImportError:
            raise AttributeError(n) from None
        if CUR[0] is None:
            raise AttributeError(n)
        raise Unsupported(f"{type(self).__name__}.{n}")


# ------------------------------------------------------------------ a directory
class Directory(Double):
    """a directory that holds these files"""

    def __init__(self, E, files):
        self.E, self.files = E, files  # [name, content, creation]

    def __truediv__(self, name):
        return PathTo(self, name)

    def find(self, name):
        for f in self.files:
            if self.E.truth(f[0] == name):
                return f
        return None

    def glob(self, pattern):
        return [PathTo(self, f[0]) for f in self.files if isinstance(f[0], str) and f[0].endswith(SUFFIX)]

    def __fspath__(self):
        return "directory"


class PathTo(Double):
    def __init__(self, directory, name):
        self.directory, self.name = directory, name

    @property
    def path(self):
        return self

    def is_file(self):
        return True

    def exists(self):
        return self.directory.find(self.name) is not None

    def open(self, mode="r"):
        f = self.directory.find(self.name)
        if "x" in mode:
            if f is not None:
                raise FileExistsError(17, "exists")
            f = [self.name, b"", 99]
            self.directory.files.append(f)
        elif "w" in mode:
            if f is None:
                f = [self.name, b"", 99]
                self.directory.files.append(f)
            f[1] = b""
        elif f is None:
            raise FileNotFoundError(2, "missing")
        return Handle(f, mode)

    def unlink(self, missing_ok=False):
        f = self.directory.find(self.name)
        if f is not None:
            self.directory.files.remove(f)
        elif not missing_ok:
            raise FileNotFoundError(2, "missing")

    def read_bytes(self):
        return self.open("rb").read()

    def stat(self):
        return Stat(self.directory.find(self.name)[2])


class Stat(Double):
    def __init__(self, t):
        self.st_ctime = self.st_mtime = t
        self.st_ctime_ns = self.st_mtime_ns = t * 1000000000


class Handle(Double):
    def __init__(self, file, mode):
        self.file, self.mode, self.pos = file, mode, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    close = flush = lambda self: None

    def fileno(self):
        return 9999

    def truncate(self, size=None):
        if self.mode == "rb":
            raise OSError("not writable")
        size = self.pos if size is None else size
        if size == 0:
            self.file[1] = b""
        elif self.file[1] == b"mixed" and size == "written":
            self.file[1] = self.data
        else:
            self.file[1] = self.file[1] if size == "written" else b"mixed"

    def seek(self, pos, *a):
        if pos or a:
            self.unsupported
        self.pos = 0

    def tell(self):
        return self.pos

    def write(self, data):
        if self.mode == "rb":
            raise OSError("not writable")
        # onto something else: neither the one nor the other can be read, until it is cut behind what was written
        self.data = data
        self.file[1] = data if self.file[1] == b"" and self.pos == 0 else b"mixed"
        self.pos = "written"

    def read(self):
        return self.file[1]


class Scan(Double):
    def __init__(self, entries):
        self.entries = entries

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __iter__(self):
        return iter(self.entries)

    def close(self):
        pass


def opened(path, mode="r", *a, **k):
    return path.open(mode)


def file_system(E, directory):
    E.patch(filemod, "open", opened)
    E.patch(os, "unlink", lambda p: p.unlink())
    E.patch(os, "remove", lambda p: p.unlink())
    E.patch(os, "scandir", lambda d: Scan([PathTo(d, f[0]) for f in d.files]))
    E.patch(fcntl, "flock", lambda *a: None)


# ------------------------------------------------------------------ a table
class Cond(Double):
    def __init__(self, test):
        self.test = test

    def __and__(self, o):
        return Cond(lambda row: self.test(row) and o.test(row))


class Column(Double):
    def __init__(self, E, name):
        self.E, self.name = E, name

    def cmp(self, op):
        """unknown for a missing value, like in SQL"""
        return Cond(lambda row: row[self.name] is not None and self.E.truth(op(row[self.name])))

    def __eq__(self, o):
        return Cond(lambda row: row[self.name] is None) if o is None else self.cmp(lambda v: v == o)

    def __ne__(self, o):
        return Cond(lambda row: row[self.name] is not None) if o is None else self.cmp(lambda v: self.E.neg(v == o))

    __hash__ = object.__hash__

    def __le__(self, o):
        return self.cmp(lambda v: v <= o)

    def __lt__(self, o):
        return self.cmp(lambda v: v < o)

    def __ge__(self, o):
        return self.cmp(lambda v: v >= o)

    def __gt__(self, o):
        return self.cmp(lambda v: v > o)

    def in_(self, values):
        return self.cmp(lambda v: self.E.or_(*[v == o for o in values]))

    def is_(self, o):
        return self == o

    def is_not(self, o):
        return self != o

    isnot = is_not

    def asc(self):
        return Order(self.name)

    def desc(self):
        return Order(self.name, True)


class Order(Double):
    def __init__(self, name, desc=False, last=None):
        self.name, self.descending, self.last = name, desc, last

    def nullslast(self):
        return Order(self.name, self.descending, True)

    def nullsfirst(self):
        return Order(self.name, self.descending, False)

    nulls_last, nulls_first = nullslast, nullsfirst


class Columns(dict):
    def __getattr__(self, n):
        return self[n]


class Statement(Double):
    def __init__(self, kind, cols=None):
        self.kind, self.cols, self.conds, self.orders, self.count, self.data = kind, cols, [], [], None, {}

    def where(self, *conds):
        self.conds += conds
        return self

    filter = where

    def order_by(self, *orders):
        self.orders += [Order(o.name) if isinstance(o, Column) else o for o in orders]
        return self

    def limit(self, n):
        self.count = n
        return self

    def values(self, **data):
        self.data.update(data)
        return self


class Table(Double):
    def __init__(self, E, rows):
        self.E, self.rows = E, rows
        self.c = Columns((n, Column(E, n)) for n in ("id", "next_run_time", "state"))
        self.columns = self.c

    def select(self):
        return Statement("select")

    def insert(self):
        return Statement("insert")

    def update(self):
        return Statement("update")

    def delete(self):
        return Statement("delete")


class Row:
    def __init__(self, d):
        self.__dict__.update(d)


class Result(Double):
    def __init__(self, rows, count):
        self.rows, self.rowcount = rows, count

    def __iter__(self):
        return iter(self.rows)

    def first(self):
        return self.rows[0] if self.rows else None

    def scalar(self):
        return self.rows[0].next_run_time if self.rows else None

    scalar_one_or_none = scalar

    def all(self):
        return list(self.rows)

    fetchall = all
    one_or_none = first


class Connection(Double):
    def __init__(self, table, commits):
        self.table, self.commits = table, commits

    def __enter__(self):
        self.kept = [dict(r) for r in self.table.rows]
        return self

    def __exit__(self, kind, *a):
        if kind is not None or not self.commits:
            self.rollback()
        return None

    def commit(self):
        self.kept = [dict(r) for r in self.table.rows]

    def rollback(self):
        self.table.rows[:] = self.kept

    def execute(self, st):
        E, t = self.table.E, self.table
        if st.kind == "insert":
            for r in t.rows:
                if E.truth(r["id"] == st.data["id"]):
                    raise IntegrityError("insert", {}, Exception("unique"))
            t.rows.append(dict(st.data))
            return Result([], 1)
        rows = [r for r in t.rows if all(c.test(r) for c in st.conds)]
        if st.kind == "update":
            for r in rows:
                r.update(st.data)
            return Result([], len(rows))
        if st.kind == "delete":
            t.rows[:] = [r for r in t.rows if not any(r is x for x in rows)]
            return Result([], len(rows))
        for o in reversed(st.orders):
            rows = self.ordered(rows, o)
        if st.count is not None:
            rows = rows[:st.count]
        return Result([Row(r) for r in rows], len(rows))

    def ordered(self, rows, o):
        E = self.table.E
        last = o.last
        out = []
        for r in rows:
            v = r[o.name]
            i = 0
            while i < len(out):
                w = out[i][o.name]
                if v is None or w is None:
                    before = (w is not None) if (v is None and not last) else (v is not None and last)
                    # without a rule the missing values come first
                else:
                    before = E.truth(v > w if o.descending else v < w)
                if before:
                    break
                i += 1
            out.insert(i, r)
        return out


class Engine(Double):
    def __init__(self, table):
        self.table = table
        self.url = "sqlite://"

    def begin(self):
        return Connection(self.table, True)

    def connect(self):
        return Connection(self.table, False)


def database(E):
    E.patch(sqlmod.sqlalchemy, "select", lambda *cols: Statement("select", cols))
    E.patch(sqlmod.sqlalchemy, "delete", lambda t: t.delete())
    E.patch(sqlmod.sqlalchemy, "update", lambda t: t.update())
    E.patch(sqlmod.sqlalchemy, "insert", lambda t: t.insert())


class Logger:
    def exception(self, *a, **k):
        pass

    info = debug = warning = error = exception


class Loggers(dict):
    def __getitem__(self, k):
        return Logger()


class Sched:
    identity = "i"
    loggers = Loggers()
    lock_path = ""
    shape = None


# ------------------------------------------------------------------ the two worlds under one interface
class World:
    """a store that holds these records: [(id, state | other bytes, creation)]"""

    def __init__(self, E, kind, records, junk=()):
        self.E, self.kind = E, kind
        cls = FileStore if kind == "file" else SQLAlchemyStore
        common = {"encryption_key": None, "shape": resolve_shape(), "alias": "s", "scheduler": Sched(), "logger_name": "x", "lock": None,
                  "pickle_protocol": pickle.HIGHEST_PROTOCOL}
        self.dir = None
        stamp = lambda s: None if not isinstance(s, TaskState) or s.next_run_time is None else E.call(s.next_run_time.timestamp)  # noqa: E731
        if E.sym:
            enc = lambda s: Blob(envelope(s)) if isinstance(s, TaskState) else s  # noqa: E731
            if kind == "file":
                self.directory = Directory(E, [[i + SUFFIX, enc(s), t] for i, s, t in records] + [[n, b"other", 0] for n in junk])
                file_system(E, self.directory)
                self.store = E.obj(cls, **common, directory=self.directory, suffix=SUFFIX, mode=0o700, cleanup_directory=False)
            else:
                self.table = Table(E, [{"id": i, "next_run_time": stamp(s), "state": enc(s)} for i, s, t in records])
                database(E)
                self.store = E.obj(cls, **common, engine=Engine(self.table), table=self.table)
        else:
            self.dir = tempfile.mkdtemp(prefix="c09_")
            enc = lambda s: pickle.dumps(envelope(s)) if isinstance(s, TaskState) else s  # noqa: E731
            if kind == "file":
                for i, s, t in records:
                    pathlib.Path(self.dir, i + SUFFIX).write_bytes(enc(s))
                for n in junk:
                    pathlib.Path(self.dir, n).write_bytes(b"other")
                self.store = FileStore(self.dir)
            else:
                self.store = SQLAlchemyStore(f"sqlite:///{self.dir}/x.db")
            self.store.start(Sched(), "s")
            if kind == "sql":
                with self.store.engine.begin() as c:
                    for i, s, t in records:
                        c.execute(self.store.table.insert().values(id=i, next_run_time=stamp(s), state=enc(s)))

    def record(self, id):
        """what is stored under the id: (its state or the other bytes, the run time it is filed under) or None"""
        E = self.E
        if E.sym:
            if self.kind == "file":
                f = self.directory.find(id + SUFFIX)
                return None if f is None else (dec(f[1]), None)
            for r in self.table.rows:
                if E.truth(r["id"] == id):
                    return dec(r["state"]), r["next_run_time"]
            return None
        if self.kind == "file":
            p = pathlib.Path(self.dir, id + SUFFIX)
            return (dec(p.read_bytes()), None) if p.exists() else None
        with self.store.engine.connect() as c:
            r = c.execute(self.store.table.select().where(self.store.table.c.id == id)).first()
        return None if r is None else (dec(r.state), r.next_run_time)

    def number(self):
        if self.E.sym:
            return len(self.directory.files) if self.kind == "file" else len(self.table.rows)
        if self.kind == "file":
            return len(os.listdir(self.dir))
        with self.store.engine.connect() as c:
            return len(c.execute(self.store.table.select()).all())

    def reopen(self):
        self.store.shutdown()
        self.store = FileStore(self.dir) if self.kind == "file" else SQLAlchemyStore(f"sqlite:///{self.dir}/x.db")
        self.store.start(Sched(), "s")

    def close(self):
        if self.dir:
            self.store.shutdown()
            shutil.rmtree(self.dir)


WORLDS: dict = {}  # other kinds of stores (C31)


def world(E, kind, records, junk=()):
    return WORLDS.get(kind, World)(E, kind, records, junk)


def envelope(state):
    from asyncz.stores.persistence import TASK_STATE_ENTITY, TASK_STATE_ENVELOPE_VERSION, TaskStateEnvelope
    return TaskStateEnvelope(entity=TASK_STATE_ENTITY, version=TASK_STATE_ENVELOPE_VERSION, shape="pydantic", payload=state)


def dec(data):
    if isinstance(data, Blob):
        return data.obj.payload
    try:
        return pickle.loads(data).payload
    except Exception:
        return data


def same_state(E, a, b):
    """a stored state is this one"""
    if not isinstance(a, TaskState) or not isinstance(b, TaskState):
        return a is b or type(a) is type(b) is bytes and a == b
    same = E.and_(a.id == b.id, a.max_instances == b.max_instances)
    if a.next_run_time is None or b.next_run_time is None:
        return E.and_(same, a.next_run_time is b.next_run_time)
    return E.and_(same, a.next_run_time == b.next_run_time)


def operation(E, kind):
    """one operation on a store that holds any records"""
    id = E.text("id") if E.sym else E.choice("id", "t1", "a.b", "日本", "x" + SUFFIX, "a b", "T1", "-")
    other_id = E.text("other id") if E.sym else E.choice("other id", "t1", "o", "t1" + SUFFIX, "t", "t12", "T1", "")
    E.assume(other_id != id)
    E.assume(id != "")
    E.contract(getattr(FileStore, "check_task_id", _none), lambda self, task_id: None)  # see ids
    time = lambda n: E.opt(n, lambda: E.dt(n, UTC))  # noqa: E731
    old = E.choice("stored", "nothing", "task", "damaged")
    old_state = {"nothing": None, "task": make_state(E, id, time("old next"), 1), "damaged": b"damaged"}[old]
    other = make_state(E, other_id, time("other next"), 2)
    records = [(other_id, other, 1)] + ([] if old == "nothing" else [(id, old_state, 2)])
    op = E.choice("operation", "add", "update", "delete", "lookup", "clear")
    fault = E.choice("fault", "none", "pickle fails", "state fails") if op in ("add", "update") else "none"
    new = make_state(E, id, time("new next"), 3)
    blobs(E, fault)
    if E.conc and fault == "pickle fails":
        new.__dict__["args"] = (Bad(),)
    w = world(E, kind, records, junk=("unrelated.txt",))
    try:
        n0 = w.number()
        s = w.store
        given = Given(new, fault)
        r = E.run_call(*{"add": (s.add_task, given), "update": (s.update_task, given), "delete": (s.delete_task, id),
                         "lookup": (s.lookup_task, id), "clear": (s.remove_all_tasks,)}[op])
        now = w.record(id)
        n1 = w.number()
        rest = w.record(other_id)
        after = E.run_call(s.get_next_run_time) if kind in WORLDS and r.ok and op in ("delete", "clear") else None
    finally:
        w.close()
    if after is not None:
        want = None if op == "clear" else other.next_run_time
        E.prove("what is removed has no run time any more", after.ok and (after.value is None if want is None else after.value is not None
                and E.truth(after.value == want)))
    kept = now is None if old == "nothing" else now is not None and E.truth(same_state(E, now[0], old_state))
    if op == "clear":
        E.prove("all are removed", r.ok and now is None and rest is None)
        E.prove("other files stay", n1 == n0 - len(records))
        E.reached("clear")
        return
    E.prove("other records stay", rest is not None and E.truth(same_state(E, rest[0], other)))
    present = {"nothing": 0}.get(old, 1)
    if fault != "none":
        E.prove("a failing write is reported", not r.ok)
        E.prove("a failing write leaves what was stored", kept)
        E.prove("and leaves nothing behind", n1 == n0)
        E.reached("failed write")
        return
    if op == "add":
        if old == "nothing":
            E.prove("added", r.ok and n1 == n0 + 1)
            E.prove("the task itself", now is not None and E.truth(same_state(E, now[0], new)))
        else:
            E.prove("an id is not added twice", r.raised(ConflictIdError))
            E.prove("the stored task stays", kept and n1 == n0)
    elif op == "update":
        if old == "nothing":
            E.prove("an unknown task is not updated", r.raised(TaskLookupError) and n1 == n0 and now is None)
        else:
            E.prove("updated", r.ok and n1 == n0)
            E.prove("to the task given", now is not None and E.truth(same_state(E, now[0], new)))
    elif op == "delete":
        if old == "nothing":
            E.prove("an unknown task is not deleted", r.raised(TaskLookupError) and n1 == n0)
        else:
            E.prove("deleted", r.ok and now is None and n1 == n0 - 1)
    else:
        if old == "damaged" and kind in WORLDS:
            E.prove("what is damaged is not returned", not r.ok or r.value is None)
            return
        E.prove("looking up does not fail", r.ok)
        if old == "task":
            t = r.value
            E.prove("the stored task", t is not None and E.truth(E.and_(t.id == id, t.max_instances == 1)))
            E.prove("with its run time", t.next_run_time is old_state.next_run_time or t.next_run_time is not None
                    and old_state.next_run_time is not None and E.truth(t.next_run_time == old_state.next_run_time))
            E.prove("belonging to the store", t.store_alias == "s" and t.scheduler is s.scheduler)
            E.prove("stays stored", kept and n1 == n0)
        else:
            E.prove("nothing is found", r.value is None)
    if now is not None and kind != "file" and op in ("add", "update") and r.ok:
        E.prove("filed under its run time", now[1] is None if new.next_run_time is None else now[1] is not None
                and E.truth(now[1] == E.call(new.next_run_time.timestamp)))
    E.reached(op)


def _none():
    pass


def file_operation(E):
    """one operation on a file store"""
    operation(E, "file")


def sql_operation(E):
    """one operation on an SQL store"""
    operation(E, "sql")


NAMES = ("b", "a", "c")


def listing(E, kind):
    """listings, due tasks and the next run time of a store that holds up to three records"""
    E.bounded.add("listings of up to three records") if E.sym else None
    n = E.choice("records", 0, 1, 2, 3)
    states = [make_state(E, NAMES[i], E.opt(f"next {i}", lambda: E.dt(f"next {i}", UTC)), i + 1) for i in range(n)]
    bad = E.choice("damaged", -1, 0, 1) if n == 2 else -1
    bads = [bad] if n < 3 or kind not in WORLDS else E.choice("damaged ones", [], [0, 2], [0, 1, 2])
    E.contract(getattr(FileStore, "check_task_id", _none), lambda self, task_id: None)
    blobs(E, "none")
    records = [(NAMES[i], b"damaged" if i in bads else s, i) for i, s in enumerate(states)]
    good = [s for i, s in enumerate(states) if i not in bads]
    w = world(E, kind, records, junk=("unrelated.txt",))
    op = E.choice("operation", "all", "due", "next") if len(bads) < 2 else "all"
    now = E.dt("now", UTC)
    try:
        s = w.store
        r = E.run_call(*{"all": (s.get_all_tasks,), "due": (s.get_due_tasks, now), "next": (s.get_next_run_time,)}[op])
        left = [w.record(x.id) for x in good]
        dropped = (w.number(), E.run_call(s.get_next_run_time)) if kind in WORLDS and op == "all" else None
    finally:
        w.close()
    if dropped is not None:
        E.prove("what cannot be restored is dropped", dropped[0] == len(good))
        if all(x.next_run_time is None for x in good):
            E.prove("with its run time", dropped[1].ok and dropped[1].value is None)
        else:
            E.prove("with its run time", dropped[1].ok and dropped[1].value is not None and E.truth(E.or_(*[
                x.next_run_time == dropped[1].value for x in good if x.next_run_time is not None])))
    for x, y in zip(good, left):
        E.prove("stays stored", y is not None and E.truth(same_state(E, y[0], x)))
    E.prove("answers", r.ok)
    times = [x.next_run_time for x in good]
    if op == "next":
        waiting = [t for t in times if t is not None]
        if bad >= 0 and kind != "file":
            waiting = [x.next_run_time for x in states if x.next_run_time is not None and x not in ()]
            E.assume(states[bad].next_run_time is None)
        if not waiting:
            E.prove("no next run time", r.value is None)
        else:
            E.prove("a next run time", r.value is not None)
            E.prove("not later than any", E.and_(*[r.value <= t for t in waiting]))
            E.prove("one of them", E.or_(*[r.value == t for t in waiting]))
        E.reached("next")
        return
    got = r.value
    want = [x for x in good if op == "all" or x.next_run_time is not None and E.truth(x.next_run_time <= now)]
    E.prove("exactly these tasks", sorted(t.id for t in got) == sorted(x.id for x in want))
    for t in got:
        x = next(x for x in want if x.id == t.id)
        E.prove("as stored", E.and_(t.max_instances == x.max_instances, t.next_run_time is x.next_run_time or x.next_run_time is not None
                                    and t.next_run_time is not None and t.next_run_time == x.next_run_time))
    for a, b in zip(got, got[1:]):
        if a.next_run_time is None:
            E.prove("paused tasks come last", b.next_run_time is None)
        elif b.next_run_time is not None:
            E.prove("in the order of their run times", a.next_run_time <= b.next_run_time)
    E.reached(op)


def file_listing(E):
    listing(E, "file")


def sql_listing(E):
    listing(E, "sql")


def file_due(E):
    """the due tasks of a file store: exactly those of its tasks"""
    E.pipelines = True
    tz = E.tz()
    seq = tasks(E, tz)
    E.contract(FileStore.get_all_tasks, lambda self: seq)
    E.contract(FileStore.get_tasks, lambda self: seq)
    now = E.dt("now", tz)
    r = E.run_call(E.obj(FileStore, alias="s").get_due_tasks, now)
    E.prove("answers", r.ok)
    E.pipeline_prove("due", r.value, seq, lambda i, t: t.next_run_time is not None and E.truth(t.next_run_time <= now),
                     lambda i, t, v: v is t or E.truth(E.eqv(v, t)))
    E.reached("due")


def tasks(E, tz):
    """any number of stored tasks"""
    if E.sym:
        from pyvc.values import DtC, KeyC, OptC, Population
        return E.seq("tasks", Population("task", Task, {"id": KeyC, "next_run_time": OptC(DtC(tz))}).codec())
    return E.seq("tasks", None, lambda i: E.stub("task", None, id=i, next_run_time=E.opt("next", lambda: E.dt("next", tz))), maxlen=6, long=600)


def file_next(E):
    """the next run time of a file store: the earliest of its listing, which lists them in order with the paused ones last"""
    tz = E.tz()
    if E.sym:
        import z3
        from pyvc.values import DtC, KeyC, OptC, Population, SDt
        pop = Population("task", Task, {"id": KeyC, "next_run_time": OptC(DtC(tz))})
        seq = E.seq("tasks", pop.codec())
        nones, whens = pop.arrays("next_run_time")[:2]

        def at(j):
            r = seq.get(j)[0]
            return z3.Select(nones, r), z3.Select(whens, r) - tz.off

        i, j = z3.Int("i!c09"), z3.Int("j!c09")
        (na, wa), (nb, wb) = at(i), at(j)
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < seq.n), z3.And(z3.Implies(na, nb), z3.Or(nb, wa <= wb))),
                           patterns=[z3.MultiPattern(seq.get(i)[0], seq.get(j)[0])]))

        def holds(upto, v):
            """v is the earliest of the first `upto` listed ones"""
            inside = z3.And(j >= 0, j < upto)
            pat = [seq.get(j)[0]]
            if v is None:
                return z3.ForAll([j], z3.Implies(inside, nb), patterns=pat)
            if type(v) is not SDt:
                return False
            return z3.And(z3.ForAll([j], z3.Implies(inside, z3.Or(nb, v.inst <= wb)), patterns=pat),
                          z3.Exists([j], z3.And(inside, z3.Not(nb), v.inst == wb)))

        def carry(name, value, L):
            if value is not None and type(value) is not SDt:
                return None
            return (lambda: E.opt("so far", lambda: E.dt("so far", tz)), lambda v: holds(L.i, v))

        E.foreach("tasks", seq, carry=carry)
    else:
        seq = sorted(tasks(E, tz), key=lambda t: (t.next_run_time is not None and t.next_run_time.timestamp() or 0))
        seq = [t for t in seq if t.next_run_time is not None] + [t for t in seq if t.next_run_time is None]
    E.contract(FileStore.get_all_tasks, lambda self: seq)
    E.contract(FileStore.get_tasks, lambda self: seq)
    r = E.run_call(E.obj(FileStore, alias="s").get_next_run_time)
    E.prove("answers", r.ok)
    if E.sym:
        E.prove("the earliest next run time of the stored tasks", holds(seq.n, r.value))
    else:
        E.prove("the earliest next run time of the stored tasks",
                r.value == min((t.next_run_time for t in seq if t.next_run_time is not None), default=None))
    E.reached("next")


def sql_rows(E):
    """all tasks of an SQL store: each row that can be restored gives its task, in the order of the rows"""
    asked = []
    if E.sym:
        from pyvc.values import BoolC, KeyC, Population
        rows = E.seq("rows", Population("row", Row, {"id": KeyC, "fine": BoolC, "task": KeyC}, other=lambda ref, n: ref if n == "state"
                                        else NotImplemented).codec())
    else:
        def gen(i):
            r = Row({"id": i, "fine": E.choice("fine", True, True, False), "task": object()})
            r.state = r
            return r

        rows = E.seq("rows", None, gen, maxlen=6, long=600)

    def rebuild(self, state):
        if E.truth(state.fine):
            return state.task
        raise ValueError("damaged")

    E.contract(SQLAlchemyStore.rebuild_task, rebuild)
    table = Table(E, [])
    database(E)

    class All(Connection):
        def execute(self, st):
            if st.kind == "select":
                asked.append(st)
                return rows
            return Result([], 0)

    engine = Engine(table)
    engine.connect = engine.begin = lambda: All(table, True)
    fe = E.foreach("rows", rows, out=lambda i, x: [x.task] if E.truth(x.fine) else [],
                   collect=(KeyC, lambda i, x, v: v == x.id, lambda i, x: E.neg(x.fine)) if E.sym else None)
    st = E.obj(SQLAlchemyStore, alias="s", scheduler=Sched(), logger_name="x", engine=engine, table=table)
    r = E.run_call(st.get_all_tasks)
    E.prove("answers", r.ok)
    E.prove_entries("the restored tasks in order", r.value, [fe])
    E.prove("of all rows", len(asked) == 1 and asked[0].conds == [] and asked[0].count is None)
    E.prove("ordered by the run time, paused ones last", [(o.name, o.descending, o.last) for o in asked[0].orders] == [("next_run_time", False, True)])
    E.reached("listed")


def many(E):
    """listings of many tasks (bounded)"""
    crowd(E, E.choice("store", "file", "sql"))


def crowd(E, kind):
    n = E.choice("tasks", 90, 120, 260, 1100)
    step = E.choice("step", 1, 7, 13)
    base = dt.datetime(2031, 1, 1, tzinfo=UTC)
    times = [None if (i * step) % 11 == 0 else base + dt.timedelta(seconds=(i * step * 7919) % 5003) for i in range(n)]
    w = world(E, kind, [(f"t{i}", make_state(E, f"t{i}", t, 1), 0) for i, t in enumerate(times)])
    try:
        now = base + dt.timedelta(seconds=E.int("now", -1, 5004))
        a, d, x = E.call(w.store.get_all_tasks), E.call(w.store.get_due_tasks, now), E.call(w.store.get_next_run_time)
    finally:
        w.close()
    E.prove("all tasks", sorted(t.id for t in a) == sorted(f"t{i}" for i in range(n)))
    E.prove("all due tasks", sorted(t.id for t in d) == sorted(f"t{i}" for i, t in enumerate(times) if t is not None and t <= now))
    E.prove("the earliest run time", x == min(t for t in times if t is not None))
    got = [(t.next_run_time is None, t.next_run_time) for t in a]
    E.prove("in order, paused last", all(p[0] <= q[0] and (q[0] or p[1] <= q[1]) for p, q in zip(got, got[1:])))
    E.reached("many")


def ids(E):
    """a file store takes exactly the ids that are file names below its directory"""
    id = "".join(E.choice(f"part {i}", "a", ".", "/", "\\", "\0", ":", "..", "日", " ", "-", "%2f", "\n") for i in range(E.int("parts", 0, 4)))
    w = World(E, "file", [])
    try:
        op = E.choice("operation", "lookup_task", "delete_task", "add_task", "update_task")
        st = make_state(E, id, None, 1)
        r = E.run_call(getattr(w.store, op), id if op.endswith(("lookup_task", "delete_task")) else Given(st, "none"))
        left = os.listdir(w.dir)
        above = os.path.exists(os.path.join(os.path.dirname(w.dir), id + SUFFIX)) if id.startswith("..") and "\0" not in id else False
    finally:
        w.close()
    if id.startswith(".") or any(c in id for c in "/\\\0:"):
        E.prove("refused", r.raised(RuntimeError) and left == [] and not above)
    elif op == "add_task":
        E.prove("stored as a file of its own", r.ok and left == [id + SUFFIX])
    else:
        E.prove("not refused", r.ok if op == "lookup_task" else r.raised(TaskLookupError))
    E.reached(op)


def histories(E):
    """random histories against a dictionary (bounded)"""
    history(E, E.choice("store", "file", "sql"))


def history(E, kind):
    key = E.choice("key", "", "secret")
    old_key = os.environ.get("ASYNCZ_STORE_ENCRYPTION_KEY")
    os.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = key
    w = world(E, kind, [])
    ref: dict = {}
    base = dt.datetime(2031, 1, 1, tzinfo=UTC)
    zones = (UTC, dt.timezone(dt.timedelta(hours=5, minutes=30)), dt.timezone(dt.timedelta(hours=-11)))
    try:
        for i in range(E.int("steps", 1, 14)):
            op = E.choice(f"op {i}", "add", "add", "update", "update", "update", "delete", "lookup", "all", "due", "next", "clear", "reopen", "bad add", "bad update")
            id = E.choice(f"id {i}", "a", "a", "a", "b", "A", "a.b")
            s = w.store
            when = E.choice(f"when {i}", None, 0, 1, 60, 3600, 0.5, 0.000001, 86400 * 200, 1800)
            when = None if when is None else (base + dt.timedelta(seconds=when)).astimezone(E.choice(f"zone {i}", *zones))
            bad = op.startswith("bad ")
            if op in ("add", "update", "bad add", "bad update"):
                t = Task(fn=REF, id=id, trigger=IntervalTrigger(hours=1), name="n" * E.choice(f"size {i}", 1, 40, 300), args=(i,), kwargs={"z": i}, coalesce=True,
                         executor="e", max_instances=i + 1, mistrigger_grace_time=None)
                t.next_run_time = when
                if bad:
                    t.kwargs = {"z": Bad()}
                r = E.run_call(s.add_task if op.endswith("add") else s.update_task, t)
                if op.endswith("add") and id in ref and not bad:
                    E.prove("an id is not added twice", r.raised(ConflictIdError))
                elif op.endswith("update") and id not in ref and not bad:
                    E.prove("an unknown task is not updated", r.raised(TaskLookupError))
                else:
                    E.prove("a failing write is reported, any other is done", r.ok != bad)
                    if not bad:
                        ref[id] = (i, when)
            elif op == "delete":
                r = E.run_call(s.delete_task, id)
                E.prove("deleted exactly when known", r.ok if id in ref else r.raised(TaskLookupError))
                ref.pop(id, None)
            elif op == "lookup":
                r = E.run_call(s.lookup_task, id)
                E.prove("found exactly when stored", r.ok and (r.value is not None) == (id in ref))
                if r.value is not None:
                    t = r.value
                    E.prove("as stored", (t.args, t.kwargs, t.next_run_time, t.fn) == ((ref[id][0],), {"z": ref[id][0]}, ref[id][1], target))
            elif op in ("all", "due"):
                now = base + dt.timedelta(seconds=E.choice(f"now {i}", -1, 0, 0.4, 1, 1799.999999, 1800, 3600, 86400 * 365))
                r = E.run_call(s.get_all_tasks) if op == "all" else E.run_call(s.get_due_tasks, now)
                want = {k: v for k, v in ref.items() if op == "all" or v[1] is not None and v[1] <= now}
                E.prove("exactly the tasks stored", r.ok and sorted(t.id for t in r.value) == sorted(want))
                got = [(t.next_run_time is None, t.next_run_time) for t in r.value]
                E.prove("in order, paused last", all(a[0] <= b[0] and (b[0] or a[1] <= b[1]) for a, b in zip(got, got[1:])))
            elif op == "next":
                r = E.run_call(s.get_next_run_time)
                E.prove("the earliest run time", r.ok and r.value == min((v[1] for v in ref.values() if v[1] is not None), default=None))
            elif op == "clear":
                E.prove("cleared", E.run_call(s.remove_all_tasks).ok)
                ref.clear()
            else:
                w.reopen()
    finally:
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY") if old_key is None else os.environ.__setitem__("ASYNCZ_STORE_ENCRYPTION_KEY", old_key)
        w.close()
    E.reached("history")


UNITS = [file_operation, sql_operation, file_listing, sql_listing, file_due, file_next, sql_rows]
RUNTIME = [ids, histories, many]
