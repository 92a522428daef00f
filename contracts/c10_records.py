"""C10 persisted task state decodes to what was stored, encrypted under the key."""
import datetime as dt
import os
import pickle
import shutil
import tempfile

from cryptography.hazmat.primitives.ciphers.aead import AESCCM

from asyncz.datastructures import TaskState
from asyncz.shapes import AnyShape, DataclassShape, PydanticShape, Shape, ShapeError, ShapeRegistry, resolve_shape
from asyncz.stores.file import FileStore
from asyncz.stores.persistence import TaskStateEnvelope
from asyncz.stores.sqlalchemy import SQLAlchemyStore
from asyncz.tasks import Task
from asyncz.triggers import IntervalTrigger

from .util import UTC

NOTE = ("Encryption and decryption are verified for every plain text, every nonce and every altered record; the envelope for every "
        "entity text, every version number, registered, unregistered and foreign representations and any payload; writing and "
        "restoring a task through the file and SQL stores for every task state. The real cipher, pickle and the key taken from the "
        "environment are exercised with sampled keys, states and alterations (bounded).")
ASSUMPTIONS = ["AES-CCM: decrypt(nonce, text) gives the plain text of the encrypt call with the same key, nonce and additional data whose "
               "result is that text, and raises otherwise (authenticity of the cipher)", "os.urandom does not repeat itself",
               "pickle.loads(pickle.dumps(x)) is equal to x; bytes that are no pickle of a record raise",
               "states survive pickling (C11)", "without a key an altered record is not recognised as such"]
QUICK_S = 100


class Own(PydanticShape):
    """a representation the application made itself"""
    name = "own"


class Alias(AnyShape):
    """registered under another name than its own"""
    name = "alias-of-any"


def text(E, name):
    return E.text(name) if E.sym else bytes(E.int(f"{name} {i}", 0, 255) for i in range(E.int(f"{name} n", 0, 30)))


class Cipher:
    """AES-CCM by its contract"""

    def __init__(self, E, log, key):
        self.E, self.log, self.key = E, log, key

    def encrypt(self, nonce, data, associated_data):
        E = self.E
        out = E.text("sealed")
        self.log.append((self.key, nonce, data, associated_data, out))
        return out

    def decrypt(self, nonce, data, associated_data):
        E = self.E
        for key, n, plain, a, out in self.log:
            if key == self.key and a == associated_data and E.truth(E.and_(nonce == n, data == out)):
                return plain
        raise ValueError("InvalidTag")


def sealed_store(E, key, log, cls=None, **attrs):
    cls = cls or E.choice("store", FileStore, SQLAlchemyStore)
    if E.sym:
        cipher = None if key is None else Cipher(E, log, key)
    else:
        cipher = None if key is None else AESCCM(bytes([key]) * 32)
    return E.obj(cls, **{"encryption_key": cipher, "shape": PydanticShape(), "alias": "s", "scheduler": None, "logger_name": "x", "lock": None,
                         "pickle_protocol": pickle.HIGHEST_PROTOCOL, **attrs})


def fresh_bytes(E):
    """os.urandom: as long as asked for, never the same again"""
    if E.conc:
        return
    seen = []

    def urandom(n):
        v = E.text("random")
        E.assume(len(v) == n) if E.conc else E.assume(v._vc_len() == n)
        for o in seen:
            E.assume(o != v)
        seen.append(v)
        return v

    E.patch(os, "urandom", urandom)


def altered(E, rec):
    """any other record"""
    if E.sym:
        out = E.text("altered")
        E.assume(out != rec)
        return out
    how = E.choice("alteration", "bit", "cut", "more", "front", "any", "swap")
    n = len(rec)
    i = E.int("at", 0, 10 ** 6) % max(n, 1)
    if how == "bit" and n:
        return rec[:i] + bytes([rec[i] ^ (1 << E.int("which", 0, 7))]) + rec[i + 1:]
    if how == "cut":
        return rec[:i]
    if how == "more":
        return rec + bytes([E.int("what", 0, 255)])
    if how == "front":
        return rec[1:]
    if how == "swap":
        return rec[13:] + rec[:13] if rec[13:] + rec[:13] != rec else rec + b"x"
    return text(E, "any")


def encryption(E):
    """only the unaltered record under the same key gives the text back"""
    log = []
    fresh_bytes(E)
    E.texts_are_bytes = True
    a = sealed_store(E, E.choice("key", None, 1), log)
    plain = text(E, "plain")
    r = E.run_call(a.conditional_encrypt, plain)
    E.prove("a record is made", r.ok)
    rec = r.value
    how = E.choice("read", "same", "other key", "no key", "altered", "again")
    if a.encryption_key is None:
        E.assume(how in ("same", "other key"))
        E.prove("without a key the text itself is kept", rec == plain)
    if how == "same":
        back = E.run_call(sealed_store(E, 1 if a.encryption_key else None, log, type(a)).conditional_decrypt, rec)
        E.prove("decoded to what was stored", back.ok and E.truth(back.value == plain))
    elif how == "other key":
        back = E.run_call(sealed_store(E, 2, log, type(a)).conditional_decrypt, rec)
        E.prove("not decoded under another key", not back.ok)
    elif how == "no key":
        E.assume(plain != ("" if E.sym else b""))
        back = E.run_call(sealed_store(E, None, log, type(a)).conditional_decrypt, rec)
        E.prove("not given away without the key", not back.ok or E.truth(back.value == rec))
        if E.conc:
            E.prove("nor written in the clear", len(plain) < 4 or plain not in rec)
        else:
            E.prove("nor written in the clear", len(log) == 1 and E.truth(log[0][4] == (rec._vc_getitem(slice(13, None)) if E.sym else rec[13:])))
    elif how == "altered":
        back = E.run_call(sealed_store(E, 1, log, type(a)).conditional_decrypt, altered(E, rec))
        E.prove("an altered record is not decoded", not back.ok)
    else:
        rec2 = E.call(a.conditional_encrypt, plain)
        if E.sym:
            E.prove("every record has a nonce of its own", len(log) == 2 and E.truth(log[0][1] != log[1][1]))
        else:
            E.prove("every record has a nonce of its own", rec2[:13] != rec[:13])
        E.prove("both are decoded", E.and_(E.call(a.conditional_decrypt, rec2) == plain, E.call(a.conditional_decrypt, rec) == plain))
    E.reached(how)


def state(E, **more):
    """a task state with these values"""
    vals = dict(id="t", name="n", fn="m:f", fn_reference="m:f", trigger=None, executor="e", args=(), kwargs={}, coalesce=True,
                mistrigger_grace_time=None, max_instances=1, next_run_time=None, scheduler=None, store_alias=None, submitted=False,
                pending=False)
    vals.update(more)
    return E.obj(TaskState, **{k: v for k, v in vals.items() if k in TaskState.model_fields})


class Strange:
    """a payload of another kind"""


def shape_name(E):
    return E.choice("shape", "pydantic", "any", "dataclass", "msgspec", "own", "alias", "alias-of-any", "unknown", "")


def envelope(E):
    """a record is restored exactly when it is of this entity, version and a known representation"""
    own = E.choice("representation of the store", "pydantic", "own")
    st = sealed_store(E, None, [], shape=Own() if own == "own" else PydanticShape())
    kind = E.choice("record", "legacy", "envelope", "other")
    with_alias = E.choice("alias registered", False, True)
    old = dict(ShapeRegistry._registry)
    if with_alias:
        ShapeRegistry._registry["alias"] = Alias
    try:
        if kind == "legacy":
            rec = state(E)
        elif kind == "other":
            rec = E.choice("value", None, "task_state", 5, {}, {"entity": "task_state", "version": 1, "shape": "pydantic"}, [], b"", Strange())
        else:
            entity = E.text("entity") if E.sym else E.choice("entity", "task_state", "task", "", "Task_state", "task_state ")
            version = E.int("version", -3, 9) if E.conc else E.int("version")
            name = shape_name(E)
            payload = E.choice("payload", "state", "nothing", "strange", "number")
            payload = {"state": state(E), "nothing": None, "strange": Strange(), "number": 5}[payload]
            rec = TaskStateEnvelope(entity=entity, version=version, shape=name, payload=payload)
        r = E.run_call(st.deserialize_task_state, rec)
    finally:
        ShapeRegistry._registry.clear()
        ShapeRegistry._registry.update(old)
    if kind == "legacy":
        E.prove("a record of the time before envelopes is restored", r.ok and r.value is rec)
    elif kind == "other":
        E.prove("anything else is refused", r.raised(ShapeError))
    else:
        known = name in old or name == "alias" and with_alias or name == "own" == own
        right = E.truth(E.and_(entity == "task_state", version == 1))
        if right and known and isinstance(payload, TaskState):
            E.prove("the state is restored", r.ok and r.value is payload)
            E.reached("restored")
        elif right and known:
            E.prove("a payload of another kind gives a state or is refused", not r.ok or isinstance(r.value, TaskState))
            E.reached("payload")
        else:
            E.prove("other entities, versions and representations are refused", r.raised(ShapeError))
            E.reached("refused")


def written(E):
    """what a store writes for a task is what it and any store of the same representation restore"""
    rep = E.choice("representation", "pydantic", "any", "dataclass", "own", "alias")
    old = dict(ShapeRegistry._registry)
    if rep == "alias":
        ShapeRegistry._registry["alias"] = Alias
    try:
        shape = Own() if rep == "own" else Alias() if rep == "alias" else resolve_shape(rep)
        st = state(E, id=E.key("id"), next_run_time=E.opt("next", lambda: E.dt("next", E.tz())), max_instances=E.int("max", 1, 99),
                   mistrigger_grace_time=E.opt("grace", lambda: E.int("grace", 1, 999)), coalesce=E.bool("coalesce"))
        task = E.stub("task", None, __getstate__=lambda: st) if E.sym else _Holder(st)
        a = sealed_store(E, None, [], shape=shape)
        r = E.run_call(a.serialize_task_state, task)
        E.prove("a record is made", r.ok)
        rec = r.value if E.sym else pickle.loads(pickle.dumps(r.value))
        b = a if E.choice("read by", "itself", "another") == "itself" else sealed_store(E, None, [], type(a), shape=type(shape)())
        back = E.run_call(b.deserialize_task_state, rec)
    finally:
        ShapeRegistry._registry.clear()
        ShapeRegistry._registry.update(old)
    E.prove("it is restored", back.ok)
    for k in ("id", "next_run_time", "max_instances", "mistrigger_grace_time", "coalesce", "fn_reference", "args", "kwargs", "name", "executor"):
        x, y = getattr(back.value, k), getattr(st, k)
        E.prove(f"{k} as stored", x is y or x is not None and y is not None and E.truth(x == y))
    E.reached("restored")


class _Holder:
    def __init__(self, state):
        self.state = state

    def __getstate__(self):
        return self.state


def chain(E):
    """a stored record is restored as that task, or not at all"""
    log, pickles = [], []
    fresh_bytes(E)
    if E.sym:
        def dumps(obj, protocol=None, **k):
            out = E.text("pickle")
            pickles.append((out, obj))
            return out

        def loads(data, **k):
            for out, obj in pickles:
                if E.truth(out == data):
                    return obj
            raise pickle.UnpicklingError("no pickle")

        E.patch(pickle, "dumps", dumps)
        E.patch(pickle, "loads", loads)
    else:
        # arbitrary bytes are not handed to pickle here
        real, realdumps = pickle.loads, pickle.dumps

        def known(data, **k):
            if data in pickles:
                return real(data)
            raise pickle.UnpicklingError("no pickle")

        E.patch(pickle, "dumps", lambda *a, **k: (pickles.append(realdumps(*a, **k)), pickles[-1])[1])
        E.patch(pickle, "loads", known)
    E.texts_are_bytes = True
    key = E.choice("key", None, 1)
    a = sealed_store(E, key, log)
    nxt = E.opt("next", lambda: E.dt("next", UTC))
    st = state(E, id=E.key("id") if E.sym else "t1", fn=REF, fn_reference=REF, next_run_time=nxt, max_instances=E.int("max", 1, 99))
    task = E.stub("task", None, __getstate__=lambda: st) if E.sym else _Holder(st)
    rec = E.call(a.conditional_encrypt, E.call(pickle.dumps, E.call(a.serialize_task_state, task), a.pickle_protocol))
    how = E.choice("read", "same", "other key", "no key", "altered")
    if how == "same":
        b = sealed_store(E, key, log, type(a))
        r = E.run_call(b.rebuild_task, rec)
        E.prove("the task is restored", r.ok)
        u = r.value
        E.prove("as stored", E.and_(u.id == st.id, u.max_instances == st.max_instances, u.fn is target, u.args == (), dict(u.kwargs) == {}))
        E.prove("with its run time", u.next_run_time is None if nxt is None else u.next_run_time is not None and E.truth(u.next_run_time == nxt))
        E.prove("belonging to the store", u.store_alias == "s" and u.scheduler is b.scheduler)
    else:
        if E.sym and key is not None:
            # the nonce and the sealed text together are no pickle of another record
            E.assume(E.neg(E.or_(*[out == rec for out, _ in pickles])))
        if how == "no key":
            E.assume(key is not None)
        if how == "altered":
            E.assume(key is not None)
            rec2 = altered(E, rec)
        else:
            rec2 = rec
        b = sealed_store(E, {"other key": 2, "no key": None, "altered": 1}[how], log, type(a))
        r = E.run_call(b.rebuild_task, rec2)
        E.prove("nothing is decoded", not r.ok)
    E.reached(how)


def target(*a, **k):
    """the callable of the stored tasks"""


REF = f"{__name__}:target"


def keys(E):
    """stores started with the same key text read each other's records, others do not (bounded: sampled)"""
    texts = ("", "k", "K", "k ", "longer key " * 9, "ключ", "0" * 32)
    ka, kb = E.choice("key", *texts), E.choice("other", *texts)
    d = tempfile.mkdtemp(prefix="c10_")
    old = os.environ.get("ASYNCZ_STORE_ENCRYPTION_KEY")
    try:
        stores = []
        cls = E.choice("store", FileStore, SQLAlchemyStore)
        for k in (ka, kb):
            os.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = k
            s = FileStore(f"{d}/f") if cls is FileStore else SQLAlchemyStore(f"sqlite:///{d}/x.db")
            E.call(s.start, None, "s")
            stores.append(s)
        a, b = stores
        t = Task(fn=REF, id="t1", trigger=IntervalTrigger(hours=1), name="secretname", args=(1, "x"), kwargs={"z": 2}, coalesce=True,
                 executor="e", max_instances=3, mistrigger_grace_time=E.choice("grace", None, 5))
        t.next_run_time = E.choice("next", None, dt.datetime(2031, 1, 1, tzinfo=UTC))
        E.call(a.add_task, t)
        if cls is FileStore:
            with open(f"{d}/f/t1.task", "rb") as f:
                raw = f.read()
        else:
            with a.engine.connect() as c:
                raw = c.execute(a.table.select()).first().state
        E.prove("nothing is written in the clear under a key", bool(ka) == (b"secretname" not in raw))
        if ka == kb:
            u = E.call(b.lookup_task, "t1")
            E.prove("the same key restores the task", u is not None and (u.id, u.name, u.args, u.kwargs, u.max_instances, u.fn, u.next_run_time)
                    == ("t1", "secretname", (1, "x"), {"z": 2}, 3, target, t.next_run_time))
        else:
            E.prove("another key does not", not E.run_call(b.rebuild_task, raw).ok)
        for s in stores:
            s.shutdown()
    finally:
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY") if old is None else os.environ.__setitem__("ASYNCZ_STORE_ENCRYPTION_KEY", old)
        shutil.rmtree(d)
    E.reached("read")


UNITS = [encryption, envelope, written, chain]
RUNTIME = [keys]
