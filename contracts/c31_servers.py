"""C31 the Redis and MongoDB stores implement the store contract."""
import pickle

from pymongo.errors import DuplicateKeyError

from asyncz.datastructures import TaskState
from asyncz.shapes import resolve_shape
from asyncz.stores import mongo as mongomod
from asyncz.stores.mongo import MongoDBStore
from asyncz.stores.redis import RedisStore

from . import c09_durable as base
from .c09_durable import Blob, Double, Loggers, Sched, dec, envelope

NOTE = ("Every operation of the Redis and MongoDB stores on one task is verified against a server that may hold a record of that id and "
        "another arbitrary record, for all run times, with serialization failing at any of its steps; listings, due tasks and the next "
        "run time for up to three records with symbolic times (that number is bounded). Random histories against a reference "
        "dictionary run natively over the same doubles (bounded).")
ASSUMPTIONS = ["the servers are modelled by doubles of the commands the stores use, as documented: hashes and sorted sets with a "
               "transactional pipeline; collections with filters, sorting (null first) and unique _id. No server is contacted",
               "pickle.dumps of a record gives bytes that pickle.loads restores (C10, C11), or raises", "one operation at a time"]
QUICK_S = 90


def first_of(E, xs, before):
    """insertion sort by a possibly symbolic order"""
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and E.truth(before(x, out[k - 1])):
            k -= 1
        out.insert(k, x)
    return out


class Redis(Double):
    """the commands of a redis server that holds one hash and one sorted set per key"""

    def __init__(self, E):
        self.E, self.hashes, self.sets = E, {}, {}
        self.connection_pool = Pool()

    def raw(self, x):
        return x.encode() if isinstance(x, str) and self.E.conc else x

    def same(self, a, b):
        return self.E.truth(self.raw(a) == self.raw(b))

    def find(self, rows, k):
        for r in rows:
            if self.same(r[0], k):
                return r
        return None

    # hashes
    def hexists(self, name, key):
        return self.find(self.hashes.get(name, []), key) is not None

    def hget(self, name, key):
        r = self.find(self.hashes.get(name, []), key)
        return None if r is None else r[1]

    def hmget(self, name, keys, *more):
        keys = list(keys) if isinstance(keys, (list, tuple)) else [keys]
        return [self.hget(name, k) for k in (*keys, *more)]

    def hgetall(self, name):
        return {self.raw(k): v for k, v in self.hashes.get(name, [])}

    def hkeys(self, name):
        return [self.raw(k) for k, v in self.hashes.get(name, [])]

    def hvals(self, name):
        return [v for k, v in self.hashes.get(name, [])]

    def hlen(self, name):
        return len(self.hashes.get(name, []))

    def hset(self, name, key=None, value=None, mapping=None):
        done = 0
        for k, v in [*([(key, value)] if key is not None else []), *(mapping or {}).items()]:
            rows = self.hashes.setdefault(name, [])
            r = self.find(rows, k)
            if r is None:
                rows.append([k, v])
                done += 1
            else:
                r[1] = v
        return done

    def hsetnx(self, name, key, value):
        if self.hexists(name, key):
            return 0
        return self.hset(name, key, value)

    def hdel(self, name, *keys):
        return self.drop(self.hashes, name, keys)

    def drop(self, where, name, keys):
        n = 0
        for k in keys:
            rows = where.get(name, [])
            r = self.find(rows, k)
            if r is not None:
                rows[:] = [x for x in rows if x is not r]
                n += 1
        return n

    # sorted sets
    def zadd(self, name, mapping, nx=False, xx=False, ch=False, incr=False, gt=False, lt=False):
        if ch or incr:
            return getattr(self, "zadd with ch or incr")
        n = 0
        for k, v in mapping.items():
            rows = self.sets.setdefault(name, [])
            r = self.find(rows, k)
            if r is None:
                if not xx:
                    rows.append([k, v])
                    n += 1
            elif not (nx or gt and not self.E.truth(v > r[1]) or lt and not self.E.truth(v < r[1])):
                r[1] = v
        return n

    def zrem(self, name, *keys):
        return self.drop(self.sets, name, keys)

    def zscore(self, name, key):
        r = self.find(self.sets.get(name, []), key)
        return None if r is None else r[1]

    def zcard(self, name):
        return len(self.sets.get(name, []))

    def ranked(self, name):
        E = self.E

        def before(a, b):
            return E.or_(a[1] < b[1], E.and_(a[1] == b[1], self.raw(a[0]) < self.raw(b[0])))

        return first_of(E, self.sets.get(name, []), before)

    def shown(self, rows, withscores):
        return [(self.raw(k), v) if withscores else self.raw(k) for k, v in rows]

    def zrange(self, name, start, end, desc=False, withscores=False):
        rows = self.ranked(name)
        rows = rows[::-1] if desc else rows
        n = len(rows)
        start, end = (x + n if x < 0 else x for x in (start, end))
        return self.shown(rows[max(start, 0):end + 1], withscores)

    def zrangebyscore(self, name, min, max, start=None, num=None, withscores=False):
        E = self.E

        def at_least(v):
            return True if min == "-inf" else v > bound(min) if type(min) is str else v >= min

        def at_most(v):
            return True if max in ("+inf", "inf") else v < bound(max) if type(max) is str else v <= max

        def bound(x):
            if not x.startswith("("):
                return getattr(self, f"zrangebyscore with {x}")
            return float(x[1:])
        rows = [r for r in self.ranked(name) if E.truth(at_least(r[1])) and E.truth(at_most(r[1]))]
        if start is not None:
            rows = rows[start:start + num]
        return self.shown(rows, withscores)

    def delete(self, *names):
        for n in names:
            self.hashes.pop(n, None)
            self.sets.pop(n, None)
        return len(names)

    def pipeline(self, transaction=True, shard_hint=None):
        return Pipeline(self)


class Pool(Double):
    def disconnect(self, *a):
        pass


class Pipeline(Double):
    """commands are kept and done together"""

    def __init__(self, server):
        self.server, self.todo = server, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.todo = []

    def multi(self):
        pass

    reset = multi

    def __getattr__(self, n):
        if n in ("hset", "hsetnx", "hdel", "zadd", "zrem", "delete"):
            def later(*a, **k):
                self.todo.append((n, a, k))
                return self
            return later
        return super().__getattr__(n)

    def execute(self):
        done = [getattr(self.server, n)(*a, **k) for n, a, k in self.todo]
        self.todo = []
        return done


class Answer(Double):
    def __init__(self, n):
        self.matched_count = self.deleted_count = self.modified_count = n
        self.acknowledged = True


class Cursor(Double):
    """fields are left out of what is handed over, not of what it is sorted by"""

    def __init__(self, c, docs, projection):
        self.c, self.docs, self.projection = c, docs, projection

    def __iter__(self):
        return iter([self.c.shown(d, self.projection) for d in self.docs])

    def sort(self, key, direction=1):
        self.docs = self.c.ordered(self.docs, [(key, direction)] if isinstance(key, str) else key)
        return self

    def limit(self, n):
        self.docs = self.docs[:n] if n else self.docs
        return self


class Collection(Double):
    """documents with a unique _id"""

    def __init__(self, E):
        self.E, self.docs = E, []

    def create_index(self, *a, **k):
        pass

    def test(self, doc, filter):
        E = self.E
        if filter is None:
            return True
        if not isinstance(filter, dict):
            filter = {"_id": filter}
        for k, want in filter.items():
            v = doc.get(k)
            if not isinstance(want, dict):
                want = {"$eq": want}
            for op, x in want.items():
                if op in ("$eq", "$ne"):
                    same = v is x if v is None or x is None else E.truth(v == x)
                    if same is (op == "$ne"):
                        return False
                elif op in ("$lt", "$lte", "$gt", "$gte"):
                    if v is None or x is None:
                        return False
                    if not E.truth({"$lt": lambda: v < x, "$lte": lambda: v <= x, "$gt": lambda: v > x, "$gte": lambda: v >= x}[op]()):
                        return False
                elif op in ("$in", "$nin"):
                    if any(v is y or v is not None and y is not None and E.truth(v == y) for y in x) is (op == "$nin"):
                        return False
                elif op == "$type" and x in ("number", "double"):
                    if v is None:
                        return False
                else:
                    return getattr(self, f"operator {op}")
        return True

    def ordered(self, docs, sort):
        E = self.E
        for k, direction in reversed(sort or []):
            def before(a, b):
                a, b = a.get(k), b.get(k)
                if direction < 0:
                    a, b = b, a
                if a is None or b is None:
                    return a is None and b is not None
                return a < b

            docs = first_of(E, docs, before)
        return docs

    def shown(self, doc, projection):
        if not projection:
            return dict(doc)
        keys = [k for k, on in projection.items() if on] if isinstance(projection, dict) else list(projection)
        return {k: doc[k] for k in {"_id", *keys} if k in doc}

    def find(self, filter=None, projection=None, sort=None, limit=0):
        docs = [d for d in self.docs if self.test(d, filter)]
        docs = self.ordered(docs, sort)
        return Cursor(self, docs[:limit] if limit else docs, projection)

    def find_one(self, filter=None, projection=None, sort=None):
        for d in self.find(filter, projection, sort):
            return d
        return None

    def insert_one(self, doc):
        for d in self.docs:
            if self.E.truth(d["_id"] == doc["_id"]):
                raise DuplicateKeyError("E11000 duplicate key error")
        self.docs.append(dict(doc))

    def update_one(self, filter, update, upsert=False):
        if not {"$set", "$unset"} >= set(update) or upsert and "$set" not in update:
            return getattr(self, f"update {list(update)}")
        for d in self.docs:
            if self.test(d, filter):
                d.update(update.get("$set", {}))
                for k in update.get("$unset", {}):
                    d.pop(k, None)
                return Answer(1)
        return self.upsert(filter, update["$set"]) if upsert else Answer(0)

    def upsert(self, filter, doc):
        if not isinstance(filter, dict) or list(filter) != ["_id"] or isinstance(filter["_id"], dict):
            return getattr(self, f"upsert of {filter}")
        self.docs.append({**filter, **doc})
        return Answer(0)

    def replace_one(self, filter, doc, upsert=False):
        for d in self.docs:
            if self.test(d, filter):
                id = d["_id"]
                d.clear()
                d.update({"_id": id, **doc})
                return Answer(1)
        return self.upsert(filter, doc) if upsert else Answer(0)

    def remove(self, filter, most):
        gone = [d for d in self.docs if self.test(d, filter)][:most]
        self.docs = [d for d in self.docs if not any(d is g for g in gone)]
        return Answer(len(gone))

    def delete_one(self, filter):
        return self.remove(filter, 1)

    def delete_many(self, filter):
        return self.remove(filter, None)

    def count_documents(self, filter, limit=0):
        n = len([d for d in self.docs if self.test(d, filter)])
        return min(n, limit) if limit else n


class Client(Double):
    def close(self):
        pass


class ServerWorld:
    """a store of a server that holds these records: [(id, state | other bytes, creation)]"""

    def __init__(self, E, kind, records, junk=()):
        self.E, self.kind = E, kind
        enc = (lambda s: Blob(envelope(s)) if isinstance(s, TaskState) else s) if E.sym else (
            lambda s: pickle.dumps(envelope(s)) if isinstance(s, TaskState) else s)
        stamp = lambda s: None if not isinstance(s, TaskState) or s.next_run_time is None else E.call(s.next_run_time.timestamp)  # noqa: E731
        if kind == "redis":
            self.server = Redis(E)
            for i, s, t in records:
                self.server.hset("asyncz.tasks", i, enc(s))
                if stamp(s) is not None:
                    self.server.zadd("asyncz.run_times", {i: stamp(s)})
        else:
            self.server = Collection(E)
            for i, s, t in records:
                self.server.docs.append({"_id": i, "next_run_time": stamp(s), "state": enc(s)})
        if E.sym and kind == "mongo":
            E.patch(mongomod, "Binary", lambda b, *a: b)
        self.open()

    def open(self):
        E = self.E
        common = {"encryption_key": None, "shape": resolve_shape(), "alias": "s", "scheduler": Sched(), "logger_name": "x", "lock": None,
                  "pickle_protocol": pickle.HIGHEST_PROTOCOL}
        more = dict(redis=self.server, database=0, tasks_key="asyncz.tasks", run_times_key="asyncz.run_times") if self.kind == "redis" \
            else dict(collection=self.server, client=Client())
        self.store = E.obj(RedisStore if self.kind == "redis" else MongoDBStore, **common, **more)
        if E.conc:
            self.store.start(Sched(), "s")

    def record(self, id):
        if self.kind == "redis":
            v = self.server.hget("asyncz.tasks", id)
            return None if v is None else (dec(v), self.server.zscore("asyncz.run_times", id))
        d = self.server.find_one({"_id": id})
        return None if d is None else (dec(d["state"]), d["next_run_time"])

    def number(self):
        if self.kind == "mongo":
            return len(self.server.docs)
        return self.server.hlen("asyncz.tasks")

    def reopen(self):
        self.store.shutdown()
        self.open()

    def close(self):
        pass


base.WORLDS.update(redis=ServerWorld, mongo=ServerWorld)


def redis_operation(E):
    """one operation on a Redis store"""
    base.operation(E, "redis")


def mongo_operation(E):
    """one operation on a MongoDB store"""
    base.operation(E, "mongo")


def redis_listing(E):
    base.listing(E, "redis")


def mongo_listing(E):
    base.listing(E, "mongo")


def histories(E):
    """random histories against a dictionary (bounded)"""
    base.history(E, E.choice("store", "redis", "mongo"))


def many(E):
    """listings of many tasks (bounded)"""
    base.crowd(E, E.choice("store", "redis", "mongo"))


UNITS = [redis_operation, mongo_operation, redis_listing, mongo_listing]
RUNTIME = [histories, many]
