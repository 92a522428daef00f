"""C12 every due task is submitted once with its due run times and advanced or retired."""
import datetime as dt

from asyncz.enums import SchedulerState
from asyncz.events import TaskEvent, TaskSubmissionEvent
from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_REMOVED, TASK_SUBMITTED
from asyncz.exceptions import MaximumInstancesError, TaskLookupError
from asyncz.schedulers.base import BaseScheduler
from asyncz.tasks import Task

from .util import scheduler

NOTE = ("One processing round is verified for one and for two stores, each with any number of due tasks; every task has "
        "arbitrary due run times, any coalescing setting, any executor name (known or not), an executor that accepts, "
        "refuses or fails, and a schedule that goes on or ends.")
ASSUMPTIONS = ["stores, executors and schedules meet their own contracts (C05, C08, C09, C18)",
               "a due task has at least one due run time (C05) and a non-empty id",
               "no other thread changes the stores' tasks during the round (they are locked)"]


class Lock:
    """a store lock: free or held by somebody else"""

    def __init__(self, E, name, free=True):
        self.E, self.name, self.free, self.held = E, name, free, 0

    def protected(self, blocking=True):
        self.E.prove("a busy store is not waited for", not blocking)
        return _Section(self)


class _Section:
    def __init__(self, lock):
        self.lock = lock

    def __enter__(self):
        if self.lock.free:
            self.lock.held += 1
        return self.lock.free

    def __exit__(self, *a):
        if self.lock.free:
            self.lock.held -= 1


class Env:
    """the round's surroundings, and what they answered for each task"""

    def __init__(self, E, tz, now):
        self.E, self.tz, self.now = E, tz, now
        self.seen = {}
        self.sent, self.stored = E.log("sent"), E.log("stored")
        self.events, self.removed = E.log("submission events"), E.log("removal events")
        self.logs = [self.sent, self.stored, self.events, self.removed]
        self.executors = self._executors()

    def key(self, task):
        return str(task.t) if self.E.sym else id(task)

    # ---------------------------------------------------------------- what the scheduler calls
    def _executors(self):
        E = self.E
        if E.sym:
            from pyvc.values import Population, SMap
            pop = Population("executor", object, {}, other=lambda ref, n: (
                lambda task, run_times: self.send(ref, task, run_times)) if n == "send_task" else NotImplemented)
            return SMap.fresh(pop.codec(), "executors")
        out = {}
        for n in ("a", "b"):
            exe = E.stub("executor", None)
            exe.send_task = lambda task, run_times, exe=exe: self.send(exe, task, run_times)
            out[n] = exe
        return out

    def send(self, exe, task, run_times):
        rec = self.rec(task)
        self.sent.add(exe, task, run_times)
        if rec.get("ends") is None:
            rec["ends"] = self.E.choice("submission", "accepted", "limit", "error")
        if rec["ends"] == "limit":
            raise MaximumInstancesError(task.id, 1)
        if rec["ends"] == "error":
            raise ValueError("executor")

    def rec(self, task):
        return self.seen.setdefault(self.key(task), {})

    def get_run_times(self, task, timezone, now):
        E = self.E
        E.prove("due run times are those up to now", E.eqv(now, self.now))
        rec = self.rec(task)
        if "times" not in rec:
            if E.sym:
                from pyvc.values import DtC
                rec["times"] = E.seq("due", DtC(self.tz))
                E.assume(rec["times"]._vc_len() >= 1)
            else:
                rec["times"] = [E.dt("due", self.tz) for _ in range(E.choice("n", 1, 1, 2, 3, 7))]
        t = rec["times"]
        return t.copy() if E.sym else list(t)

    def next_fire(self, task, timezone, previous_time, now):
        E = self.E
        rec = self.rec(task)
        E.prove("the schedule is asked once its due run times are known", "times" in rec)
        E.prove("the schedule continues after the last due run time",
                previous_time is not None and E.truth(previous_time == rec["times"][-1]))
        E.prove("the schedule is asked for the current time", E.eqv(now, self.now))
        if "next" not in rec:
            rec["next"] = E.opt("goes on", lambda: E.dt("next", self.tz))
        return rec["next"]

    def update(self, task, changes):
        E = self.E
        E.prove("only the next run time of a task changes", set(changes) == {"next_run_time"})
        self.rec(task)["set"] = changes["next_run_time"]

    def task_attr(self, task, n):
        if n == "get_run_times":
            return lambda timezone, now: self.get_run_times(task, timezone, now)
        if n == "trigger":
            return self.E.stub("trigger", None, get_next_trigger_time=lambda timezone, previous_time, now=None:
                               self.next_fire(task, timezone, previous_time, now))
        if n == "update_task":
            return lambda **changes: self.update(task, changes)
        return NotImplemented

    def tasks(self, alias):
        E = self.E
        if E.sym:
            from pyvc.values import BoolC, IntC, KeyC, Population
            pop = Population(f"task of {alias}", Task, {"id": KeyC, "executor": KeyC, "coalesce": BoolC, "max_instances": IntC},
                             other=self.task_attr)
            import z3
            r = z3.Int("r!c12")
            a = pop.arrays("id")[0]
            E.assume(z3.ForAll([r], z3.Select(a, r) > 0, patterns=[z3.Select(a, r)]))
            return E.seq(f"due tasks of {alias}", pop.codec())

        def gen(i):
            t = E.stub("task", None, id=E.choice("id", f"t{i}", f"u{i}"), executor=E.choice("executor", "a", "b", "x"),
                       coalesce=E.bool("coalesce"), max_instances=1, store_alias=alias)
            for n in ("get_run_times", "trigger", "update_task"):
                setattr(t, n, self.task_attr(t, n))
            return t

        return E.seq("due tasks", None, gen, maxlen=3)

    def store(self, alias):
        E = self.E
        due = self.tasks(alias)
        lock = Lock(E, alias)

        def get_due_tasks(now):
            E.prove("tasks due up to now are asked for", E.eqv(now, self.now))
            return due

        def update_task(task):
            self.stored.add("update", alias, task, self.rec(task).pop("set", "nothing"))

        def delete_task(task_id):
            self.stored.add("delete", alias, task_id)

        return E.stub(f"store {alias}", None, lock=lock, get_due_tasks=get_due_tasks, update_task=update_task,
                      delete_task=delete_task, get_next_run_time=lambda: None), due

    # ---------------------------------------------------------------- what is expected
    def known(self, task):
        return self.E.truth(task.executor in self.executors) if self.E.conc else \
            self.E.truth(self.executors.has_key(task.executor))

    def same_times(self, got, times, coalesced):
        E = self.E
        if not E.sym:
            return list(got) == (times[-1:] if coalesced else times)
        n = E.call(len, got)
        if coalesced:
            return E.and_(n == 1, E.implies(n == 1, E.eqv(got[0], times[-1])) if E.truth(n == 1) else False)
        return E.and_(n == times._vc_len(), E.forall(0, times._vc_len(), lambda j: E.eqv(got.at(j.t), times.at(j.t)))
                      if hasattr(type(got), "_vc_sym") or type(got) is type(times) else False)

    def expect(self, alias, task):
        """[sent, stored, submission events, removal events] of one due task"""
        E = self.E
        removed = [E.pred(lambda ev: type(ev) is TaskEvent and ev.code == TASK_REMOVED and ev.store == alias
                          and E.truth(E.eqv(ev.task_id, task.id)))]
        if not self.known(task):
            return [[], [("delete", alias, task.id)], [], removed]
        rec = self.seen.get(self.key(task), {})
        bad = [E.pred(lambda v: False)]
        if "times" not in rec or "next" not in rec or "ends" not in rec:
            return [bad, bad, bad, bad]
        times, ends = rec["times"], rec["ends"]
        coalesced = E.truth(task.coalesce)
        exe = self.executors[task.executor]
        skipped = (E.call(len, times) - 1) if coalesced else 0

        def event(ev):
            return (type(ev) is TaskSubmissionEvent
                    and ev.code == (TASK_SUBMITTED if ends == "accepted" else TASK_MAX_INSTANCES)
                    and ev.store == alias and ev.source == "scheduled"
                    and E.truth(E.eqv(ev.task_id, task.id))
                    and E.truth(E.eqv(ev.coalesced_run_count, skipped))
                    and E.truth(self.same_times(ev.scheduled_run_times, times, coalesced)))

        sent = [E.pred(lambda s: E.truth(E.eqv(s[0], exe)) and E.truth(E.eqv(s[1], task))
                       and E.truth(self.same_times(s[2], times, coalesced)))]
        stored = [("delete", alias, task.id)] if rec["next"] is None else [("update", alias, task, rec["next"])]
        return [sent, stored, [] if ends == "error" else [E.pred(event)], removed if rec["next"] is None else []]


def _round(E, aliases):
    tz = E.tz()
    now = E.dt("now", tz)
    env = Env(E, tz, now)
    E.set_now(now)
    stores, fes = {}, []
    for a in aliases:
        st, due = env.store(a)
        stores[a] = st
        memo = {}

        def each(i, x, a=a):
            return env.expect(a, x)

        fes.append(E.foreach(f"due tasks of {a}", due, logs=env.logs, lazy=[env.events, env.removed], each=each,
                             out=lambda i, x, a=a: env.expect(a, x)[2], havoc=lambda L: env.seen.clear()))
    E.foreach("passing events on", None, logs=[env.events], each=lambda i, ev: [[ev]], splice=True,
              item=lambda: E.obj(TaskSubmissionEvent, code=TASK_SUBMITTED))
    sch = scheduler(E, state=SchedulerState.STATE_RUNNING, stores=stores, executors=env.executors, timezone=tz,
                    store_processing_lock=Lock(E, "processing"), store_retry_interval=10.0, lock_path=None)

    def dispatch(self, event):
        (env.events if isinstance(event, TaskSubmissionEvent) else env.removed).add(event)

    E.contract(BaseScheduler.dispatch_event, dispatch)
    r = E.run_call(sch.process_tasks)
    E.prove("the round ends normally", r.ok)
    E.prove_entries("each due task is submitted once, with its due run times", env.sent, fes)
    E.prove_entries("each due task is advanced to its next fire time or removed", env.stored, fes)
    E.prove_entries("one event per submission and limit hit", env.events, fes)
    E.prove_entries("one event per removal", env.removed, fes)
    for a in aliases:
        E.prove("the store's lock is released", stores[a].lock.held == 0)
    E.reached("ended")


def one_store(E):
    _round(E, ["default"])


def two_stores(E):
    """each store's tasks are handled in their own store"""
    _round(E, ["default", "second"])


UNITS = [one_store, two_stores]
