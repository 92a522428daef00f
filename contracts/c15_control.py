"""C15 pause, resume, reschedule and run-now keep the schedule right."""
import datetime as dt

from asyncz.enums import SchedulerState
from asyncz.events import TaskSubmissionEvent
from asyncz.events.constants import ALL_EVENTS, TASK_MAX_INSTANCES, TASK_MODIFIED, TASK_REMOVED, TASK_SUBMITTED
from asyncz.exceptions import MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
from asyncz.tasks import Task
from asyncz.triggers.types import TriggerType

from .c14_tasks import Pending, _first, _same
from .util import scheduler, watch

NOTE = ("Pause, resume, reschedule and run-now are verified for every state of the scheduler, every store the task may be kept "
        "in or asked from, any pending list, any schedule and any number of due run times.")
ASSUMPTIONS = ["stores, executors, schedules and the task's own update meet their contracts (C05, C06, C08, C09, C18)",
               "at most one kept task has the requested id"]

RUNNING, PAUSED, STOPPED = SchedulerState.STATE_RUNNING, SchedulerState.STATE_PAUSED, SchedulerState.STATE_STOPPED


def _fn():
    pass


class World:
    """a scheduler with two stores and at most one task called 'a': pending, in a store, or nowhere"""

    def __init__(self, E, trigger, *, only=None, **attrs):
        self.E = E
        self.tz = attrs.pop("tz")
        self.state = E.choice("state", *(only or (RUNNING, PAUSED, STOPPED)))
        stopped = self.state is STOPPED
        self.home, self.asked, self.known = ("other", None, True) if only else E.choice(
            "kept in, asked for", ("default", None, True), ("other", None, True), ("other", "other", True),
            ("other", "default", True), ("other", None, False), ("other", "other", "twin"))
        self.found = bool(self.known) and self.asked in (None, self.home)
        self.log, self.events, self.woken = E.log("stores"), E.log("events"), E.log("wakeups")
        self.attrs = dict(id="a", store_alias=self.home, trigger=trigger, fn=_fn, fn_reference=f"{__name__}:_fn", args=(), kwargs={},
                          name="n", executor="exe", pending=stopped, submitted=True, coalesce=False,
                          max_instances=1, mistrigger_grace_time=None, next_run_time=None)
        self.attrs.update(attrs)
        self.flag = E.choice("to be started", True, False) if stopped else True
        self.sch = scheduler(E, state=self.state, timezone=self.tz, listeners=watch(E, self.events),
                             stores={a: self.store(a) for a in ("default", "other")})
        self.attrs["scheduler"] = self.sch
        self.task = E.obj(Task, **self.attrs)
        # another task, perhaps with the same id in the other store
        self.aside = {"id": "a", "store_alias": "default"} if self.known == "twin" else {"id": "b"}
        self.bystander = E.obj(Task, **{**self.attrs, **self.aside})
        self.sch.pending_tasks = [(self.bystander, True, True)] + ([(self.task, False, self.flag)] if self.known else []) \
            if stopped else []
        self.sch.__dict__["wakeup"] = lambda: self.woken.add("wakeup")
        self.how = "id" if only else E.choice("given as", "id", "task")
        self.given = "a" if self.how == "id" else self.task

    def store(self, alias):
        w = self

        class Store:
            def lookup_task(self, task_id):
                if w.known == "twin" and alias == "default" and task_id == "a":
                    return w.bystander
                return w.task if w.known and alias == w.home and task_id == "a" else None

            def update_task(self, task):
                w.log.add("update", alias, task, task.next_run_time)

            def delete_task(self, task_id):
                if self.lookup_task(task_id) is None:
                    raise TaskLookupError(task_id)
                w.log.add("delete", alias, task_id)

        return Store()

    def unchanged(self, label, *but):
        E = self.E
        for t, i in ((self.task, {}), (self.bystander, self.aside)):
            for k, v in {**self.attrs, **i}.items():
                if t is self.task and k in but:
                    continue
                got = getattr(t, k)
                E.prove(label, got is v or E.truth(E.eqv(got, v)))

    def nothing(self, r, exc):
        E = self.E
        E.prove("an unknown task raises", r.raised(exc))
        self.unchanged("no task changes")
        E.prove_entries("no store changes", self.log, [])
        E.prove_entries("nothing is reported", self.events, [])

    def saved(self, when):
        """the task, with its new next run time, is kept where it was"""
        E = self.E
        if self.state is STOPPED:
            E.prove_entries("no store is touched for a pending task", self.log, [])
            p = self.sch.pending_tasks
            E.prove("the pending tasks stay", len(p) == 2 and p[0][0] is self.bystander and p[1][0] is self.task)
            E.prove("the others keep their options", tuple(p[0][1:]) == (True, True) and p[1][1] is False)
            E.prove("a task that is not paused is started with the scheduler", p[1][2] is (when is not None))
        else:
            E.prove_entries("saved once, in its store", self.log, [("update", self.home, self.task, when)])
        E.prove_entries("reported once", self.events,
                        [(TASK_MODIFIED, "a", None if self.state is STOPPED else self.home, None)])
        if self.state is RUNNING:
            E.prove("the scheduler is woken", len(self.woken.entries) >= 1)

    def gone(self):
        E = self.E
        if self.state is STOPPED:
            E.prove_entries("no store is touched for a pending task", self.log, [])
            p = self.sch.pending_tasks
            E.prove("no longer pending", len(p) == 1 and p[0][0] is self.bystander and tuple(p[0][1:]) == (True, True))
        else:
            E.prove_entries("removed once, from its store", self.log, [("delete", self.home, "a")])
        E.prove_entries("the removal is reported once", self.events, [(TASK_REMOVED, "a", self.home, None)])


def _at(E, tz, name):
    return E.opt(name, lambda: E.dt(name, tz))


def pause(E):
    """pausing clears the next run time and nothing else"""
    tz = E.tz()
    w = World(E, E.stub("trigger", TriggerType), tz=tz, next_run_time=_at(E, tz, "before"))
    r = E.run_call(w.sch.pause_task, w.given, w.asked)
    if not w.found:
        w.nothing(r, TaskLookupError)
        return
    E.prove("returns the task", r.ok and r.value is w.task)
    E.prove("the next run time is cleared", w.task.next_run_time is None)
    w.unchanged("nothing else changes", "next_run_time")
    w.saved(None)
    E.reached("paused")


def resume(E):
    """resuming sets the first fire time from now, or removes the task when its schedule has ended"""
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    first = _at(E, tz, "first")
    trigger = E.stub("trigger", TriggerType, get_next_trigger_time=_first(E, tz, now, lambda: first))
    w = World(E, trigger, tz=tz, next_run_time=_at(E, tz, "before"))
    r = E.run_call(w.sch.resume_task, w.given, w.asked)
    if not w.found:
        w.nothing(r, TaskLookupError)
        return
    if first is None:
        E.prove("returns no task", r.ok and r.value is None)
        w.gone()
        E.reached("removed")
        return
    E.prove("returns the task", r.ok and r.value is w.task)
    E.prove("the next run time is the first fire time", w.task.next_run_time is not None
            and E.truth(E.eqv(w.task.next_run_time, first)))
    w.unchanged("nothing else changes", "next_run_time")
    w.saved(first)
    E.reached("resumed")


def reschedule(E):
    """rescheduling replaces the schedule and sets its first fire time from now"""
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    first = _at(E, tz, "first")
    new = E.stub("new trigger", TriggerType, get_next_trigger_time=_first(E, tz, now, lambda: first))
    w = World(E, E.stub("trigger", TriggerType), tz=tz, next_run_time=_at(E, tz, "before"))
    form = E.choice("schedule", "instance", "name", "no name", "unknown", "number")
    made = E.log("made")

    def make(**kw):
        made.add(tuple(sorted(kw.items(), key=lambda x: x[0])))
        return new

    w.sch.trigger_classes = {"probe": make, "date": make}
    for n in ("trigger_plugins", "store_plugins", "store_classes", "executor_plugins", "executor_classes"):
        setattr(w.sch, n, {})
    args = {} if form == "instance" else {"x": 5}
    t = {"instance": new, "name": "probe", "no name": None, "unknown": "nosuch", "number": 7}[form]
    r = E.run_call(w.sch.reschedule_task, w.given, w.asked, t, **args)
    if form == "unknown" or form == "number":
        w.nothing(r, LookupError if form == "unknown" else TypeError)
        return
    if not w.found:
        w.nothing(r, TaskLookupError)
        return
    if form != "instance":
        E.prove_entries("the named schedule is made from the arguments, in the scheduler's zone", made,
                        [E.pred(lambda v: dict(v).keys() == {"x", "timezone"} and dict(v)["x"] == 5 and dict(v)["timezone"] is tz)])
    E.prove("returns the task", r.ok and r.value is w.task)
    E.prove("the schedule is the new one", w.task.trigger is new)
    got = w.task.next_run_time
    E.prove("the next run time is the new schedule's first fire time",
            got is None if first is None else got is not None and E.truth(E.eqv(got, first)))
    w.unchanged("nothing else changes", "next_run_time", "trigger")
    w.saved(first)
    E.reached("rescheduled")


def run_now(E):
    """running now submits once with the due run times, and moves the schedule strictly past now"""
    _run(E, dict(only=(RUNNING, PAUSED), coalesce=E.choice("coalesce", True, False)), E.choice("force", True, False),
         E.choice("remove_finished", True, False), E.choice("submission", "accepted", "limit", "error"))


def run_where(E):
    """the task is found wherever it is kept, however it is given, and only by a started scheduler"""
    _run(E, dict(executor=E.choice("executor", "exe", "none")), True, True, E.choice("submission", "accepted", "error"))


def _run(E, options, force, remove, ends):
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    sent, submitted = E.log("sent"), E.log("submission events")
    ghost = {}

    def next_fire(timezone, previous_time, at=None):
        E.prove("the schedule is asked in the scheduler's zone, for now", timezone is tz and at is not None
                and E.truth(at == now))
        last = ghost.get("last")
        E.prove("the schedule continues after the last submitted run time",
                last is not None and previous_time is not None and E.truth(previous_time == last))
        E.prove("the schedule is asked after submitting", len(sent.entries) == 1)
        if "next" not in ghost:
            ghost["next"] = _at(E, tz, "next")
        return ghost["next"]

    w = World(E, E.stub("trigger", TriggerType, get_next_trigger_time=next_fire), tz=tz,
              next_run_time=_at(E, tz, "before"), **options)
    if E.sym:
        from pyvc.values import DtC
        due = E.seq("due", DtC(tz))
    else:
        due = [E.dt("due", tz) for _ in range(E.choice("n", 0, 1, 2, 3, 40))]

    def get_run_times(self, timezone, at):
        E.prove("the run times due now are asked for", timezone is tz and E.truth(at == now))
        return due.copy() if E.sym else list(due)

    E.contract(Task.get_run_times, get_run_times)

    def send_task(task, run_times):
        E.prove("nothing is saved before it is submitted", len(w.log.entries) == 0)
        sent.add(task, run_times)
        ghost["last"] = run_times[-1]
        if ends == "limit":
            raise MaximumInstancesError("a", 1)
        if ends == "error":
            raise ValueError("executor")

    w.sch.executors = {"exe": E.stub("executor", None, send_task=send_task)}

    def seen(ev):
        if isinstance(ev, TaskSubmissionEvent):
            submitted.add(ev)
        else:
            w.events.add(ev.code, ev.task_id, ev.store, ev.alias)

    w.sch.listeners = [(seen, ALL_EVENTS)]
    r = E.run_call(w.sch.run_task, w.given, w.asked, force=force, remove_finished=remove)
    if w.state is STOPPED or not w.found:
        w.nothing(r, SchedulerNotRunningError if w.state is STOPPED else TaskLookupError)
        E.prove_entries("nothing is submitted", sent, [])
        return
    some = E.truth(E.call(len, due) >= 1)
    if not some and not force:
        E.prove("without a due run time it only runs when forced", r.ok and r.value is w.task)
        w.unchanged("the task stays as it was")
        for x in (sent, submitted, w.log, w.events):
            E.prove_entries("nothing happens", x, [])
        return
    if w.task.executor == "none":
        w.nothing(r, KeyError)
        E.prove_entries("nothing is submitted", sent, [])
        return

    def times(got):
        if not some:
            return E.call(len, got) == 1 and E.truth(got[0] == now)
        if w.task.coalesce:
            return E.truth(E.call(len, got) == 1) and E.truth(got[0] == due[-1])
        if E.conc:
            return list(got) == due
        return type(got) is type(due) and E.truth(E.and_(got._vc_len() == due._vc_len(), E.forall(
            0, due._vc_len(), lambda j: E.eqv(got.at(j.t), due.at(j.t)))))

    E.prove_entries("submitted exactly once, with its due run times (now when none is due)", sent,
                    [E.pred(lambda s: s[0] is w.task and times(s[1]))])
    skipped = (E.call(len, due) - 1) if some and w.task.coalesce else 0
    code = {"accepted": TASK_SUBMITTED, "limit": TASK_MAX_INSTANCES}.get(ends)
    E.prove_entries("the submission is reported once", submitted, [] if ends == "error" else [E.pred(
        lambda ev: ev.code == code and ev.task_id == "a" and ev.store == w.home and ev.source == "manual"
        and E.truth(E.eqv(ev.coalesced_run_count, skipped)) and times(ev.scheduled_run_times))])
    if ends != "accepted":
        E.prove("a refused or failed submission raises", r.raised(MaximumInstancesError if ends == "limit" else ValueError))
        w.unchanged("a refused or failed submission leaves the task as it was")
        E.prove_entries("and its store", w.log, [])
        E.prove_entries("and is no change", w.events, [])
        return
    E.prove("the schedule was asked", "next" in ghost)
    nxt = ghost.get("next")
    if nxt is None and remove:
        E.prove("a finished task is removed", r.ok and r.value is None)
        w.gone()
        E.reached("removed")
        return
    E.prove("returns the task", r.ok and r.value is w.task)
    got = w.task.next_run_time
    if nxt is None:
        E.prove("a finished task that is kept is paused", got is None)
    else:
        E.prove("the next run time is strictly after now", got is not None and E.truth(got > now))
        E.prove("a next fire time after now is the next run time",
                E.implies(nxt > now, got is not None and E.eqv(got, nxt)))
    w.unchanged("nothing else changes", "next_run_time")
    E.prove_entries("saved once, in its store", w.log, [("update", w.home, w.task, got)])
    if w.state is RUNNING:
        E.prove("the scheduler is woken", len(w.woken.entries) >= 1)
    E.reached("ran")


def pending(E):
    """pausing or resuming one of any number of pending tasks touches that one only"""
    tz = E.tz()
    now = E.dt("now", tz)
    E.set_now(now)
    what = E.choice("what", "pause", "resume")
    events, changes = E.log("events"), E.log("changes")
    first = E.dt("first", tz)
    trigger = E.stub("trigger", TriggerType, get_next_trigger_time=_first(E, tz, now, lambda: first))
    p = Pending(E)
    tid = "a" if E.conc else E.key("id")
    if E.sym:
        E.assume(tid != "")
    p.unique(tid)

    def attr(task, n):
        if n == "trigger":
            return trigger
        if n == "update_task":
            return lambda scheduler=None, **kw: changes.add(task, tuple(kw), kw.get("next_run_time"))
        return {"name": "n"}.get(n, NotImplemented)

    if E.sym:
        p.pop._other = attr
    else:
        for x in p.old:
            x[0].__dict__["trigger"] = trigger
            object.__setattr__(x[0], "update_task", attr(x[0], "update_task"))
    fe = E.search("pending", p.seq.copy() if E.sym else list(p.seq), lambda i, x: E.eqv(x[0].id, tid))
    sch = scheduler(E, state=STOPPED, timezone=tz, pending_tasks=E.view(p.seq), listeners=watch(E, events))
    r = E.run_call(sch.pause_task if what == "pause" else sch.resume_task, tid)
    hit = fe.found()
    if hit is None:
        E.prove("an unknown task raises", r.raised(TaskLookupError))
        E.prove_entries("no task changes", changes, [])
        E.prove_entries("nothing is reported", events, [])
        return
    task = hit[1][0]
    E.prove("returns the task", r.ok and _same(E, r.value, task))
    E.prove_entries("only its next run time is set", changes, [E.pred(
        lambda c: _same(E, c[0], task) and c[1] == ("next_run_time",)
        and (c[2] is None if what == "pause" else c[2] is not None and E.truth(c[2] == first)))])
    E.pipeline_prove("the pending list", sch.pending_tasks, p.old, lambda i, x: True, lambda i, x, v: E.and_(
        _same(E, v[0], x[0]), E.iff(v[1], x[1]),
        E.iff(v[2], E.ite(_is(E, x[0], task), what == "resume", x[2]))))
    E.prove_entries("reported once", events, [(TASK_MODIFIED, tid, None, None)])
    E.reached("set")


def update(E):
    """updating through the scheduler changes exactly what is asked (given a task: to what that task says) and saves it"""
    tz = E.tz()
    w = World(E, E.stub("trigger", TriggerType), tz=tz, next_run_time=_at(E, tz, "before"))
    change = E.choice("change", {"max_instances": 4}, {"coalesce": True, "name": "new"}, {"next_run_time": None}, {},
                      {"mistrigger_grace_time": 9, "kwargs": {}})
    given, want = "a", dict(change)
    if w.how == "task":
        other = dict(name="other", max_instances=7, coalesce=True, mistrigger_grace_time=None, executor="exe2",
                     next_run_time=_at(E, tz, "its next run time"))
        given = E.obj(Task, **{**w.attrs, **other})
        want = {**other, **change}
    r = E.run_call(w.sch.update_task, given, w.asked, **change)
    if not w.found:
        w.nothing(r, TaskLookupError)
        return
    E.prove("returns the task", r.ok and r.value is w.task)
    for k, v in want.items():
        got = getattr(w.task, k)
        E.prove("what was asked is changed", got is v or got is not None and v is not None and E.truth(E.eqv(got, v)))
    w.unchanged("nothing else changes", *want)
    if w.state is not STOPPED:
        E.prove_entries("saved once, in its store", w.log, [("update", w.home, w.task, w.task.next_run_time)])
        if w.state is RUNNING:
            E.prove("the scheduler is woken", len(w.woken.entries) >= 1)
    else:
        p = w.sch.pending_tasks
        E.prove("a pending task is started with the scheduler unless it was paused",
                len(p) == 2 and p[1][2] is (False if "next_run_time" in change else w.flag))
    E.prove_entries("reported once", w.events, [(TASK_MODIFIED, "a", None if w.state is STOPPED else w.home, None)])
    E.reached("updated")


def _is(E, a, b):
    return a.t == b.t if E.sym else a is b


UNITS = [pause, resume, reschedule, run_now, run_where, pending, update]
