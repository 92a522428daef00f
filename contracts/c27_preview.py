"""C27 a run preview is bounded, consistent with the schedule and changes nothing."""
from asyncz.schedulers.base import BaseScheduler
from asyncz.tasks import Task
from asyncz.tasks.inspection import TaskInfo, TaskRunPreview

from .util import scheduler

NOTE = ("preview_task_runs is verified for every requested number, every task (paused or not, with or without a schedule), "
        "every current time and arbitrary answers of the schedule, including its end after any number of runs.")
ASSUMPTIONS = ["get_task finds the task (C14)", "the schedule answers without changing the task",
               "the preview reads the task once; a task is not changed by somebody else meanwhile"]


class _Stop(Exception):
    pass


def preview(E):
    tz = E.tz()
    count = E.int("count", -3, 60)
    known = E.choice("known", True, False)
    store = E.choice("store", None, "default")
    stored = E.opt("next_run_time", lambda: E.dt("next", tz)) if known else None
    clock = E.dt("clock", tz)
    E.set_now(clock)
    given = E.choice("now given", True, False)
    now = E.dt("now", tz) if given else None
    at = now if given else clock
    ghost = {"chain": [stored] if stored is not None else [], "asked": 0, "ended": False}

    def get_next_trigger_time(timezone, previous_time, now=None):
        chain = ghost["chain"]
        E.prove("the schedule is asked in the scheduler's zone", timezone is tz)
        E.prove("an ended schedule is not asked again", not ghost["ended"])
        if chain:
            E.prove("the schedule is asked for the successor of the last listed run",
                    previous_time is not None and E.truth(previous_time == chain[-1]))
            E.prove("the schedule is asked from the last listed run", now is not None and E.truth(now == chain[-1]))
        else:
            E.prove("the first fire time is asked from now", previous_time is None and now is not None and E.truth(now == at))
        E.assume(len(chain) <= count + 1)
        nxt = E.opt("fires", lambda: E.dt("answer", tz))
        if nxt is None:
            ghost["ended"] = True
        else:
            chain.append(nxt)
        return nxt

    trigger = E.stub("trigger", None, get_next_trigger_time=get_next_trigger_time, alias="trigger") \
        if E.choice("has a schedule", True, False) else None
    attrs = dict(next_run_time=stored, trigger=trigger, id="t1", name="n", args=(), kwargs={}, coalesce=False,
                 max_instances=1, mistrigger_grace_time=None, submitted=True, pending=False, executor="default",
                 store_alias="default", scheduler=None, fn=None, fn_reference=None)
    task = E.obj(Task, **attrs)

    def get_task(self, task_id, store_=None):
        E.prove("the requested task is looked up in the requested store", task_id == "t1" and store_ == store)
        return task if known else None

    shot = E.obj(TaskInfo, id="t1")
    E.contract(BaseScheduler.get_task, get_task)
    E.contract(Task.snapshot, lambda self: shot)
    sch = scheduler(E, timezone=tz)
    kw = {"now": now} if given else {}
    r = E.run_call(sch.preview_task_runs, "t1", store, count=count, **kw)
    if E.truth(E.or_(count < 1, count > 50)):
        E.prove("a number out of range is refused", r.raised(ValueError))
        E.prove("the schedule is not asked", not ghost["asked"])
        return
    E.prove("returns normally", r.ok)
    if not known:
        E.prove("an unknown task has no preview", r.value is None)
        return
    p = r.value
    E.prove("a preview", isinstance(p, TaskRunPreview))
    if trigger is None:
        E.prove("no schedule: nothing upcoming", E.and_(len(p.run_times) == 0, p.exhausted))
    else:
        chain = ghost["chain"]
        n = len(p.run_times)
        E.prove("at most the requested number", n <= count)
        E.prove("as many as there are", n == len(chain) if ghost["ended"] else E.and_(n == count, n < len(chain)))
        for a, b in zip(p.run_times, chain):
            E.prove("the runs are the schedule's chain", E.eqv(a, b))
        E.prove("exhausted exactly when the schedule has ended", E.iff(p.exhausted, ghost["ended"]))
    E.prove("the preview tells when and for what it was made",
            E.and_(E.eqv(p.generated_at, at), E.eqv(p.requested_count, count), p.task is shot, E.sym or p.timezone == str(tz)))
    for k, v in attrs.items():
        got = getattr(task, k)
        E.prove("the task is unchanged", got is v or E.truth(E.eqv(got, v)))
    E.reached("listed")


preview.unroll = 60


UNITS = [preview]
