"""C05 a task's due run times are exactly the trigger chain up to now."""
import datetime as dt

from asyncz.tasks import Task

NOTE = ("Task.get_run_times is verified for every schedule (arbitrary, also random, answers), every next run time and "
        "current time, and any number of due times.")
ASSUMPTIONS = ["partial correctness: a schedule whose fire times never pass the current time need not terminate"]


def chain(E):
    tz = E.tz()
    start = E.opt("next_run_time", lambda: E.dt("next", tz))
    now = E.dt("now", tz)
    dense = None
    if E.conc and start is not None and E.choice("dense", True, False):
        # natively also long chains
        dense = dt.timedelta(seconds=E.int("step", 1, 600))
        now = start + dense * E.choice("due", 1, 2, 5, 7, 20, 70, 300, 1500)
    ghost = {"cur": start, "chain": [start]}
    mark = object()

    def answer(timezone, previous_time, now_):
        E.prove("the schedule is asked in the given zone and for the given time", timezone is tz and now_ is now)
        cur = ghost["cur"]
        E.prove("the schedule is asked for the successor of the last run time",
                cur is not None and previous_time is not None and E.truth(previous_time == cur))
        nxt = E.opt("fires", lambda: E.dt("answer", tz)) if dense is None else previous_time + dense
        if nxt is not None:
            E.assume(nxt > previous_time)
        ghost["cur"] = nxt
        ghost["chain"].append(nxt)
        if E.conc and len(ghost["chain"]) > (30 if dense is None else 3000):
            ghost["cur"] = None
            return None
        return nxt

    def get_next_trigger_time(timezone, previous_time, now=None):
        return answer(timezone, previous_time, now)

    trigger = E.stub("trigger", None, get_next_trigger_time=get_next_trigger_time)
    attrs = dict(next_run_time=start, trigger=trigger, id="t1", name="n", args=(), kwargs={}, coalesce=False,
                 max_instances=1, mistrigger_grace_time=None, submitted=True, pending=False, executor="default",
                 store_alias="default", scheduler=None, fn=None, fn_reference=None)
    task = E.obj(Task, **attrs)

    def havoc(L):
        if ghost["cur"] is not None:
            ghost["cur"] = E.dt("reached", tz)

    def out(L):
        head = ghost["cur"]
        return lambda: [E.pred(lambda v: head is not None and E.truth(head <= now) and E.truth(v == head))]

    def none():
        ghost["cur"] = None

    def expand(sink):
        c = [t for t in ghost["chain"]]
        return [t for t in c if t is not None and E.truth(t <= now)]

    w = E.while_("due run times", lambda loop: loop.outer is None,
                 lambda L, v: ghost["cur"] is not None and E.eqv(v, ghost["cur"]),
                 none=none, none_ok=lambda: ghost["cur"] is None, havoc=havoc, out=out, expand=expand)
    r = E.run_call(task.get_run_times, tz, now)
    E.prove("returns normally", r.ok)
    E.prove_entries("the due run times are the chain up to now, in order", r.value, [w])
    cur = ghost["cur"]
    E.prove("no due run time is left out", cur is None or E.truth(cur > now))
    E.prove("the stored next run time is unchanged",
            task.next_run_time is None if start is None else E.truth(task.next_run_time == start))
    for k, v in attrs.items():
        if k != "next_run_time":
            E.prove("the task is unchanged", getattr(task, k) is v or getattr(task, k) == v)
    E.reached("returned")


UNITS = [chain]
