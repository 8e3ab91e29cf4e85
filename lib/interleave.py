"""Threads that are switched at generated points of the library, so that a schedule can be repeated"""
import os
import random
import sys
import threading

PART = os.sep + "autosar" + os.sep


def run(jobs, seed, rate):
    """
    Runs the functions in threads of which only one goes on at a time. At each line of the library another thread goes on
    with the probability rate. Returns the results or exceptions as (result, exception)
    """
    rng = random.Random(seed)
    cond = threading.Condition()
    state = {"turn": 0, "free": False, "steps": 0}
    alive = set(range(len(jobs)))
    out = [(None, None)] * len(jobs)

    def wait(k):
        seen = -1
        while state["turn"] != k and not state["free"]:
            if not cond.wait(5) and state["turn"] != k:
                if state["steps"] == seen:  # waits for a thread that can't go on, for example because of a lock
                    state["free"] = True
                    cond.notify_all()
                seen = state["steps"]

    def local(k):
        def trace(_frame, event, _arg):
            if event == "line" and not state["free"]:
                state["steps"] += 1
                if rng.random() < rate:
                    with cond:
                        state["turn"] = rng.choice(sorted(alive))
                        cond.notify_all()
                        wait(k)
            return trace
        return trace

    def worker(k):
        with cond:
            wait(k)
        trace = local(k)
        sys.settrace(lambda frame, event, arg: trace if PART in frame.f_code.co_filename else None)
        try:
            out[k] = jobs[k](), None
        except Exception as exc:  # pylint: disable=broad-except
            out[k] = None, exc
        finally:
            sys.settrace(None)
            with cond:
                alive.discard(k)
                if alive:
                    state["turn"] = rng.choice(sorted(alive))
                cond.notify_all()

    threads = [threading.Thread(target=worker, args=(k,), daemon=True) for k in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out
