"""What decides each property."""
from families import *

NET = "the network is an in-memory connection scripted by the driver unless said otherwise"
BOUND = "within the bounds of the configurations of Endpoint.tla in bin/families.py"
SCHED = "concurrent steps are repeated under randomised schedule perturbation, not enumerated exhaustively in the real code"


def endpoint(names, mc, live=(), pertsecs=18, note=()):
    def f(chk):
        run_ep(chk, names, mc, live, pertsecs)
        return [NET, BOUND, SCHED] + list(note)
    return f




def c04(chk):
    run_wq(chk)
    return [NET, SCHED, "frames that fail are only known to be partly sent if their header was"]


def srv(*focus):
    def f(chk):
        run_srv(chk, focus)
        return [NET, SCHED]
    return f


def c18(chk):
    run_throttle(chk)
    return [NET, SCHED]


def c05(chk):
    run_wire(chk, [("server", ""), ("client", "")])
    return [NET, "payloads are made of runs of up to 3000 equal bytes and random bytes; one test codec stands for all codecs"]


def c14(chk):
    run_reconnect(chk)
    return [NET, SCHED, "the pause between rounds of failing dials (two seconds) is waited for in few runs only"]


def c15(chk):
    run_limits(chk)
    if not chk.violations:
        run_wire(chk, [("server", "size")], 1200, mc=False)
    return [NET, SCHED, "frames are counted per second of the real clock: a run lasts about three seconds"]


def c16(chk):
    run_ep(chk, ["s_push", "c_push", "s_nosub"], ["s_push", "c_push"], (), 12)
    if not chk.violations:
        run_srv(chk, ["ids"])
    return [NET, BOUND, SCHED]


def c17(chk):
    run_mux(chk)
    return [NET, SCHED]


def c19(chk):
    run_api(chk)
    return [NET, SCHED]


def c20(chk):
    run_chan(chk)
    return [NET, SCHED]


CHECKS = {
    "C01": endpoint(["c_req", "s_own", "c_push"], ["c_req"]),
    "C02": endpoint(["c_close", "s_ownclose", "s_close", "c_reset"], ["s_close"], ["c_reset"]),
    "C03": endpoint(["s_block", "s_block2", "s_core"], ["s_block", "s_block2"]),
    "C04": c04,
    "C05": c05,
    "C06": endpoint(["s_stream", "c_hstream", "c_stream", "s_pushmix"], ["s_stream", "c_hstream"], ["s_stream"]),
    "C07": endpoint(["s_answer", "s_again", "c_reset", "c_stream"], ["s_answer", "s_again", "c_reset"]),
    "C08": endpoint(["s_core", "s_pushmix", "c_req", "c_hstream"], ["s_core", "s_pushmix"]),
    "C09": endpoint(["s_stream", "s_again", "c_reset", "c_stream", "s_pushmix"], ["s_again", "c_stream", "s_pushmix"]),
    "C10": endpoint(["s_fail", "s_stream", "s_gone", "s_nosub", "c_nosub", "c_handler"], ["s_fail", "s_gone", "c_nosub"]),
    "C11": srv("ids", "ids", "life"),
    "C12": srv("life", "ids", "life"),
    "C13": srv("shutdown", "shutdown", "life"),
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": c17,
    "C18": c18,
    "C19": c19,
    "C20": c20,
}

TRACES = "TLA+ specification checked with TLC; traces recorded from the real code under concurrent load, network faults and schedule perturbation checked with TLC to be behaviours of the specification"
TECHNIQUE = {
    "C04": TRACES, "C05": TRACES, "C11": TRACES, "C12": TRACES, "C13": TRACES, "C14": TRACES, "C15": TRACES, "C17": TRACES, "C18": TRACES, "C19": TRACES, "C20": TRACES,
    "": "TLA+ specification checked with TLC; every transition TLC generates replayed into the real code, the last steps concurrently with the set of outcomes the specification allows",
}
TNOTE = ("The specification is checked by TLC within the bounds of its configuration; every recorded trace of the real code was accepted by it. "
         "Schedules and faults are sampled (random, perturbed), not enumerated. Trusts TLC, the recorder's event order, the in-memory network.")
NOTE = {
    "C04": TNOTE, "C05": TNOTE, "C11": TNOTE, "C12": TNOTE, "C13": TNOTE, "C14": TNOTE, "C15": TNOTE, "C17": TNOTE, "C18": TNOTE, "C19": TNOTE, "C20": TNOTE,
    "": "The invariants hold of the specification in all its reachable states within the bounds. The real code showed, for every generated behaviour, exactly the observations the specification allows (plain and under schedule perturbation). Trusts: that the specification's environment covers what peers and handlers do, TLC, the driver's in-memory network.",
}
NA = {
    "C24": "the stub generator is a function from program text to program text: it has no state or transitions a specification of this family could add anything to; deciding it takes compiling generated programs",
}
