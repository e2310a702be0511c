"""Configurations of the specification modules, per property, and how they are run."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *

# --------------------------------------------------------------------------
# Endpoint.tla
EP_INV = ("OneBlocking StartOrder AnswerMatch AnswerOnce InOrder NothingAfterEnd Released FullMeansCancelled "
          "OneLivePerKey HeldUp NoWaitWhenClosed WaitRegistered InflightOK").split()
EP_LIVE = ["TornDown", "WriteReturns", "Woken"]

EP0 = dict(Role="server", PeerIds={1}, PeerKinds={"N"}, RespKinds=set(), OwnKinds=set(), HOps=set(), COps=set(),
           SOps=set(), Misc={"eof"}, HasHandler=True, HasSub=True, MaxInflight=0, MaxPeer=2, MaxOwn=0, MaxOps=2)


def ep(**kw):
    return dict(EP0, **kw)


EP = {
    # requests of a server's peers and their streams
    "s_core": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "S", "E", "R"}, HOps={"S", "E", "R", "ret", "recv"}, MaxOps=2),
    "s_stream": ep(PeerIds={1}, PeerKinds={"S", "E", "R", "N"}, HOps={"S", "E", "R", "ret", "recv"}, MaxPeer=3, MaxOps=2, Misc=set()),
    "s_answer": ep(PeerIds={1, 3}, PeerKinds={"N", "S", "E"}, HOps={"S", "E", "B", "R", "P", "ab", "ret"}, MaxPeer=2, MaxOps=2, Misc=set()),
    "s_again": ep(PeerIds={1}, PeerKinds={"N", "S", "R"}, HOps={"S", "E", "B", "R", "ret"}, MaxPeer=2, MaxOps=3, Misc=set()),
    "s_block": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "S"}, HOps={"B", "ret", "panic"}, MaxPeer=3, MaxOps=2, Misc=set()),
    "s_block2": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "E"}, HOps={"ret", "panic", "close"}, MaxPeer=3, MaxOps=2, Misc={"eof", "cclose"}),
    "s_fail": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "S", "E"}, HOps={"S", "E", "ret", "panic"}, MaxPeer=2, MaxOps=2),
    "s_gone": ep(PeerIds={1}, PeerKinds={"S", "E", "N", "B"}, HOps={"ret", "panic", "recv", "E"}, MaxPeer=3, MaxOps=2, Misc=set()),
    "s_close": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "S"}, HOps={"S", "E", "close", "recv", "ret"}, Misc={"eof", "cclose"}),
    "s_push": ep(PeerIds={1, 3}, PeerKinds={"P", "PS", "PE", "PR", "N", "S"}, HOps={"ret"}, SOps={"recv"}, MaxPeer=3, MaxOps=1, Misc=set()),
    "s_pushmix": ep(PeerIds={1}, PeerKinds={"PS", "PE", "PR", "S", "E", "R"}, HOps={"E", "ret", "recv"}, SOps={"recv"}, MaxPeer=3, MaxOps=2, Misc=set()),
    "s_nosub": ep(PeerIds={1}, PeerKinds={"P", "PS", "PE", "PR", "N"}, HOps={"E", "ret"}, HasSub=False, MaxPeer=3, MaxOps=1),
    "s_own": ep(PeerIds={1}, PeerKinds={"N"}, RespKinds={"B", "S", "E", "R"}, OwnKinds={"N", "S", "P"}, HOps={"E"},
                COps={"S", "E", "R", "giveup", "recv"}, MaxPeer=2, MaxOwn=2, MaxOps=1),
    "s_ownclose": ep(PeerIds={1}, PeerKinds={"N"}, RespKinds={"B", "R"}, OwnKinds={"N", "E"}, HOps={"close"},
                     COps={"S", "giveup"}, MaxPeer=1, MaxOwn=2, MaxOps=2, Misc={"eof", "cclose"}),
    "s_inflight": ep(PeerIds={1, 3}, PeerKinds={"B", "N", "S", "E"}, HOps={"E", "ret", "panic"}, MaxInflight=1, MaxPeer=3, MaxOps=2, Misc=set()),
    "s_inflight2": ep(PeerIds={1, 3, 5}, PeerKinds={"N"}, HOps={"ret", "panic"}, MaxInflight=2, MaxPeer=4, MaxOps=2, Misc=set()),
    # a client's own requests
    "c_req": ep(Role="client", PeerIds={2}, PeerKinds={"N"}, RespKinds={"B", "S", "E", "R"}, OwnKinds={"B", "S"}, HOps={"E"},
                COps={"E", "giveup", "recv"}, MaxPeer=2, MaxOwn=2, MaxOps=1),
    "c_stream": ep(Role="client", PeerIds={2}, PeerKinds=set(), RespKinds={"S", "E", "R"}, OwnKinds={"S"},
                   COps={"S", "E", "R", "creset", "recv"}, MaxPeer=3, MaxOwn=1, MaxOps=2, Misc=set()),
    "c_reset": ep(Role="client", PeerIds={2}, PeerKinds=set(), RespKinds={"S", "E", "R", "B"}, OwnKinds={"N", "S", "E"},
                  COps={"E", "R", "creset", "giveup"}, MaxPeer=2, MaxOwn=1, MaxOps=3),
    "c_close": ep(Role="client", PeerIds={2}, PeerKinds={"N"}, RespKinds={"B", "S", "R"}, OwnKinds={"B", "S", "P"}, HOps={"close", "E"},
                  COps={"E", "creset", "giveup", "recv"}, MaxPeer=2, MaxOwn=2, MaxOps=1, Misc={"eof", "cclose"}),
    "c_handler": ep(Role="client", PeerIds={2}, PeerKinds={"N", "S", "E", "R"}, HOps={"S", "E", "R", "ret", "recv", "panic"}, MaxPeer=2, MaxOps=2),
    "c_hstream": ep(Role="client", PeerIds={2, 4}, PeerKinds={"S", "E", "R"}, HOps={"E", "ret", "recv"}, MaxPeer=3, MaxOps=2, Misc=set()),
    "c_push": ep(Role="client", PeerIds={2, 3}, PeerKinds={"P", "PS", "PE", "PR"}, RespKinds={"B", "S", "R"}, OwnKinds={"B"}, SOps={"recv"},
                 MaxPeer=3, MaxOwn=1, MaxOps=1, Misc=set()),
    "c_nosub": ep(Role="client", PeerIds={2}, PeerKinds={"P", "PS", "PR", "N", "S"}, RespKinds={"B"}, OwnKinds={"B"}, HasSub=False, HasHandler=False,
                  MaxPeer=3, MaxOwn=1, MaxOps=0, Misc=set()),
}


def bigger(c):
    """bounds of the thorough tier"""
    c = dict(c)
    if c["MaxPeer"] <= 3 and len(c["PeerKinds"]) + len(c["RespKinds"]) <= 4:
        c["MaxPeer"] += 1
    elif c["MaxOps"]:
        c["MaxOps"] += 1
    return c


def ep_gen(c, burst):
    return cfg_text(dict(c, Burst=burst), ["INIT Init", "NEXT Next"], view="GenView", extra=["ACTION_CONSTRAINT EmitC"])


def ep_mc(c, live=False):
    return cfg_text(dict(c, Burst=99), ["SPECIFICATION FairSpec" if live else "SPECIFICATION Spec"], EP_INV,
                    EP_LIVE if live else (), view="CoreView")


def ep_json(c):
    return json.dumps({"role": c["Role"], "has_handler": c["HasHandler"], "has_sub": c["HasSub"], "max_inflight": c["MaxInflight"]})


def count_behaviours(path):
    n = 0
    with open(path, "rb") as f:
        for l in f:
            if l.startswith(b'"@@'):
                n += 1
    return n


def run_gens(chk, gens, pertsecs, secs=120):
    """gens: (name, module, cfg text, driver command, driver cfg, perturb?); generation runs ahead of the replay"""
    timeout = 300 if chk.quick else 2400
    ex = ThreadPoolExecutor(max_workers=2 if chk.quick else 2)

    def gen(g):
        job = chk.tlc("gen-" + g[0], g[1], g[2], workers=4, heap="3g" if chk.quick else "6g", timeout=timeout)
        st, tail = job.wait()
        if not st["complete"]:
            raise Infra("generation %s failed (%s):\n%s" % (g[0], job.outp, tail[-3000:]))
        return job
    futs = [(g, ex.submit(gen, g)) for g in gens]
    npert = max(1, sum(1 for g in gens if g[5]))
    try:
        for g, fu in futs:
            job = fu.result()
            st = job.st
            a = [g[3], "-in", job.outp, "-cfg", g[4], "-secs", str(secs)]
            if g[5] and pertsecs:
                a += ["-pertsecs", str(max(2, pertsecs // npert))]
            r = chk.drive("replay-" + g[0], a, timeout=secs + pertsecs + 120)
            with chk.lock:
                chk.states += st.get("states", 0)
                chk.transitions += st.get("transitions", 0)
                chk.generated += r.get("behaviours", 0)
                chk.runs.append(dict(st, run="tlc gen-" + g[0]))
            try:
                os.remove(job.outp)
            except OSError:
                pass
            if chk.violations:
                break
    finally:
        ex.shutdown(wait=False, cancel_futures=True)


def run_ep(chk, names, mc=(), live=(), pertsecs=20):
    """the Endpoint family: model check, generate, replay"""
    confs = {n: (EP[n] if chk.quick else bigger(EP[n])) for n in set(names) | set(mc) | set(live)}
    jobs = []
    for n in mc:
        jobs.append(chk.tlc("mc-" + n, "Endpoint", ep_mc(EP[n] if chk.quick else confs[n]), workers=3,
                            heap="3g" if chk.quick else "8g", timeout=600 if chk.quick else 3000))
    for n in live:
        jobs.append(chk.tlc("live-" + n, "Endpoint", ep_mc(EP[n], True), workers=2,
                            heap="3g" if chk.quick else "8g", timeout=600 if chk.quick else 3000))
    gens = []
    for n in names:
        c = confs[n]
        gens.append((n + "-0", "EndpointGen", ep_gen(c, 0), "ep", ep_json(c), False))
        gens.append((n + "-2", "EndpointGen", ep_gen(c, 2), "ep", ep_json(c), True))
    run_gens(chk, gens, pertsecs if chk.quick else pertsecs * 15, secs=120 if chk.quick else 600)
    if not chk.violations:
        for j in jobs:
            j.must()


# --------------------------------------------------------------------------
# trace validation
def run_traces(chk, name, module, cfgtext, cmd, cfg, secs, maxn, par=16, extra_args=(), env=None):
    """records traces of the real code and checks that the specification allows them"""
    tr = os.path.join(chk.out, name + ".traces.json")
    r = chk.drive("record-" + name, [cmd, "-cfg", json.dumps(cfg), "-secs", str(secs), "-max", str(maxn), "-par", str(par),
                                     "-tr", tr] + list(extra_args), timeout=secs + 180, env=env)
    if not os.path.exists(tr):
        return
    n = r.get("done", 0)
    job = chk.tlc("trace-" + name, module, cfgtext, workers=4, heap="4g" if chk.quick else "8g",
                  timeout=600 if chk.quick else 3000, env=dict(TRACES=tr, **(env or {})))
    st, tail = job.wait()
    if st["complete"]:
        with chk.lock:
            chk.states += st.get("states", 0)
            chk.transitions += st.get("transitions", 0)
            chk.runs.append(dict(st, run="tlc trace-" + name, traces=n))
        return
    out = open(job.outp, errors="replace").read()
    if "Deadlock reached" in out or "is violated" in out:
        traces = json.load(open(tr))
        tid = int(re.findall(r"/\\ tid = (\d+)", out)[-1])
        i = int(re.findall(r"/\\ i = (\d+)", out)[-1])
        t = traces[tid - 1]
        bad = os.path.join(chk.out, name + ".bad.json")
        json.dump({"driver": cmd, "cfg": cfg, "specification": module, "rejected_event": t[i - 1] if i <= len(t) else None,
                   "position": i, "trace": t, "state_before": out[out.rfind("State "):][:4000]}, open(bad, "w"), indent=0)
        if os.path.exists(tr):
            os.remove(tr)
        chk.violation(bad, "%s: event %d %s is not allowed by %s" % (name, i, t[i - 1] if i <= len(t) else "", module))
        return
    raise Infra("trace check %s failed (%s):\n%s" % (name, job.outp, tail[-3000:]))


def htrace_cfg(invs, consts=None):
    return ("".join("CONSTANT %s = %s\n" % kv for kv in (consts or {}).items()) +
            "INIT TInit\nNEXT TNext\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANTS " + " ".join(invs) + "\n")


def run_htraces(chk, name, module, invs, cmd, cfg, secs, maxn, par=64, extra_args=(), env=None, consts=None):
    """the same for specifications with hidden actions: a trace is allowed iff TLC can consume it to its end"""
    tr = os.path.join(chk.out, name + ".traces.json")
    r = chk.drive("record-" + name, [cmd, "-cfg", json.dumps(cfg), "-secs", str(secs), "-max", str(maxn), "-par", str(par),
                                     "-tr", tr] + list(extra_args), timeout=secs + 180, env=env)
    if not os.path.exists(tr):
        return
    traces = json.load(open(tr))
    cap = 1000000
    if sum(map(len, traces)) > cap:
        # more events than TLC can hold: as many traces as fit
        n, kept = 0, []
        for x in traces:
            n += len(x)
            if n <= cap or not kept:
                kept.append(x)
        traces = kept
        json.dump(traces, open(tr, "w"))

    def check(label, path, pos, timeout):
        job = chk.tlc("trace-" + label, module, htrace_cfg(invs, consts), workers=4, heap="4g" if chk.quick else "8g",
                      timeout=timeout, env=dict(env or {}, TRACES=path, TRACEPOS=pos))
        try:
            st, tail = job.wait()
        except Infra:
            return None, ""
        out = open(job.outp, errors="replace").read()
        if not st["complete"]:
            # an event the specification has no meaning for: its trace is none of its behaviours
            k = re.findall(r"^/\\ tid = (\d+)", out, re.M)
            if k and "evaluating the nested" in out and "OutOfMemory" not in out:
                return dict(st, undefined=int(k[-1])), out
            if " is violated" not in out:
                raise Infra("trace check %s failed (%s):\n%s" % (label, job.outp, tail[-3000:]))
            raise Infra("the specification %s itself fails (%s):\n%s" % (module, job.outp, tail[-3000:]))
        return st, out
    st, out = check(name, tr, "0", 400 if chk.quick else 3000)
    if st is None:
        # too much to decide: the shortest traces alone
        traces = sorted(traces, key=len)[:max(50, len(traces) // 50)]
        json.dump(traces, open(tr, "w"))
        st, out = check(name + "-few", tr, "0", 200 if chk.quick else 1000)
        if st is None:
            raise Infra("trace check %s: no result" % name)
        chk.incomplete = "the trace check of %s ended with the shortest traces alone" % name
    if "undefined" in st:
        bad = [st["undefined"]]
    else:
        ok = set(int(x) for x in re.findall(r'<<"@@", (\d+)>>', out))
        bad = [k for k in range(1, len(traces) + 1) if k not in ok]
    with chk.lock:
        chk.states += st.get("states", 0)
        chk.transitions += st.get("transitions", 0)
        chk.runs.append(dict(st, run="tlc trace-" + name, traces=len(traces), rejected=len(bad)))
    os.remove(tr)
    if not bad:
        if getattr(chk, "incomplete", None):
            raise Infra(chk.incomplete)
        return
    t = min((traces[k - 1] for k in bad), key=len)
    one = os.path.join(chk.out, name + ".one.json")
    json.dump([t], open(one, "w"))
    st, out = check(name + "-stuck", one, "1", 200)
    i = max([int(x) for x in re.findall(r'<<"@#", \d+, (\d+)>>', out)] + [1])
    b = os.path.join(chk.out, name + ".bad.json")
    json.dump({"driver": cmd, "cfg": cfg, "specification": module, "rejected": len(bad), "of": len(traces),
               "position": i, "rejected_event": t[i - 1] if i <= len(t) else None, "trace": t}, open(b, "w"), indent=0)
    os.remove(one)
    chk.violation(b, "%s: %d of %d traces rejected; event %d %s is not allowed by %s" % (
        name, len(bad), len(traces), i, t[i - 1] if i <= len(t) else "", module))


TRACE_CFG = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"


def parallel(*fs):
    """runs functions concurrently, raises the first error"""
    with ThreadPoolExecutor(max_workers=len(fs)) as ex:
        for fu in [ex.submit(f) for f in fs]:
            fu.result()


# --------------------------------------------------------------------------
# WriteSpec.tla / WriteQueue.tla / WriteTrace.tla
WQ_INV = "OwnInBatch AtMostOnce OkMeansSent NotAfterPart".split()


def wq_mc(role, g, per, live=False):
    return cfg_text(dict(Role=role, G=set(range(1, g + 1)), PerWriter=per, Cap=2, MaxNets=2),
                    ["SPECIFICATION Spec"] if live else ["INIT Init", "NEXT Next"], WQ_INV, ["Returns"] if live else ())


def run_wq(chk, roles=("server", "client", "reconnect"), live=("server", "client", "reconnect"), traces=900):
    jobs = []
    for r in roles:
        jobs.append(chk.tlc("wq-" + r, "WriteQueue", wq_mc(r, 3, 1 if chk.quick else 2), workers=2, heap="2g" if chk.quick else "8g",
                            timeout=600 if chk.quick else 3000))
    for r in live:
        jobs.append(chk.tlc("wqlive-" + r, "WriteQueue", wq_mc(r, 2, 1 if chk.quick or r == "reconnect" else 2, True), workers=2,
                            heap="2g" if chk.quick else "8g", timeout=600 if chk.quick else 3000))
    rounds = 1 if chk.quick else 10
    for k in range(rounds):
        for r in roles:
            run_traces(chk, "wq-%s-%d" % (r, k), "WriteTrace", TRACE_CFG, "wq", {"role": r}, 12, traces, extra_args=["-seed2", str(k)])
            if chk.violations:
                return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# ServerSpec.tla / ServerTrace.tla
SRV_INV = "HolderOK OneIDOne AfterShutdown OverIsDead".split()


def run_srv(chk, focuses, traces=900):
    for k, focus in enumerate(list(focuses) * (1 if chk.quick else 10)):
        run_htraces(chk, "srv-%s-%d" % (focus, k), "ServerTrace", SRV_INV, "srv", {"focus": focus}, 10, traces, extra_args=["-seed2", str(k)])
        if chk.violations:
            return


# --------------------------------------------------------------------------
# ThrottleSpec.tla / ThrottleMC.tla / ThrottleTrace.tla
def th_mc(nops, nreq, small, live):
    return cfg_text(dict(NConn=1, NOps=nops, NReq=nreq, Small=small), ["SPECIFICATION MSpec"] if live else ["INIT MInit", "NEXT MNext"],
                    ["AtMostOneMore"], ["Continues", "OtherContinues", "ShutdownReturns"] if live else ())


def run_throttle(chk):
    q = chk.quick
    jobs = [chk.tlc("th-safe", "ThrottleMC", th_mc(2, 1, q, False), workers=2, timeout=600 if q else 3000),
            chk.tlc("th-live", "ThrottleMC", th_mc(2, 1 if q else 2, True, True), workers=2, timeout=600 if q else 3000)]
    for k in range(2 if q else 20):
        run_htraces(chk, "thr-%d" % k, "ThrottleTrace", ["AtMostOneMore"], "thr", {}, 8, 300, extra_args=["-seed2", str(k)])
        if chk.violations:
            return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# WireCodec.tla / WireMC.tla / WireSpec.tla / WireTrace.tla
def wire_mc(frames, maxlen, codec):
    return cfg_text(dict(NFrames=frames, MaxLen=maxlen, Codec=codec), ["INIT Init", "NEXT Next"], ["Same", "AllThere"])


def run_wire(chk, runs, traces=1500, mc=True):
    q = chk.quick
    jobs = []
    if mc:
        jobs = [chk.tlc("wire-codec", "WireMC", wire_mc(2, 1 if q else 2, True), workers=2, timeout=600 if q else 3000),
                chk.tlc("wire-plain", "WireMC", wire_mc(2, 2, False), workers=2, timeout=600 if q else 3000)]
    for k in range(1 if q else 12):
        for role, focus in runs:
            run_htraces(chk, "wire-%s%s-%d" % (role, focus, k), "WireTrace", [], "wire", {"role": role, "focus": focus}, 12, traces,
                        par=16, extra_args=["-seed2", str(k)])
            if chk.violations:
                return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# LimitSpec.tla / LimitMC.tla / LimitTrace.tla
def limit_mc(qps, inflight, n, kinds, maxt=1):
    return cfg_text(dict(QPS=qps, Inflight=inflight, NFrames=n, MaxTime=maxt, Kinds=kinds), ["SPECIFICATION Spec"],
                    ["RateOnly", "Within", "DeadMeansOver"], ["InflightOnly", "OverCloses", "AllHandled"])


def run_limits(chk):
    q = chk.quick
    jobs = [chk.tlc("limit-qps", "LimitMC", limit_mc(2, 0, 4 if q else 5, {"N", "B", "P", "C"}), workers=2, timeout=600 if q else 3000),
            chk.tlc("limit-inflight", "LimitMC", limit_mc(0, 2, 4, {"N", "B", "S"}, 0), workers=2, timeout=600 if q else 3000),
            chk.tlc("limit-both", "LimitMC", limit_mc(2, 1, 4 if q else 5, {"N", "B", "C"}), workers=2, timeout=600 if q else 3000)]
    for k in range(1 if q else 12):
        for focus, par, n in (("inflight", 64, 900), ("qps", 128, 500)):
            run_htraces(chk, "limit-%s-%d" % (focus, k), "LimitTrace", [], "lim", {"focus": focus}, 12, n, par=par, extra_args=["-seed2", str(k)])
            if chk.violations:
                return
    for j in jobs:
        j.must()


def reconnect_mc(naddr, again, maxnet, nops, maxfail, nreq, live, close=True):
    return cfg_text(dict(NAddr=naddr, Again=again, MaxNet=maxnet, NOps=nops, MaxFail=maxfail, NReq=nreq, MayClose=close),
                    ["SPECIFICATION MSpec" if live else "INIT MInit\nNEXT MNext"], ["Alternate", "OneOpen", "NoCross"],
                    ["NoDialOnceClosed", "InTurn"] + (["Returns", "Told", "Recovers", "ClosesItself", "CloseEnds"] if live else []))


def run_reconnect(chk):
    q = chk.quick
    jobs = [chk.tlc("rec-safety", "ReconnectMC", reconnect_mc(2, True, 2, 2, 1, 0 if q else 1, False), workers=3, timeout=600 if q else 3000),
            chk.tlc("rec-live", "ReconnectMC", reconnect_mc(2, True, 2, 1 if q else 2, 1, 1, True), workers=2, timeout=600 if q else 3000),
            chk.tlc("rec-once", "ReconnectMC", reconnect_mc(1, False, 1, 1 if q else 2, 0, 1, True), workers=2, timeout=600 if q else 3000)]
    for k in range(1 if q else 12):
        run_htraces(chk, "reconnect-%d" % k, "ReconnectTrace", [], "rec", {}, 25, 12000, extra_args=["-seed2", str(k)])
        if chk.violations:
            return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# MuxSpec.tla / MuxMC.tla / MuxTrace.tla
def mux_mc(nreg, nreq, conns, live):
    return cfg_text(dict(Base=2, NReg=nreg, NReq=nreq, Conns=conns), ["SPECIFICATION MSpec"], () if live else ["Right", "Unknown", "OneEach"],
                    ["AllServed"] if live else ())


def run_mux(chk):
    q = chk.quick
    jobs = [chk.tlc("mux-safe", "MuxMC", mux_mc(2, 2, {0}, False), workers=3, timeout=600 if q else 3000),
            chk.tlc("mux-live", "MuxMC", mux_mc(1, 2, {0}, True), workers=2, timeout=600 if q else 3000)]
    if not q:
        jobs.append(chk.tlc("mux-two", "MuxMC", mux_mc(2, 2, {0, 1}, False), workers=3, timeout=3000))
    for k in range(1 if q else 12):
        run_htraces(chk, "mux-%d" % k, "MuxTrace", [], "mux", {}, 15, 6000, extra_args=["-seed2", str(k)], consts={"Base": 65536})
        if chk.violations:
            return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# ApiSpec.tla / ApiPool.tla / ApiTrace.tla
def api_mc(neps, ncalls, kinds, maxnet, maxcancel, mayclose, live=False, maxcause=1):
    return cfg_text(dict(NEps=neps, NCalls=ncalls, Kinds=kinds, MaxNet=maxnet, MaxCause=maxcause, MaxCancel=maxcancel, MayClose=mayclose),
                    ["SPECIFICATION PSpec"] if live else ["INIT PInit", "NEXT PNext"], ["Allowed", "OneUsable"],
                    ["Returns", "CloseEnds"] if live else ())


def run_api(chk):
    q = chk.quick
    t = 600 if q else 3000
    jobs = [chk.tlc("api-one", "ApiPool", api_mc(1, 2, {"one", "any"}, 2, 0 if q else 1, True), workers=2, timeout=t),
            chk.tlc("api-any", "ApiPool", api_mc(2, 2, {"any"}, 3, 0 if q else 1, False), workers=3, timeout=t)]
    if q:
        jobs.append(chk.tlc("api-live", "ApiPool", api_mc(1, 1, {"one", "any"}, 2, 1, True, True), workers=2, timeout=t))
    else:
        jobs += [chk.tlc("api-live", "ApiPool", api_mc(1, 2, {"one", "any"}, 2, 0, True, True), workers=2, timeout=t),
                 chk.tlc("api-close", "ApiPool", api_mc(2, 2, {"one", "any"}, 2, 0, True), workers=4, heap="8g", timeout=t)]
    for k in range(1 if q else 12):
        run_htraces(chk, "api-%d" % k, "ApiTrace", [], "api", {}, 20, 12000, extra_args=["-seed2", str(k)])
        if chk.violations:
            return
    for j in jobs:
        j.must()


# --------------------------------------------------------------------------
# ChannelSpec.tla / ChannelMC.tla / ChannelTrace.tla
def run_chan(chk):
    q = chk.quick
    t = 600 if q else 3000

    def mc(n, live):
        return cfg_text(dict(NMsg=n, MayCut=True), ["SPECIFICATION MSpec"] if live else ["INIT MInit", "NEXT MNext"], ["InOrder", "EndAtEnd"],
                        ["SeesEnd", "NothingLater"] if live else ["NothingLater"])
    jobs = [chk.tlc("chan-live", "ChannelMC", mc(1 if q else 2, True), workers=2, timeout=t),
            chk.tlc("chan", "ChannelMC", mc(2 if q else 3, False), workers=3, timeout=t)]
    for k in range(1 if q else 12):
        run_htraces(chk, "chan-%d" % k, "ChannelTrace", [], "chan", {}, 20, 10000, extra_args=["-seed2", str(k)])
        if chk.violations:
            return
    for j in jobs:
        j.must()
