"""W01, W02: the wire format and what datagrams can do to a node. Specification: Wire.tla, Daemon.tla."""
import json, collections
from vf import *


def events(ctx, msgs, nrand, mode):
    drv = build_driver(ctx)
    with open(ctx.path("msgs.json"), "w") as f:
        json.dump(msgs, f)
    st, o, e = drive(ctx, drv, ["wire", ctx.path("msgs.json"), ctx.path("out.json"), str(ctx.seed), str(nrand), mode])
    if st != "ok":
        ctx.violation("crash in the message code", e)
        return []
    return json.load(open(ctx.path("out.json")))


def judge(ctx, traces, chunk=2500, module="TraceWire"):
    rej = validate(ctx, module, traces, chunk=chunk, timeout=400)
    for i, at in rej:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else traces[i][0]
        short = {k: (v if len(json.dumps(v)) < 300 else json.dumps(v)[:300] + "...") for k, v in ev.items()}
        ctx.violation("%s is not as specified: %s" % (ev["op"], json.dumps(short)[:900]), traces[i])


def W01(ctx):
    msgs = generate(ctx, "GenWire")
    traces = events(ctx, msgs, 800 if ctx.quick else 15000, "rt")
    ctx.evaluations = sum(len(t) for t in traces)
    ctx.extra["per_type"] = dict(collections.Counter(t[0]["m"]["t"] for t in traces))
    for t in traces:
        ctx.nontrivial(t[0]["m"])
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample(t[0])
    judge(ctx, traces)
    return "model_checking", (
        "every combination of boundary field values enumerated by TLC from GenWire.tla, plus seeded random messages; each is "
        "serialized by the real code, checked against the specified layout, padded at random, parsed by the real code and "
        "compared with the message sent. Distinct = distinct messages.")


def W02(ctx):
    import p_disc
    msgs = generate(ctx, "GenWire")
    traces = events(ctx, msgs, 300 if ctx.quick else 6000, "parse")
    ctx.evaluations = len(traces)
    for t in traces:
        ctx.nontrivial(t[0].get("bytes"))
    judge(ctx, traces, chunk=6000)
    ctx.extra["parsed_byte_strings"] = len(traces)
    p_disc.W02(ctx)
    return "model_checking", (
        "byte strings derived from TLC-enumerated and random messages (cut at every kind of place, damaged, of other types, noise) "
        "given to the real parser; and hostile datagrams of all kinds sent by 8 concurrent askers to the real daemon (also built "
        "with the race detector) and to a node inside the driver, interleaved with requests that must be answered. Every parse and "
        "every reply is judged by TLC against Wire.tla and Daemon.tla. Distinct = distinct byte strings.")


def W03(ctx):
    cases = generate(ctx, "GenHash")
    drv = build_driver(ctx)
    with open(ctx.path("cases.json"), "w") as f:
        json.dump(cases, f)
    st, o, e = drive(ctx, drv, ["hash", ctx.path("cases.json"), ctx.path("out.json"), str(ctx.seed), "6000" if ctx.quick else "200000"])
    if st != "ok":
        ctx.violation("crash in the hash code", e)
        return "model_checking", "no verdict on the rest: the code crashed"
    traces = json.load(open(ctx.path("out.json")))
    ctx.evaluations = len(traces)
    ctx.extra["per_form"] = dict(collections.Counter(t[0]["op"] for t in traces))
    for t in traces:
        ctx.nontrivial([t[0]["op"], t[0]["v"]])
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample(t[0])
    judge(ctx, traces, chunk=20000, module="TraceHash")
    return "model_checking", (
        "hashes at and next to the null hash, texts that are a digit, a case or a length away from being one, and byte strings of "
        "every length up to 60, enumerated by TLC from GenHash.tla, plus seeded random ones; what the real code makes of each is "
        "decided by TLC against Hash.tla. Distinct = distinct inputs.")
