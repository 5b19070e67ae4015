"""T01-T09: uploads and downloads. Specifications: Upload.tla, Sender.tla, Download.tla, ..."""
import json, os, collections
from vf import *
from p_disc import in_parallel, short

IPS = ["10.77.0.%d" % k for k in range(2, 13)] + ["10.77.1.2", "10.78.0.2", "11.77.0.3", "10.77.1.1", "10.78.0.1"]


def model(ctx, cfg, module=None, timeout=600):
    tlc(ctx, module or cfg, cfg, timeout=timeout)


# ------------------------------------------------------------------ uploads
def run_uploads(ctx, drv, nodes, flu=None, name="up", workers=8, linger=0, timeout=400):
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    with open(work + ".job", "w") as f:
        json.dump({"Bin": flu or "", "Work": work, "Nodes": nodes, "Workers": workers, "Linger": linger}, f)
    kw = {"cluster": 1, "work": work} if flu else {"netns": True}
    st, o, e = drive(ctx, drv, ["upload", work + ".job", work + ".out"], timeout=timeout, **kw)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(work + ".out"))
    if res.get("crash"):
        ctx.violation("the daemon ended: " + (crash_report(res["crash"]) or race_report(res["crash"]) or res["crash"][-300:])[:300],
                      res["crash"][:8000])
    return res["traces"]


def judge_up(ctx, traces):
    traces = [t for t in traces if t]
    ops = collections.Counter()
    for t in traces:
        for e in t:
            ops[e["op"]] += 1
        ctx.nontrivial([[e.get(k) for k in ("op", "f", "k", "cap", "off", "len")] for e in t if e["op"] != "file"])
    ctx.evaluations += sum(ops.values()) - ops["file"]
    ctx.extra["events"] = dict(ops)
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample([short(e) for e in t][:14])
    # a history may be long: one state per event
    for i, at in sorted(validate(ctx, "TraceUpload", traces, chunk=1500, timeout=500, heap="12g"), key=lambda x: x[0])[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        ctx.violation("an upload is not as specified: event %s: %s" % (at, json.dumps(short(ev))[:600]), traces[i][:(at or 0) + 3])


def edges(r):
    """Chunk lengths around multiples of the packet sizes."""
    return r.choice([1, 2, 999, 1000, 1001, 1023, 1024, 1025, 1000 + 1024 * r.randint(1, 6) + r.choice([-1, 0, 0, 1]),
                     1024 * r.randint(1, 6) + r.choice([-1, 0, 1]), r.randint(3, 9000)])


def up_file(r, kind=None):
    kind = kind or r.choice(["odd", "odd", "odd", "few", "shared", "one"])
    if kind == "shared":
        return {"Size": r.choice([1, 24, 999, 1000, 1001, 2024, 2025, r.randint(1, 30000)]), "Csize": 0, "Held": []}
    cs = edges(r)
    n = 1 if kind == "one" else r.randint(2, 7)
    size = cs * (n - 1) + r.choice([cs, 1, min(cs, edges(r)), r.randint(1, cs)])
    held = list(range(n)) if r.random() < 0.4 else sorted(r.sample(range(n), r.randint(0, n)))
    return {"Size": size, "Csize": cs, "Held": held}


def chunks_of(f):
    cs = f["Csize"] or 1 << 22
    return -(-f["Size"] // cs)


def asks(r, files, f=None, good=0.8):
    """A request, mostly for a chunk that is held."""
    if f is None:
        f = r.randrange(len(files))
    fl = files[f]
    n = chunks_of(fl)
    held = fl["Held"] if fl["Csize"] else list(range(n))
    if held and r.random() < good:
        return f, r.choice(held)
    if r.random() < 0.2:
        return -1 - r.randrange(3), r.randrange(3)
    return f, r.choice([n, n + 1, r.randrange(n), 65535, 32768])


def req(f, k, cap):
    return {"Op": "req", "F": f, "K": k, "Cap": cap}


def acks(n, kind=""):
    return {"Op": "ack", "N": n, "Kind": kind}


CAPS = [1, 2, 3, 5, 10, 64, 100]


def T01(ctx):
    r = ctx.rng
    drv, race, flu = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx)])
    def node(nfiles, lanes, big):
        files = [up_file(r) for _ in range(nfiles)]
        M4 = 1 << 22
        files += [{"Size": s, "Csize": 0, "Held": []} for s in big]
        ls = []
        if big:         # a file of many gigabytes, of which a few chunks are held
            cs = (1 << 17) + r.randint(1, 999)
            far = {"Size": cs * 65535 + r.choice([1, 1000, r.randint(1, cs)]), "Csize": cs,
                   "Held": sorted({0, 1, 127, 128, 255, 256, 16384, 32767, 32768, 65534, 65535} | {(x << 32) // cs + d for x in (1, 2) for d in (-1, 0, 1)})}
            files.append(far)
            for k in far["Held"]:
                ls.append({"IP": r.choice(IPS), "Steps": [x for c in (k, k ^ 32768) for x in
                                                          (req(len(files) - 1, c, r.choice([10, 64, 100])), {"Op": "auto", "N": 16})]})
        for k in range(lanes):
            steps = []
            if k < nfiles + len(big):      # every chunk of this file, and the one after it
                f = k
                for c in list(range(chunks_of(files[f]))) + [chunks_of(files[f])]:
                    steps += [req(f, c, r.choice(CAPS)), {"Op": "auto", "N": r.choice([1, 1, 3, 16, 64])}]
            for _ in range(3 if k < nfiles + len(big) else 8):
                f, c = asks(r, files)
                if f >= nfiles:
                    f, c = asks(r, files, r.randrange(nfiles))
                steps += [req(f, c, r.choice(CAPS)), {"Op": "auto", "N": r.choice([1, 1, 2, 7, 64]), "Kind": r.choice(["", "reversed", "garbage"])}]
            ls.append({"IP": r.choice(IPS), "Steps": steps})
        return {"Seed": r.randrange(1 << 40), "Files": files, "Lanes": ls}
    M4 = 1 << 22
    q = ctx.quick
    real = [node(150 if q else 400, 220 if q else 700, [M4 + 1, 2 * M4 - 1] if q else [M4, M4 + 1, M4 - 1, 2 * M4 + 12345, 3 * M4])]
    ins = [node(12, 30, []) for _ in range(20 if q else 120)]
    res = in_parallel([lambda: run_uploads(ctx, drv, real, flu, "real", 1), lambda: run_uploads(ctx, race, ins, None, "in", 8)])
    judge_up(ctx, sum(res, []))
    return "model_checking", ("requests for every chunk of files whose chunk lengths lie around packet boundaries, with all or some chunks held, and "
                              "for chunks and files that are not held, sent to the real daemon and to in-process nodes (race detector). "
                              "Every packet received is an event, and TLC decides whether Upload.tla explains the sequence. Distinct = distinct histories.")


def scripted(ctx, scripts, per_node=60):
    """Nodes whose peers follow schedules generated by TLC (GenUpload)."""
    r = ctx.rng
    nodes = []
    for lo in range(0, len(scripts), per_node):
        c0 = r.choice([3048, 3047, 2025, 2500, 3048])
        c1 = r.choice([2024, 2023, 1001, 1700])
        files = [{"Size": c0 + r.choice([1, 999, 1000, 500]), "Csize": c0, "Held": [0, 1]},
                 {"Size": c1 + r.choice([1001, c1, c1, 1]) if c1 > 1001 else 2 * c1, "Csize": c1, "Held": [1]}]
        lanes = []
        for s in scripts[lo:lo + per_node]:
            steps = []
            for e in s:
                e = dict(e)
                if e["Op"] == "req" and e["F"] == 2:
                    e["F"] = -1
                if steps and e["Op"] == steps[-1]["Op"] == "ack" and e["Kind"] == steps[-1]["Kind"]:
                    steps[-1]["N"] += 1
                    continue
                steps.append(e)
            lanes.append({"IP": r.choice(IPS), "Steps": steps})
        nodes.append({"Seed": r.randrange(1 << 40), "Files": files, "Lanes": lanes})
    return nodes


def wild(r, files, n):
    """A random schedule with n requests."""
    steps = []
    for _ in range(n):
        f, c = asks(r, files)
        cap = r.choice(CAPS + [r.randint(1, 100), 65535 if files[max(f, 0)]["Size"] < 50000 else 80])
        steps.append(req(f, c, cap))
        style = r.choice(["auto", "batch", "mixed", "mixed", "late", "abandon"])
        if style == "auto":
            steps.append({"Op": "auto", "N": r.choice([1, 2, cap, cap + 1]), "Kind": r.choice(["", "reversed", "garbage"])})
        elif style == "late":
            steps += [{"Op": "drain"}, {"Op": "pause", "N": r.choice([5, 50, 600])}, acks(1), {"Op": "drain"}, {"Op": "pause", "N": 20}]
        elif style == "abandon":
            steps += [{"Op": "take", "N": 1}, acks(1), {"Op": "take", "N": r.randint(0, cap)}]
            if r.random() < 0.5:
                steps.append({"Op": "pause", "N": r.choice([1, 5, 600])})
        else:
            for _ in range(r.randint(2, 12)):
                steps.append(r.choice([{"Op": "take", "N": r.randint(1, cap)}, {"Op": "drain"}, acks(1), acks(r.randint(1, min(cap, 60)), r.choice(["", "reversed", "garbage"]))]))
    return steps


def T02(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, gen, _ = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx),
                                       lambda: generate(ctx, "GenUpload"),
                                       lambda: [model(ctx, "Sender"), q or model(ctx, "SenderLive", "Sender"), q or model(ctx, "SenderDeep", "Sender", 1500)]])
    r.shuffle(gen)
    scripts = gen[:1500] if q else gen
    def node(lanes, patience=()):    # peers that acknowledge only now and then, all the time
        files = [{"Size": s, "Csize": cs, "Held": list(range(-(-s // cs)))} for s, cs in
                 [(edges(r) * 3, edges(r)) for _ in range(6)] + [(r.randint(20000, 120000), 200000) for _ in range(3)]]
        files = [f for f in files if chunks_of(f) <= 200]
        files.append({"Size": 9000, "Csize": 10000, "Held": [0]})
        unhurried = [{"IP": r.choice(IPS), "Steps": [req(len(files) - 1, 0, r.choice([1, 2]))] + [{"Op": "drain"}, {"Op": "pause", "N": ms}, acks(1)] * k}
                     for ms, k in patience]
        return {"Seed": r.randrange(1 << 40), "Files": files,
                "Lanes": unhurried + [{"IP": r.choice(IPS), "Steps": wild(r, files, r.randint(1, 3))} for _ in range(lanes)]}
    res = in_parallel([lambda: run_uploads(ctx, drv, [node(200 if q else 800, [(4400, 4), (6000, 3)] if q else [(2500, 8), (5000, 5), (9000, 6)])], flu, "real", 1, 0 if q else 40),
                       lambda: run_uploads(ctx, race, [node(25) for _ in range(12 if q else 50)], None, "in", 4),
                       lambda: run_uploads(ctx, drv, scripted(ctx, scripts), None, "gen", 6, timeout=800)])
    judge_up(ctx, sum(res, []))
    return "model_checking", ("the design (Sender.tla: goroutines, channel, cancellation) is model checked against Upload.tla; schedules of requests, packets "
                              "and acknowledgements generated by TLC, and random ones (batched, delayed, reordered, surplus acknowledgements, windows 1 to "
                              "65535), executed with real nodes; TLC judges every packet; workers left at the end are counted. Distinct = distinct histories.")


def T03(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, frace = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx),
                                         lambda: build_repo(ctx, race=True)])
    used = set()
    lows = [r.randrange(256) for _ in range(3 if q else 12)]
    def port(ips):      # many have one half in common
        while True:
            p = 2048 + r.randrange(100) * 256 + r.choice(lows)
            if not any((ip, p) in used or (ip, p + 1) in used for ip in ips):
                used.update((ip, p) for ip in ips)
                used.add((ips[0], p + 1))
                return p
    def node(groups, n):
        files = [up_file(r, k) for k in ["odd", "odd", "odd", "few", "shared", "one"] + ["odd"] * 3]
        files.append({"Size": 90000, "Csize": 40000, "Held": [0, 1, 2]})
        lanes = []
        for g in range(groups):
            # peers with the same port on different hosts, and on the same host with neighbouring ports
            ips = r.sample(IPS, 4) if g % 3 else r.sample(["10.77.0.2", "10.77.1.2", "10.78.0.2", "10.77.0.3", "11.77.0.3"], 4)
            p = port(ips)
            for ip in ips:
                lanes.append({"IP": ip, "Port": p, "Steps": wild(r, files, n)})
            lanes.append({"IP": ips[0], "Port": p + 1, "Steps": wild(r, files, n)})
        return {"Seed": r.randrange(1 << 40), "Files": files, "Lanes": lanes}
    def swift(lanes, n):        # the next request comes while many packets of the last transfer are being sent
        files = [{"Size": 400000, "Csize": 400000, "Held": [0]}] + [{"Size": r.randint(1, 5000), "Csize": 5000, "Held": [0]} for _ in range(4)]
        ls = []
        for _ in range(lanes):
            steps = []
            for _ in range(n):
                steps += [req(0, 0, r.choice([400, 300, 150])), acks(1), {"Op": "spin", "N": r.choice([0, 0, 50, 100, 200, 400, 800])}, req(r.randint(1, 4), 0, r.choice([1, 2, 10]))]
                if r.random() < 0.4:
                    steps += [{"Op": "auto", "N": 1}, {"Op": "take", "N": 1}]
            ip = r.choice(IPS)
            ls.append({"IP": ip, "Port": port([ip]), "Steps": steps})
        return {"Seed": r.randrange(1 << 40), "Files": files, "Lanes": ls}
    res = in_parallel([lambda: run_uploads(ctx, drv, [swift(4, 8)], flu, "swift", 1),
                       lambda: run_uploads(ctx, drv, [swift(2, 8) for _ in range(2 if q else 10)], None, "swiftin", 2),
                       lambda: run_uploads(ctx, drv, [node(30 if q else 90, 8)], flu, "real", 1),
                       lambda: run_uploads(ctx, drv, [node(16 if q else 40, 6)], frace, "realrace", 1),
                       lambda: run_uploads(ctx, race, [node(6, 6) for _ in range(20 if q else 60)], None, "in", 4)])
    judge_up(ctx, sum(res, []))
    return "model_checking", ("many peers at once, with equal ports on different hosts and several ports on one host, each making several requests in a row "
                              "from its port (after the end of a transfer, or abandoning it at any point), with the real daemon (also built with the race "
                              "detector) and in-process nodes; TLC judges every peer's history against Upload.tla. Distinct = distinct histories.")


# ------------------------------------------------------------------ downloads
def run_downloads(ctx, drv, scenes, flu=None, name="dl", workers=150, timeout=400, memory=0):
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    with open(work + ".job", "w") as f:
        json.dump({"Bin": flu or "", "Memory": memory, "Work": work, "Workers": workers, "Scenes": scenes}, f)
    kw = {"cluster": len(scenes), "work": work} if flu else {"netns": True}
    st, o, e = drive(ctx, drv, ["download", work + ".job", work + ".out"], timeout=timeout, **kw)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(work + ".out"))
    if res.get("crash"):
        ctx.violation("the daemon ended: " + (crash_report(res["crash"]) or race_report(res["crash"]) or res["crash"][-300:])[:300],
                      res["crash"][:8000])
    return res["traces"]


def judge_dl(ctx, traces):
    traces = [t for t in traces if t]
    ops = collections.Counter()
    for t in traces:
        last = None
        for e in t:
            ops[e["op"]] += 1
            if e["op"] in ("open", "got", "obs", "disc", "finished", "unkept", "rest"):
                ctx.evaluations += 1
        ctx.nontrivial([[e.get(k) for k in ("op", "f", "k", "ok", "size", "q", "listed")] for e in t if e["op"] in ("disc", "open", "announce", "obs", "got", "remove")])
    ctx.extra["events"] = dict(ops)
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample([short(e) for e in t if e["op"] not in ("file", "peer")][:14])
    for i, at in sorted(validate(ctx, "TraceDownload", traces, timeout=500, heap="12g"), key=lambda x: x[0])[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        ctx.violation("a download is not as specified: event %s: %s" % (at, json.dumps(short(ev))[:600]), traces[i][:(at or 0) + 3])


def dl_file(r, n, cs=None, expect="finish", **kw):
    cs = cs or edges(r)
    return dict({"Size": cs * (n - 1) + r.choice([cs, 1, r.randint(1, cs)]), "Csize": cs, "Expect": expect}, **kw)


def peer(ip, have, honest=True, **kw):
    return dict({"IP": ip, "Have": have, "Honest": honest, "After": "good" if honest else "silence"}, **kw)


def get(f=0, on="start", n=0, g=0):
    return {"Op": "get", "F": f, "On": on, "N": n, "G": g}


def scene(r, files, peers, user=None, max=60, quiet=12):
    for p, q in zip(peers, peers[1:]):
        if r.random() < 0.12:    # two at one address
            q["IP"] = p["IP"]
    for k, p in enumerate(peers):
        if r.random() < 0.2:    # in another network, with a similar address
            p["IP"] = 256 + r.choice([0, 0, 1, 1, 2, 3, 4, 5])
    return {"Seed": r.randrange(1 << 40), "Files": files, "Peers": peers, "User": user or [get()], "Max": max, "Quiet": quiet}


def some_of(r, n, least=0):
    return sorted(r.sample(range(n), r.randint(least, n)))


TOKENS = ["head", "head", "D1", "D2", "D3", "E", "badhash", "size0", "size1", "size2", "size3", "size4", "size5", "size6", "X0", "X1", "X2",
          "C0", "C1", "S1", "L1", "mid", "zero", "shorthead0", "shorthead23", "max", "max5", "beyond0", "beyond3", "tiny0", "tiny3", "T0", "T1", "junk",
          "lie", "lie1", "lie2", "lie3", "lie4", "rest", "P5"]
PLANS = ["dup", "back", "lie dup", "lie back", "badhash rest E", "size1 rest E", "size2 rest E", "size5 rest E", "head E", "head rest", "head rest E E",
         "X0 rest E", "head rest X1 E", "head rest C1 E", "head X1 rest E", "head L1 E", "lie1 good", "lie2 good", "lie3 good", "lie4 good", "lie good", "good",
         "head lie rest E", "lie head lie4 rest E", "junk junk junk", "good good", "E good", "rest head E", "head rest mid", "head mid rest E", "head S1 rest E",
         "size0 E", "size0 mid", "lie3 head E", "T0 rest E", "head head rest E", "badhash head rest E", "head badhash rest E", "X0 head rest E", "head rest X0 rest E"]


def adversary(r, gen, n, lies=True):
    ps = []
    while len(ps) < n:
        x = r.random()
        if x < 0.6 and gen:
            p = " ".join(gen.pop())
        elif x < 0.85:
            p = r.choice(PLANS)
        else:
            p = " ".join(r.choice(TOKENS) for _ in range(r.randint(1, 9)))
        if lies or "lie" not in p:
            ps.append(p + " end")
    return ps


def T04(ctx):
    r = ctx.rng
    q = ctx.quick
    race, gen = in_parallel([lambda: build_driver(ctx, race=True), lambda: generate(ctx, "Receiver")])
    r.shuffle(gen)
    true, lying = [g for g in gen if "lie" not in g], [g for g in gen if "lie" in g]
    total = len(gen)
    scenes = []
    for k in range(130 if q else 500):
        # chunks of three packets for the generated transfers, of any length for others
        cs = r.choice([2025, 2500, 3000, 3047, 3048]) if k % 3 < 2 else edges(r)
        n = r.choice([3, 10, 16, 24] if q else [3, 10, 25, 45])
        lies = k % 2 == 0
        f = dl_file(r, n, cs, "settle" if lies else "finish")
        have = [list(range(n))]
        pool = [] if k % 3 == 2 else lying if lies else true
        peers = [peer(2 + i, have, True, Plans=adversary(r, pool, 8 if q else 14, lies), Loss=r.choice([0, 0, 0, 0.02])) for i in range(r.randint(6, 10))]
        if r.random() < 0.4:     # some chunks are there already
            f.update(Known=True, Has=some_of(r, n - 1))
        scenes.append(scene(r, [f], peers, max=120))
    # nothing is missing but the last chunk, which is shorter than others, or the one before
    for plan in ["lie1", "lie2", "lie3", "lie4", "lie", "size2 rest E", "size1 rest E"] + r.sample(PLANS, 3 if q else len(PLANS)):
        for lack in (1, 2):
            cs, n = edges(r) + 2, r.choice([2, 3, 9])
            f = {"Size": cs * (n - 1) + r.choice([1, cs // 2, cs - 1]), "Csize": cs, "Expect": "settle", "Known": True,
                 "Has": [c for c in range(n) if c != n - lack]}
            scenes.append(scene(r, [f], [peer(2, [list(range(n))], True, Plans=([plan + " end"] if "lie" not in plan or " " in plan else [plan + " good"]) * 3)], max=120))
    tr = run_downloads(ctx, race, scenes)
    ctx.extra["generated_transfers"] = total
    ctx.extra["replayed_transfers"] = total - len(true) - len(lying)
    judge_dl(ctx, tr)
    return "model_checking", ("transfers in which packets are lost, repeated, reordered, corrupted, cut, invented, or consistently lie: those TLC enumerates from "
                              "Receiver.tla (one per transition; %d of %d in this run) and random ones, played by scripted peers to real nodes (race detector) "
                              "that download from several of them. After each transfer the node's catalogue and the bytes of all held chunks are recorded; TLC "
                              "judges the histories against Download.tla. Distinct = distinct histories." % (total - len(true) - len(lying), total))


ANSWERS = ["all", "odd", "reversed", "beyond", "nowhere", "port0", "zero", "otherid", "broadcast", "short", "cut", "type", "garbage", "garbage", "garbage",
           "twice", "none", "self", "", ""]
HOSTILE = ["silence", "silence", "flood300", "junk junk junk end", "head", "head rest", "good", "tiny0 tiny4 end", "max", "beyond0 end", "head D1 P400 D2 end", "size4", "size4 E", "size6 E"]


def bad_meta(r, f):
    """What a peer might say about file f that cannot be true."""
    n, s, c = chunks_of(f), f["Size"], f["Csize"]
    m = {"Size": s, "Csize": c, "Count": n, "Name": list(b"x"), "Entries": 1, "Reply": ""}
    m.update(r.choice([{"Csize": 0}, {"Count": n + 1}, {"Count": 0}, {"Count": max(0, n - 1)}, {"Size": 0}, {"Size": 1 << 63}, {"Size": (1 << 64) - 1},
                       {"Count": (1 << 32) - 1}, {"Count": 65537, "Csize": 1, "Size": 65537}, {"Count": 65536, "Csize": 1, "Size": 65537}, {"Csize": 0, "Size": 0, "Count": 0},
                       {"Entries": 0}, {"Entries": 2}, {"Entries": 5}, {"Reply": "otherhash"}, {"Reply": "cut"}, {"Reply": "type"}, {"Reply": "empty"},
                       {"Csize": (1 << 32) - 1, "Count": n + 1}, {"Size": s + c * 65536}, {"Size": s + (1 << 32)}]))
    return m


def hostile(r, ip, n, files=1):
    have = [list(range(n))] * files
    plans = [r.choice(HOSTILE) if r.random() < 0.5 else " ".join(r.choice([t for t in TOKENS if "lie" not in t]) for _ in range(r.randint(1, 8))) + r.choice(["", " end", " end", " end"]) for _ in range(30)]
    return peer(ip, have, False, All=True, Plans=plans, MetaLie=True, After="head end", Until=r.choice([0, 2, 3, 5]),
                Answers=[r.choice(ANSWERS) for _ in range(r.randint(0, 12))])


def T05(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, frace = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx), lambda: build_repo(ctx, race=True)])
    def one():
        n = r.choice([1, 2, 3, 5, 8])
        f = dl_file(r, n)
        f["Meta"] = bad_meta(r, f)
        if r.random() < 0.6:
            f.update(Known=True, Has=some_of(r, n - 1))
        ps = [hostile(r, 2 + k, n) for k in range(r.randint(1, 3))]
        if not f.get("Known"):
            for p in ps:
                p["Until"] = r.choice([2, 3])
        ps.append(peer(9, [list(range(n))], From=r.choice([1, 1, 2, 4]), After="good"))
        r.shuffle(ps)
        return scene(r, [f], ps, [dict(get(), Retry=12), {"Op": "probe", "On": "ms", "N": 1500}, {"Op": "probe", "On": "ms", "N": 4000}], max=150, quiet=20)
    def trickle():           # a transfer that never ends must not keep the others waiting for ever
        n, m = r.randint(1, 2), r.randint(1, 4)
        a, b = dl_file(r, n), dl_file(r, m)
        every = [list(range(n)), list(range(m))]
        ps = [peer(2, [every[0], []], False, Plans=["trickle%d" % r.randint(0, 1) for _ in range(30)], All=True),
              peer(3, [every[0] if r.random() < 0.5 else [], every[1]])]
        if not ps[1]["Have"][0]:
            a["Expect"] = "brief"
        return scene(r, [a, b], ps, [dict(get(0), Retry=3), dict(get(1, "ms", r.choice([0, 2500, 5000])), Retry=6)], max=150, quiet=25)
    res = in_parallel([lambda: run_downloads(ctx, race, [one() for _ in range(116 if q else 600)] + [trickle() for _ in range(4 if q else 20)], workers=120),
                       lambda: run_downloads(ctx, drv, [one() for _ in range(6 if q else 10)], flu, "real", memory=3 << 30),
                       lambda: run_downloads(ctx, drv, [one() for _ in range(5 if q else 10)], frace, "realrace")])
    judge_dl(ctx, sum(res, []))
    return "model_checking", ("downloads in the presence of peers that answer discovery, metadata and chunk requests with anything (wrong types, lengths, offsets, "
                              "sizes, addresses, floods, silence), by in-process nodes and real daemons (also with the race detector), with an honest peer present or "
                              "joining later; the node must answer others meanwhile and the download must complete. TLC judges the histories against Download.tla. "
                              "Distinct = distinct histories.")


def T07(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx)])
    def scattered(n, peers, coverage):
        """Which chunks the peers have: every chunk at one of them at least, with that probability."""
        have = [set() for _ in range(peers)]
        for c in range(n):
            if r.random() < coverage:
                for p in r.sample(range(peers), r.randint(1, peers) if r.random() < 0.5 else 1):
                    have[p].add(c)
        return [sorted(h) for h in have]
    def one(kind):
        n = r.choice([1, 2, 3, 4, 6, 7])
        k = r.randint(1, 4)
        cov = 1 if kind == "finish" else r.choice([0.3, 0.6, 0.8])
        if kind == "many":           # so many holes that a question has no room for all of them
            n = 8 + 2 * r.randint(150, 300)
            f = dl_file(r, n, r.choice([1, 7, 50]), "finish")
            holes = r.sample(range(0, n, 2), 150)
            if r.random() < 0.5:
                holes = sorted(holes) # .. and only a few of them are to be had
            want = sorted(r.sample(holes, 4)) if r.random() < 0.3 else sorted(holes)[-r.randint(1, 6):]
            f.update(Known=True, Has=[c for c in range(n) if c not in holes], Expect="rest")
            return scene(r, [f], [peer(2, [want], All=r.random() < 0.3), peer(3, [r.sample(want, 1)])], max=26 if q else 40)
        f = dl_file(r, n, expect="finish" if cov == 1 else "rest")
        have = scattered(n, k, cov)
        if r.random() < 0.5:
            has = some_of(r, n - 1) if n > 1 else []
            f.update(Known=True, Has=has)
            if not any(have):
                f["Expect"] = "rest"
        if r.random() < 0.2 and kind == "finish":   # nothing to do
            f.update(Known=True, Has=list(range(n)))
        if kind == "finish" and r.random() < 0.15:
            f.update(Shared=True, Known=True, Has=[], Size=r.randint(1, 30000), Csize=1 << 22)
            have = [[0] for _ in range(k)]
        ps = []
        for i in range(k):
            p = peer(2 + i, [have[i]], All=r.random() < 0.3, Answers=[r.choice(["", "", "", "none", "twice"]) for _ in range(3)] if r.random() < 0.4 else [])
            if kind == "late" and r.random() < 0.5:
                p["From"] = r.randint(2, 4)
            if r.random() < 0.15:
                p["Plans"] = [r.choice(["silence", "badhash rest E", "head end"])]
            ps.append(p)
        if r.random() < 0.4:         # the node hears itself, as on a real network
            ps.append(peer(8, [list(range(n))], False, Answers=["self"] * 200))
        user = [dict(get(), Retry=6)]
        x = r.random()
        if x < 0.25:
            user += [dict(get(), Retry=6) for _ in range(r.randint(1, 3))]
        elif x < 0.5:
            user += [get(on=r.choice(["disc", "open", "packet"]), n=r.randint(1, 4)) for _ in range(r.randint(1, 3))]
        if r.random() < 0.4:
            user.append(dict(get(), On="end"))
        if r.random() < 0.2:
            user.append(get(on="ms", n=r.choice([100, 2500, 5000, 9000])))
        return scene(r, [f], ps, user, max=60 if f["Expect"] == "finish" else 24 if q else 34, quiet=9)
    kinds = ["finish", "rest", "late", "many", "finish", "rest", "rest", "finish"]
    res = in_parallel([lambda: run_downloads(ctx, race, [one(kinds[k % 8]) for k in range(200 if q else 900)], workers=200),
                       lambda: run_downloads(ctx, drv, [one(kinds[k % 8]) for k in range(10)], flu, "real")])
    judge_dl(ctx, sum(res, []))
    return "model_checking", ("downloads from scripted peers that hold different chunks (some chunks nowhere, peers that come later, answer twice or not at all, "
                              "offer more than was asked, a node that hears itself, more holes than fit a question), requested once or several times, by in-process "
                              "nodes (race detector) and real daemons. Every request of the node is judged by TLC against Download.tla: for a missing chunk, to a peer that offered "
                              "it in the latest discovery; and chunks that were offered again and again were requested. Distinct = distinct histories.")


def unbig(l):
    return sum(d * 10000 ** k for k, d in enumerate(l))


def name_bytes(parts):
    n = "/".join({"NUL": "a\0b"}.get(p, p) for p in parts)
    if n.startswith("/") and n.strip("/.") != "":
        n = "@" + n          # an absolute path inside of the scene's directory
    return list(n.encode())


def odd_name(r):
    """Names that a peer might invent (at most three levels up, absolute ones only inside of the scene's directory)."""
    part = lambda: r.choice(["..", ".", "", "x", "SELF", "cat", "dl", "index.json", "a b", "ü", "\n", "con", "~", "-rf", "%s%n", "x" * r.randint(1, 120), "$HOME", "*", "..."])
    ps = [part() for _ in range(r.randint(1, 6))]
    while sum(p == ".." for p in ps) > 3:
        ps.remove("..")
    b = "/".join(ps).encode()
    if b.startswith(b"/") and b.strip(b"/.") != b"":
        b = b"@" + b
    if r.random() < 0.2:
        k = r.randrange(len(b) + 1)
        b = b[:k] + r.choice([b"\0", b"\xff", b"\xc3\x28", b"\\", b"/", b"\x80"]) + b[k:] if b[:1] != b"@" else b + b"\xff\xfe"
        if b.startswith(b"/") and b.strip(b"/.") != b"":
            b = b"@" + b
    return list((b or b".")[:250])


def meta_scene(r, metas, canary, home=True):
    """One node that is told these things about files that the user asks for."""
    files, user = [], []
    known = {"Size": r.randint(1, 3000), "Csize": 1 << 22, "Shared": True, "InDl": True, "Name": list(b"SELF"), "Expect": "finish"}
    for m in metas:
        f = dl_file(r, r.randint(1, 3), expect="brief")
        f["Meta"] = {"Size": f["Size"], "Csize": f["Csize"], "Count": chunks_of(f), "Name": list(b"x"), "Entries": 1, "Reply": "", **m}
        if set(m) != {"Name"}:    # there is nothing to be had of a file of these dimensions
            f["Impostor"] = True
        files.append(f)
    files.append(known)
    if canary:
        files.append(dl_file(r, 2, 50, "finish"))
    for k, f in enumerate(files):
        if f.get("Shared"):
            continue
        user.append(dict(get(k), Retry=8 if f["Expect"] == "finish" else 2))
        if r.random() < 0.3:
            user.append(dict(get(k, "ms", r.randint(0, 4000)), Retry=0))
    have = [list(range(chunks_of(f))) for f in files]
    ps = [peer(2, have, False, MetaLie=True, After="good" if all(set(m) == {"Name"} for m in metas) else "end")]
    if not all(set(m) == {"Name"} for m in metas) and r.random() < 0.3:
        ps[0]["After"] = "silence"
    if canary:          # .. and there are others that behave
        ps[0]["Have"] = have[:-1] + [[]]
        ps.append(peer(3, [[]] * (len(files) - 1) + [[0, 1]]))
    return scene(r, files, ps, user, max=70, quiet=6)


def T08(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, gen = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx), lambda: generate(ctx, "GenMeta")])
    metas, names = [], []
    for g in gen:
        if g["kind"] == "dims":
            metas.append({"Size": unbig(g["size"]), "Csize": unbig(g["csize"]), "Count": g["count"]})
        else:
            names.append({"Name": name_bytes(g["parts"])})
    for _ in range(60 if q else 800):
        names.append({"Name": odd_name(r)})
    dummy = {"Size": 100, "Csize": 50}
    for _ in range(30 if q else 300):
        m = bad_meta(r, dummy)
        metas.append({**m, "Name": odd_name(r)})
    for x in ({"Reply": "otherhash"}, {"Reply": "otherhash"}, {"Reply": "otherhash"}, {"Entries": 0}, {"Entries": 2}, {"Entries": 5}, {"Reply": "cut"}, {"Reply": "type"}, {"Reply": "empty"}):
        metas.append({"Entries": 1, "Reply": "", **dummy, "Count": 2, **x, "Name": list(b"y")})
    r.shuffle(metas)
    r.shuffle(names)
    rounds = lambda l, n: [l[k:k + n] for k in range(0, len(l), n)]
    scenes = [meta_scene(r, g, True) for g in rounds(metas, 7)] + [meta_scene(r, g, True) for g in rounds(names, 5)]
    real = [meta_scene(r, r.sample(metas, 12), True) for _ in range(3)] + [meta_scene(r, r.sample(names, 12), True) for _ in range(3)]
    res = in_parallel([lambda: run_downloads(ctx, race, scenes, workers=200),
                       lambda: run_downloads(ctx, drv, real, flu, "real")])
    judge_dl(ctx, sum(res, []))
    return "model_checking", ("requests for files about which a peer says: sizes, chunk sizes and counts around all boundaries of soundness (enumerated by TLC, "
                              "up to 2^64-1), names made of every sequence of up to three of ' .. . / NUL x' and the name of an existing download (enumerated by TLC), random "
                              "names, several entries, other files; many such files at once and repeatedly, by in-process nodes (race detector) and real daemons. Recorded: what "
                              "was registered, with which path and dimensions, and what changed around the downloads directory; TLC judges against Download.tla. "
                              "Distinct = distinct histories.")


def some_loss(r, k):
    """Plans of transfers of which at most k get lost."""
    ps = [r.choice(["good", "good", "head rest E", "dup", "back", "P30 good", "head P5 rest P5 E"]) for _ in range(r.randint(0, 6))]
    for _ in range(r.randint(0, k)):
        ps.insert(r.randint(0, len(ps)), r.choice(["silence", "head end", "head rest end", "rest E", "head D1 end", "D1 E", "head mid", "badhash rest E", "head X1 rest E"]))
    return ps


def distribution(r, n, peers):
    """Every chunk at one peer at least."""
    have = [set() for _ in range(peers)]
    style = r.choice(["any", "split", "most", "blocks", "same"])
    for c in range(n):
        ps = {"any": r.sample(range(peers), r.randint(1, peers)), "split": [r.randrange(peers)], "most": [0] if r.random() < 0.2 else list(range(peers)),
              "blocks": [c * peers // n], "same": list(range(peers))}[style]
        for p in ps:
            have[p].add(c)
    return [sorted(h) for h in have]


def swarm_job(ctx, g, flu, drv, name, big):
    """A network of real daemons: who has what and what happens is what TLC generated, and random."""
    r = ctx.rng
    nodes = len(g["first"])
    n0 = 1 + max(c for h in g["first"] for c in h)
    cs = edges(r)
    files = [{"Size": cs * (n0 - 1) + r.choice([cs, 1, r.randint(1, cs)]), "Csize": cs, "Hold": g["first"]}]
    for _ in range(3):
        n = r.randint(1, 12)
        c = edges(r)
        files.append({"Size": c * (n - 1) + r.choice([c, 1]), "Csize": c, "Hold": distribution(r, n, nodes)})
    for size in [r.choice([1, 1000, 1001, 3048, r.randint(1, 100000)]), big]:
        who = r.sample(range(nodes), r.choice([1, 1, 2]))
        files.append({"Size": size, "Csize": 0, "Hold": [[] if k in who else None for k in range(nodes)]})
    for f in files[1:]:
        f["Hold"] = [h if h is None or h or r.random() < 0.5 or f["Csize"] == 0 else None for h in f["Hold"]]
    steps, at, down = [], 300, set()
    for e in g["hist"]:
        op, n = e["op"], e["n"] - 1
        if op == "get":
            steps.append({"At": at, "Op": "get", "Node": n, "F": 0})
            for f in range(1, len(files)):
                if r.random() < 0.35:
                    steps.append({"At": at + r.randint(0, 3000), "Op": "get", "Node": n, "F": f})
            at += r.choice([0, 100, 1000, 2500])
        elif op in ("kill", "start"):
            steps.append({"At": at, "Op": op, "Node": n})
            (down.add if op == "kill" else down.discard)(n)
            at += r.choice([50, 700, 2000])
        else:
            at += r.choice([1000, 2100, 3000])
    for _ in range(r.randint(0, 3)):
        steps.append({"At": r.randint(0, at), "Op": "cut", "Node": r.randrange(nodes), "N": r.choice([30, 300, 2500])})
    for n in down:
        steps.append({"At": at + 100, "Op": "start", "Node": n})
    at += 1500
    again = {(s["Node"], s["F"]) for s in steps if s["Op"] == "get"}
    again |= {(r.randrange(nodes), len(files) - 1)}
    for n, f in sorted(again):
        steps.append({"At": at + r.randint(0, 2000), "Op": "get", "Node": n, "F": f})
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    with open(work + ".job", "w") as f:
        json.dump({"Bin": flu, "Work": work, "Seed": r.randrange(1 << 40), "Nodes": nodes, "Files": files, "Steps": steps, "Max": 240}, f)
    return lambda: run_swarm(ctx, drv, nodes, work)


def run_swarm(ctx, drv, nodes, work):
    st, o, e = drive(ctx, drv, ["swarm", work + ".job", work + ".out"], timeout=400, cluster=nodes, work=work)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(work + ".out"))
    if res.get("crash"):
        ctx.violation("a daemon ended: " + (crash_report(res["crash"]) or race_report(res["crash"]) or res["crash"][-300:])[:300], res["crash"][:8000])
        return []
    return res["traces"]


def judge_swarm(ctx, traces):
    for t in traces:
        ctx.evaluations += sum(1 for e in t if e["op"] in ("obs", "whole", "end"))
        ctx.nontrivial([[e.get(k) for k in ("op", "n", "f", "added")] for e in t])
    for t in traces[:2]:
        ctx.sample([short(e) for e in t if e["op"] not in ("file", "node")][:14])
    for i, at in sorted(validate(ctx, "TraceSwarm", traces, timeout=300), key=lambda x: x[0])[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        ctx.violation("a network of nodes does not do what Swarm.tla says: event %s: %s" % (at, json.dumps(short(ev))[:600]), traces[i][:(at or 0) + 3])


def T06(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, frace, gen, _ = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx), lambda: build_repo(ctx, race=True),
                                                 lambda: generate(ctx, "SwarmMC", "GenSwarm", simulate=20 if q else 60, depth=12),
                                                 lambda: model(ctx, "Swarm", "SwarmMC")])
    firsts = {}
    for g in gen:      # TLC prints all the last steps of a behaviour
        firsts.setdefault(json.dumps([g["first"], g["hist"][:-1]]), []).append(g)
    swarms = [r.choice(v) for v in firsts.values()]
    swarms = [g for g in swarms if any(e["op"] == "get" for e in g["hist"])]
    r.shuffle(swarms)
    def whole():       # honest peers, some packets get lost
        n = r.choice([1, 2, 3, 5, 8, 12])
        k = r.randint(1, 5)
        f = dl_file(r, n)
        if r.random() < 0.4:
            f.update(Known=True, Has=some_of(r, n - 1) if n > 1 else [])
        have = distribution(r, n, k)
        ps = [peer(2 + i, [have[i]], Plans=some_loss(r, 2 if k < 3 else 1), All=r.random() < 0.3,
                   Answers=[r.choice(["", "", "none", "twice"]) for _ in range(r.randint(0, 4))]) for i in range(k)]
        return scene(r, [f], ps, [dict(get(), Retry=10)], max=150, quiet=20)
    def large(size):
        f = {"Size": size, "Csize": 1 << 22, "Expect": "finish"}
        n = chunks_of(f)
        have = distribution(r, n, 2)
        return scene(r, [f], [peer(2, [have[0]], Plans=some_loss(r, 1)), peer(3, [have[1]])], [dict(get(), Retry=10)], max=150, quiet=20)
    def slow():        # a chunk takes a while, and other peers have nothing
        f = {"Size": r.choice([1 << 20, (1 << 20) + r.randint(1, 3000)]), "Csize": 1 << 20, "Expect": "finish"}
        n = chunks_of(f)
        return scene(r, [f], [peer(2, [list(range(n))], Plans=["pace6500"] * 60)] + ([peer(3, [[]])] if r.random() < 0.5 else []),
                     [dict(get(), Retry=10)], max=75, quiet=20)
    def wrong(again):  # what peers have is not the file
        n = r.choice([1, 2, 4])
        f = dl_file(r, n, expect="dropped")
        if n > 1 and r.random() < 0.5:      # it was begun earlier
            f.update(Known=True, Has=some_of(r, n - 1, 1))
            n -= len(f["Has"])
        every = list(range(chunks_of(f)))
        if r.random() < 0.5:
            f["Impostor"] = True
            ps = [peer(2 + i, [every]) for i in range(r.randint(1, 2))]
            return scene(r, [f], ps, [dict(get(), Retry=5)] + ([dict(get(on="dropped", n=1), Retry=5)] if again else []), max=90, quiet=12)
        # .. as one of them says; afterwards it is gone
        f["Expect"] = "finish"
        ps = [peer(2, [every], False, Until=n + 2, Plans=["lie end"] * 40, After="lie end"), peer(3, [every], From=n + 2)]
        return scene(r, [f], ps, [dict(get(), Retry=0), dict(get(on="dropped", n=1), Retry=8)], max=90, quiet=12)
    def restarted():
        n = r.choice([2, 3, 5, 8])
        f = dl_file(r, n, r.choice([None, 3000, 20000]))
        k = r.randint(1, 3)
        have = distribution(r, n, k)
        ps = [peer(2 + i, [have[i]], Plans=[r.choice(["good", "P20 good", "head P30 rest P30 E"]) for _ in range(5)]) for i in range(k)]
        user = [dict(get(), Retry=10)]
        for _ in range(r.randint(1, 3)):
            what = r.choice(["open", "packet", "packet", "disc"])
            user.append({"Op": "restart", "F": 0, "G": 0, "On": what, "N": r.randint(1, n if what != "packet" else 4 * n), "Delay": r.choice([0, 0, 1, 5, 30, 300]), "Retry": 10})
        return scene(r, [f], ps, user, max=150, quiet=20)
    M4 = 1 << 22
    sizes = [M4 + 1, 2 * M4] if q else [M4 - 1, M4, M4 + 1, 2 * M4 - 1, 2 * M4, 2 * M4 + 1, 3 * M4 + 999, 5 * M4 + 1000]
    ins = [whole() for _ in range(110 if q else 600)] + [wrong(r.random() < 0.5) for _ in range(40 if q else 200)]
    bigs = [2 * M4 + r.randint(-1, 1), M4 + r.randint(-1, 1000), r.choice([M4, 5 * M4 + 1])]
    jobs = [swarm_job(ctx, g, [flu, frace][k % 2], drv, "swarm%d" % k, bigs[k % 3]) for k, g in enumerate(swarms[:3 if q else 12])]
    res = in_parallel([lambda: run_downloads(ctx, race, ins, workers=150),
                       lambda: run_downloads(ctx, drv, [large(s) for s in sizes], name="large"),
                       lambda: run_downloads(ctx, drv, [slow() for _ in range(2 if q else 8)], name="slow"),
                       lambda: run_downloads(ctx, drv, [restarted() for _ in range(10)], flu, "real")] + jobs[:3])
    judge_dl(ctx, sum(res[:4], []))
    traces = sum(res[4:], [])
    for k in range(3, len(jobs), 3):
        traces += sum(in_parallel(jobs[k:k + 3]), [])
    judge_swarm(ctx, traces)
    return "model_checking", ("whole downloads: (1) from scripted honest peers with files of all sizes and any distribution of the chunks, with some transfers lost, by in-process nodes "
                              "(race detector); (2) of files that turn out to be something else; (3) by a real daemon that is killed and started again at any point and asked again; (4) networks "
                              "of five real daemons (half of them with the race detector) with several files spread over them, requests, kills and starts as generated by TLC from Swarm.tla, "
                              "and cut cables. TLC judges against Download.tla and Swarm.tla, whose liveness is model checked. Distinct = distinct histories.")


def T09(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, race, flu, frace, gen, _ = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True), lambda: build_repo(ctx), lambda: build_repo(ctx, race=True),
                                                 lambda: generate(ctx, "Fetch", "GenFetch"), lambda: model(ctx, "FetchQuick" if q else "Fetch", "Fetch", 900)])
    gen = [g for g in gen if any(u["Op"] == "remove" for u in g)]
    r.shuffle(gen)
    def other(n):      # another download that must not be disturbed
        return dl_file(r, r.randint(1, 4), expect="finish")
    def build(user, n, real=False):
        """File 0 is removed; file 1 and perhaps 2 are not."""
        f = dl_file(r, n, r.choice([None, 3000]), "gone")
        files = [f, other(1)] + ([other(1)] if r.random() < 0.3 else [])
        if real:
            for x in files[1:]:
                x.update(Known=True, Has=[0], Csize=50, Size=50 * r.randint(2, 4))
        have = [list(range(chunks_of(x))) for x in files]
        ps = [peer(2, have, Plans=[r.choice(["good", "good", "head P5 rest P5 E", "head P20 good", "P30 good", "badhash rest E", "head end"]) for _ in range(r.randint(0, 5))]),
              peer(3, have)]
        if r.random() < 0.3:
            ps[1]["Have"] = [some_of(r, n)] + have[1:]
        asked = False
        for u in user:
            if u["Op"] == "remove":
                if u["On"] == "disc":
                    u["Delay"] = r.choice([0, 1, 100, 1900, 1990, 2000, 2001, 2002, 2003, 2005, 2010, 2020])
                else:
                    u["Delay"] = r.choice([0, 0, 0, 1, 2, 5, 20])
        if user[-1]["Op"] == "remove":
            user[-1]["Ask"] = True
        return scene(r, files, ps, user + [dict(get(k), Retry=8) for k in range(1, len(files))], max=90, quiet=6)
    def planned(g):
        return build([dict(u, F=0, G=0) for u in g], 2)
    def late():        # any time, long files, several removals and requests
        n = r.randint(1, 9)
        user = [dict(get(), Retry=3) for _ in range(r.choice([1, 1, 2, 3]))]
        again = r.random() < 0.5
        user.append({"Op": "remove", "F": 0, "G": 0, "On": r.choice(["open", "packet", "packet", "disc"]), "N": r.randint(1, 2 * n), "Ask": False})
        if again:
            user.append({"Op": "get", "F": 0, "G": 0, "On": r.choice(["open", "packet", "disc"]), "N": r.randint(2, 3 * n), "Delay": r.choice([0, 0, 1, 5, 300])})
            if r.random() < 0.5:
                user.append({"Op": "remove", "F": 0, "G": 0, "On": r.choice(["open", "packet", "disc"]), "N": r.randint(3, 3 * n)})
        return build(user, n)
    def real():
        n = r.randint(2, 6)
        user = [dict(get(), Retry=3), {"Op": "remove", "F": 0, "G": 0, "On": r.choice(["open", "packet"]), "N": r.randint(2, n + 1)}]
        if r.random() < 0.4:
            user.insert(1, get(on="open", n=1))
        if r.random() < 0.4:
            user.append(get(on="ms", n=r.choice([7000, 9000])))
        return build(user, n, True)
    # uploads: the file is removed while it is being sent; others are asking for other files, and later ones for it
    def upnode(nfiles):
        files = [up_file(r, r.choice(["odd", "odd", "shared", "one"])) for _ in range(nfiles)]
        for f in files:
            if f["Csize"] and not f["Held"]:
                f["Held"] = [0]
        lanes, gone = [], []
        for k in range(nfiles):
            held = files[k]["Held"] if files[k]["Csize"] else list(range(chunks_of(files[k])))
            c = r.choice(held)
            if k % 2 == 0:
                gone.append(k)
                cap = r.choice([1, 1, 2, 5])
                steps = [req(k, c, cap), {"Op": "take", "N": 1}, acks(1), {"Op": "take", "N": r.randint(0, cap)}]
                steps = r.choice([steps, steps[:1], steps[:2], steps[:3], []])
                steps = steps + [{"Op": "unshare", "F": k}] + r.choice([[], [acks(r.randint(1, 4))], [{"Op": "drain"}, acks(2), {"Op": "drain"}], [{"Op": "auto", "N": 2}]])
                steps += [{"Op": "auto", "N": 2}, {"Op": "pause", "N": 600}, req(k, c, cap), {"Op": "drain"}, acks(1), {"Op": "drain"}, req(k, r.randrange(3), 3), {"Op": "drain"}]
                lanes.append({"IP": r.choice(IPS), "Steps": steps})
                lanes.append({"IP": r.choice(IPS), "Wait": True, "Steps": [req(k, c, 5), {"Op": "drain"}, acks(2), {"Op": "drain"}]})
            else:
                for _ in range(2):
                    lanes.append({"IP": r.choice(IPS), "Steps": [req(k, c, r.choice(CAPS)), {"Op": "auto", "N": r.choice([1, 2, 3])}, req(k, r.choice(held), 2), {"Op": "auto", "N": 2}]})
        for l in lanes:
            if l.get("Wait"):
                l["Gone"] = gone
        return {"Seed": r.randrange(1 << 40), "Files": files, "Lanes": lanes}
    scenes = [planned(g) for g in (gen[:110] if q else gen)] + [late() for _ in range(90 if q else 500)]
    res = in_parallel([lambda: run_downloads(ctx, race, scenes, workers=200),
                       lambda: run_downloads(ctx, drv, [real() for _ in range(4 if q else 8)], flu, "real"),
                       lambda: run_downloads(ctx, drv, [real() for _ in range(4 if q else 8)], frace, "realrace")])
    judge_dl(ctx, sum(res, []))
    ups = run_uploads(ctx, race, [upnode(10) for _ in range(14 if q else 60)], None, "up", 4)
    judge_up(ctx, ups)
    return "model_checking", ("the design of a downloader (Fetch.tla) is model checked against the contract (Download.tla) with removals at any point; the schedules of requests "
                              "and removals that TLC generates from it, and random ones, are executed with in-process nodes (race detector) and real daemons (there by `clean`) that "
                              "download several files; files are removed while they are uploaded. TLC judges what peers, catalogue and user see, against Download.tla and "
                              "Upload.tla. Distinct = distinct histories.")
