"""L01: the command line. Specification: Cli.tla (on top of Catalogue.tla)."""
import json, os, re, ipaddress, collections
from vf import *
from p_disc import in_parallel, short

ALL = "f" * 40


def run_cli(ctx, drv, flu, name, job):
    work = ctx.path(name)
    os.makedirs(work, exist_ok=True)
    with open(work + ".job", "w") as f:
        json.dump(dict(job, Bin=flu, Work=work), f)
    st, o, e = drive(ctx, drv, ["cli", work + ".job", work + ".out"], timeout=600, cluster=1, work=work)
    if st != "ok":
        bad_end(ctx, st, e)
        return []
    res = json.load(open(work + ".out"))
    if res.get("crash"):
        ctx.violation("the daemon ended: " + (crash_report(res["crash"]) or race_report(res["crash"]) or res["crash"][-300:])[:300], res["crash"][:8000])
    return res["traces"]


def judge_cli(ctx, traces):
    ops = collections.Counter()
    for t in traces:
        for e in t:
            if e["op"] == "cli":
                ops[e["cmd"] if e["cmd"] in ("share", "clean", "list", "get", "chims") else "other", e["out"]] += 1
        ctx.nontrivial([[e.get(k) for k in ("op", "cmd", "args", "out", "path")] for e in t if e["op"] not in ("host", "self", "setup")])
    ctx.evaluations += sum(ops.values())
    ctx.extra["commands"] = {"%s: %s" % (c, o or "nothing"): n for (c, o), n in sorted(ops.items())}
    for t in traces[::max(1, len(traces) // 3)]:
        ctx.sample([short({k: v for k, v in e.items() if k not in ("fs", "disk")}) for e in t if e["op"] == "cli"][:8])
    for i, at in sorted(validate(ctx, "TraceCli", traces, timeout=400), key=lambda x: x[0])[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        ctx.violation("a command does not do what Cli.tla says: event %s: %s" % (at, json.dumps(short(ev))[:700]), traces[i][:(at or 0) + 3])


def cmd(name, *args, sure=0):
    return {"Op": "cli", "Cmd": name, "Args": list(args), "Sure": sure}


WHERE = ["", "", "s", "s/sub", ".flu-network/downloads", "."]


def path(p, where=0):
    """A file, as it is called in some directory."""
    return {"Kind": "path", "S": p, "From": WHERE[where % len(WHERE)]}


def hash_arg(s):
    """What a word means where a hash is expected: forty hexadecimal digits."""
    if re.fullmatch("[0-9a-fA-F]{40}", s, re.A):
        return {"Kind": "hash", "S": s, "Is": s.lower()}
    return {"Kind": "bad", "S": s, "Is": ""}


def content(k):
    return {"Kind": "hash", "S": "#%d" % k, "Is": "#%d" % k}


def ip_arg(s):
    try:
        a = ipaddress.ip_address(s)
    except ValueError:
        return {"Kind": "bad", "S": s, "Is": ""}
    if a.version == 6:
        if a.ipv4_mapped is None or "%" in s:
            return {"Kind": "ip6", "S": s, "Is": ""}
        a = a.ipv4_mapped
    if a.is_loopback and str(a) != "127.0.0.1":
        return {"Kind": "odd", "S": s, "Is": ""}
    if a.is_loopback or a == ipaddress.ip_address("0.0.0.0"):
        return {"Kind": "ip", "S": s, "Is": "self"}
    if a.is_multicast or a == ipaddress.ip_address("255.255.255.255") or str(a) in ("10.77.0.255", "10.77.0.0"):
        return {"Kind": "odd", "S": s, "Is": ""}
    return {"Kind": "ip", "S": s, "Is": str(a)}


SELF = "10.77.0.1"
CONTENTS = [{"Size": 100, "CSize": 4 << 20}, {"Size": 5000, "CSize": 4 << 20}, {"Size": 0, "CSize": 4 << 20}, {"Size": (4 << 20) + 7, "CSize": 4 << 20},
            {"Size": 1, "CSize": 4 << 20}, {"Size": 2000, "CSize": 300}, {"Size": 70, "CSize": 7}, {"Size": 40, "CSize": 1}, {"Size": 333, "CSize": 500}]


MANY = CONTENTS + [{"Size": 1500, "CSize": 1}, {"Size": 69993, "CSize": 100}]      # many chunks


def some_chunks(r, n):
    """Some of n chunks: any of them; of many, in a few runs."""
    if n < 100:
        return sorted(r.sample(range(n), r.choice([0, 1, n - 1, n, r.randint(0, n)])))
    s = set(range(n)) if r.random() < 0.5 else set()
    for _ in range(r.randint(0, 6)):
        a = r.randrange(n)
        run = range(a, min(n, a + r.choice([1, 2, 64, n // 3, n])))
        s = s - set(run) if r.random() < 0.3 else s | set(run)
    return sorted(s)


def some_hash(r):
    return "".join(r.choice("0123456789abcdef") for _ in range(40))


def file_name(r):
    return r.choice(["x", "a b", "f.tar.gz", "ü", "%s%d", "-rf", "IP: 1", "x" * 100, "Path", "\tPath", "n%d" % r.randrange(100), "$HOME", "#", "100%", "a'b\"c", "\\", "*"])


def lan_file(r, h=None):
    """What another node may say about a file. Large enough for anything."""
    x = r.random()
    n = r.randint(1, 9)
    cs = r.choice([1, 10, 4 << 20, (1 << 32) - 1])
    f = {"Hash": h or some_hash(r), "Size": cs * (n - 1) + r.randint(1, cs), "Csize": cs, "Count": n, "Have": r.randint(0, n), "Name": file_name(r)}
    if x < 0.2:
        f.update(r.choice([{"Size": (1 << 64) - 1}, {"Size": 1 << 63}, {"Size": (1 << 63) - 1}, {"Size": 0}, {"Count": (1 << 32) - 1}, {"Count": 0}, {"Csize": 0},
                           {"Have": (1 << 32) - 1}, {"Count": 0, "Size": 0, "Csize": 0, "Have": 0}, {"Count": 0, "Have": 5}, {"Size": 1 << 32}, {"Size": (1 << 32) * 9}]))
    return f


def network(r):
    """The other nodes: some with files, others that do not answer, or nonsense."""
    hosts = []
    got = [some_hash(r) for _ in range(4)]         # files to be had, if one asks
    for k, ip in enumerate(range(2, 2 + r.randint(2, 7))):
        x = r.random()
        h = {"IP": ip, "List": "ok" if k == 0 or x < 0.6 else r.choice(["silent", "cut", "type", "junk", "empty"]), "Disc": r.choice([1, 1, 1, 1, 2, 0]), "Port": r.choice([61696, 61696, 0, 1, 80, 65535, r.randrange(65536)]), "Files": [], "Chunks": {}}
        for _ in range(r.choice([0, 1, 2, 5, 40])):
            h["Files"].append(lan_file(r))
        for g in got:
            if r.random() < 0.4 and len(h["Files"]) < 60:
                h["Files"].append(lan_file(r, g))
                h["Chunks"][g] = [0, 0] if r.random() < 0.7 else r.choice([[0, 3], [1, 1, 3, 5], [0, 65535]])
        if r.random() < 0.5:
            f = lan_file(r, "#%d" % r.choice([0, 5, 6]))
            h["Files"].append(f)
            h["Chunks"][f["Hash"]] = [0, 0]
        seen = set()
        h["Files"] = [f for f in h["Files"] if not (f["Hash"] in seen or seen.add(f["Hash"]))]
        if h["Port"] != 61696:      # (nothing to be had from it)
            h["Chunks"] = {}
        if r.random() < 0.1:
            h["Chunks"][ALL] = [0, 1]
        hosts.append(h)
    return hosts, got


def sources(hosts, h):
    return [x for x in hosts if x["Disc"] > 0 and x["Chunks"].get(h)]


def generated(g):
    """A session as TLC generated it."""
    c = {"A": 0, "B": 1}
    steps = []
    up = True
    for e in g:
        op = e["op"]
        if op == "share":
            steps.append(cmd("share", path(e["path"], len(steps))))
        elif op == "clean":
            steps.append(cmd("clean"))
        elif op == "file":
            p = e["path"].replace("dl/", ".flu-network/downloads/")
            steps.append({"Op": "remove", "Path": p} if e["c"] == "none" else {"Op": "write", "Path": p, "C": c[e["c"]]})
        elif op == "list":
            steps.append(cmd("list"))
        elif op == "listself":
            steps.append(cmd("list", ip_arg(SELF)))
        elif op == "listhash":
            steps.append(cmd("list", ip_arg("127.0.0.1"), content(0), sure=1))
        elif op == "listhost":
            steps.append(cmd("list", ip_arg("10.77.0.2"), sure=1))
        elif op == "get":
            steps.append(cmd("get", content(0)))
        elif op == "chims":
            steps.append(cmd("chims"))
        else:
            up = {"stop": False, "start": True}.get(op, up)
            steps.append({"Op": op})
    return {"Entries": [{"C": 5, "Held": [0], "Name": "u"}], "Steps": steps + ([cmd("list")] if up else [])}


WORDS = ["", " ", "-", "x", "0", "..", "10.77.0.2", "10.77.0", "10.77.0.2.3", "256.1.1.1", "010.77.0.2", "10.77.0.2:61696", "::1", "fe80::1", "fe80::1%eth0", "::ffff:10.77.0.2",
         "::ffff:0a4d:0002", "::", "localhost", "0.0.0.0", "127.0.0.1", "10.77.0.1", "10.77.0.99", "255.255.255.255", "10.77.0.255", "224.0.0.1", "1.2.3.4", ALL, "0" * 40, "F" * 40, "f" * 39, "f" * 41,
         "g" * 40, "f" * 38, "f" * 42, "0x" + "f" * 38, "f" * 80, "ff", "é" * 20, "f" * 40 + " ", "list", "-d", "--", "%s%s%s%n", "\n", "x" * 5000, "~", "*", "\t", "--secret"]
COMMANDS = ["list", "share", "clean", "get", "chims"]


def odd_command(r):
    """Any words."""
    name = r.choice(COMMANDS + COMMANDS + ["", "LIST", "help", "-x", "--help", "-h", "--", "-", "x" * 1000, "list ", "\n", "ünknown", "-d=maybe", "--d=0"])
    words = [r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 20]))]
    if name == "chims" and (not words or re.fullmatch("[0-9a-fA-F]{40}", words[0])):
        words = ["x"] + words      # (takes long otherwise)
    if name == "get" and len(words) == 1 and re.fullmatch("[0-9a-fA-F]{40}", words[0]):
        words = words * 2
    if name == "share" and len(words) == 1:
        if words[0] in ("", "..", "~", ".") or r.random() < 0.5:
            words[0] = "/nowhere/" + words[0]
    if name.startswith("-") and name not in ("--", "-") and "d" in name.split("=")[0] and not re.search("=(maybe|0)$", name):
        name = "-x"
    if name.startswith("-") and name not in ("--", "-"):
        words = [w for w in words if not re.match("--?d", w)]  # (starts a daemon)
    args = []
    for k, w in enumerate(words):
        w = w.replace("\0", "")
        args.append((ip_arg if name == "list" and k == 0 else hash_arg)(w))
    if name == "list" and len(args) and args[0]["Kind"] == "ip" and args[0]["Is"] in ("1.2.3.4", "10.77.0.99"):
        args = args[:1]
    return cmd(name, *args)


def session(r, hosts, got, slow):
    """A random session."""
    def held(c):
        x = MANY[c]
        return some_chunks(r, -(-x["Size"] // x["CSize"]))
    cs = list(range(len(MANY)))
    r.shuffle(cs)
    entries = []
    for k, c in enumerate(cs[:r.choice([0, 0, 1, 2, 4])]):
        entries.append({"C": c, "Held": None if MANY[c]["CSize"] == 4 << 20 else held(c), "Name": "e%d %s" % (k, r.choice(["", "ü", "%d", "x" * 50]))})
    names = ["s/p", "s/q", "s/a b", "s/dir"] + ["s/" + e["Name"] for e in entries if e["Held"] is None] + [".flu-network/downloads/" + e["Name"] for e in entries if e["Held"] is not None]
    steps = []
    up, online = True, True
    ips = [SELF, "127.0.0.1", "0.0.0.0", "::ffff:10.77.0.2"] + ["10.77.0.%d" % h["IP"] for h in hosts] * 2 + ["10.77.0.99"]
    hs = got + ["#%d" % c for c in cs] + [ALL, some_hash(r)]
    def h():
        x = r.choice(hs)
        return content(int(x[1:])) if x.startswith("#") else hash_arg(x.upper() if r.random() < 0.2 else x)
    listing = {"10.77.0.%d" % x["IP"]: x["List"] for x in hosts}
    answers = 1 + sum(x["Disc"] for x in hosts)
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if x < 0.2:
            steps.append({"Op": "write", "Path": r.choice(names[:3]), "C": r.randrange(len(MANY))} if r.random() < 0.7 else {"Op": r.choice(["remove", "remove", "mkdir"]), "Path": r.choice(names)})
        elif x < 0.45:
            steps.append(cmd("share", path(r.choice(names), r.randrange(6))))
        elif x < 0.55:
            steps.append(cmd("list"))
        elif x < 0.65:
            steps.append(odd_command(r))
        elif x < 0.72:
            steps.append(cmd("clean"))
        elif x < 0.74:
            if up:
                steps.append({"Op": "stop", "C": r.choice([0, 0, 1, 2, 3])})
                for _ in range(r.randint(0, 3)):
                    steps.append(r.choice([cmd("list"), cmd("clean"), cmd("chims"), cmd("\0"), cmd("get", content(0)), cmd("share", path("s/p")), odd_command(r)]))
            steps.append({"Op": "start"})
            up = True
        elif x < 0.76:
            online = not online
            steps.append({"Op": "online" if online else "offline"})
        elif x < 0.78:
            fast = [cmd("list"), cmd("list", ip_arg("127.0.0.1"), sure=1), cmd("\0"), cmd("list", ip_arg("x")), cmd("get"), cmd("list", ip_arg(SELF), h(), sure=1) if online else cmd("list")]
            steps.append({"Op": "burst", "Burst": [r.choice(fast) for _ in range(r.randint(2, 8))] + ([cmd("chims", sure=answers)] if slow and online else [])})
        elif x < 0.95 or not slow:
            ip = r.choice(ips)
            good = ip in (SELF, "127.0.0.1", "0.0.0.0", "::ffff:10.77.0.2") or listing.get(ip) == "ok"
            if not good and not slow and listing.get(ip) not in ("cut", "type", "junk"):
                continue
            steps.append(cmd("list", ip_arg(ip), *([h()] if r.random() < 0.4 else []), sure=1 if good and online else 0))
        else:
            k = r.random()
            if k < 0.35:
                steps.append(cmd("chims", *([h()] if r.random() < 0.6 else []), sure=answers if online else 0))
            elif k < 0.9:
                a = h()
                s = sources(hosts, a["Is"])
                steps.append(cmd("get", a, sure=1 if s and online and all(x["List"] == "ok" for x in s) else 0))
                steps.append(cmd("list"))
            else:
                steps.append({"Op": "abort", "Cmd": r.choice(["chims", "get"]), "Args": [hash_arg(some_hash(r))], "Timeout": r.choice([0.02, 0.3])})
    return {"Entries": entries, "Steps": steps}


def L01(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, flu, frace, gen = in_parallel([lambda: build_driver(ctx), lambda: build_repo(ctx), lambda: build_repo(ctx, race=True), lambda: generate(ctx, "GenCli")])
    r.shuffle(gen)
    total = len(gen)
    gen = gen[:240 if q else 4000]
    jobs = []
    for k in range(8 if q else 24):
        hosts, got = network(r)
        hosts[0]["List"] = "ok"
        per = len(gen) // (8 if q else 24)
        hist = [generated(g) for g in gen[k * per:(k + 1) * per]]
        hist += [session(r, hosts, got, False) for _ in range(20 if q else 100)] + [session(r, hosts, got, True) for _ in range(6 if q else 30)]
        if k == 0:
            hist.append({"Entries": [], "Steps": [{"Op": "stop", "C": c} if x is None else x for c in (0, 1, 2, 3) for x in (None, cmd("list"), cmd("\0"), cmd("x"), cmd("get"), cmd("chims"))]})
            hist.append({"Entries": [], "Steps": [odd_command(r) for _ in range(120)]})
        jobs.append({"Seed": r.randrange(1 << 40), "Contents": MANY, "Hosts": hosts, "Histories": hist})
    traces = []
    for lo in range(0, len(jobs), 8):
        traces += sum(in_parallel([lambda k=k: run_cli(ctx, drv, [flu, flu, flu, frace][k % 4], "cli%d" % k, jobs[k]) for k in range(lo, min(lo + 8, len(jobs)))]), [])
    judge_cli(ctx, traces)
    return "model_checking", ("sessions of the real client with the real daemon (a quarter of them with the race detector): those TLC generates (%d of %d in this run: one per "
                              "transition of a catalogue with changing files, a daemon that stops and starts, a network that goes and comes), and random ones with any words as arguments, prepared "
                              "catalogues, and other nodes with files, nonsense or silence. Output, exit status, files and catalogue after every command are judged by TLC against Cli.tla. "
                              "Distinct = distinct sessions." % (len(gen), total))


# ------------------------------------------------------------------ S01: lives of a daemon
QUICK = [cmd("list"), cmd("list", ip_arg("127.0.0.1"), sure=1), cmd("\0"), cmd("list", ip_arg("x")), cmd("clean")]
SIGNALS = [0, 0, 15]       # how it ends; 0: killed


def life(r, g):
    """A life as TLC generated it."""
    big = r.random() < 0.25      # commands that take a while
    steps = [{"Op": "write", "Path": "s/p", "C": 3 if big else 0}, {"Op": "write", "Path": "s/q", "C": 9 if big else 1}]
    up = True
    for e in g:
        o = e["op"]
        end = {"C": e.get("left", 0), "Sure": r.choice(SIGNALS)}
        if o == "share":
            steps.append(cmd("share", path(e["path"])))
        elif o == "clean":
            steps.append(cmd("clean"))
        elif o == "remove":
            steps.append({"Op": "remove", "Path": e["path"]})
        elif o == "start":
            steps += [{"Op": "start"}] + ([cmd("list"), cmd("list", ip_arg(r.choice([SELF, "127.0.0.1"])), sure=1)] if r.random() < 0.6 else [])
            up = True
        elif o == "stop":
            steps.append(dict(end, Op="stop"))
            up = False
        elif o == "flash":
            steps.append(dict(end, Op="flash", Timeout=r.choice([0, 0.001, 0.003, 0.005, 0.008, 0.012, 0.02, 0.05])))
        elif o == "second":
            steps += [second(r, r.choice([1, 1, 2])), cmd("list"), cmd("list", ip_arg("127.0.0.1"), sure=1)]
        elif o == "fresh":
            steps.append({"Op": "fresh"})
        elif o == "cut":
            b = [cmd("share", path(p)) for p in e["share"]] + ([cmd("clean")] if e["clean"] else [])
            steps.append(dict(end, Op="cut", Burst=b, Timeout=r.choice([0, 0.002, 0.005, 0.01, 0.015, 0.02, 0.03, 0.05, 0.1])))
            up = False
    return {"Entries": [], "Steps": steps + ([] if up else [{"Op": "start"}]) + [cmd("list"), cmd("list", ip_arg("127.0.0.1"), sure=1)]}


def second(r, n=1, cmds=()):
    return {"Op": "second", "C": n, "Burst": list(cmds)}


def long_life(r):
    """A random one, with a catalogue from the start."""
    cs = list(range(len(CONTENTS)))
    r.shuffle(cs)
    entries = []
    for k, c in enumerate(cs[:r.choice([0, 1, 3])]):
        n = -(-CONTENTS[c]["Size"] // CONTENTS[c]["CSize"])
        entries.append({"C": c, "Held": None if CONTENTS[c]["CSize"] == 4 << 20 else sorted(r.sample(range(n), r.randint(0, n))), "Name": "e%d" % k})
    names = ["s/p%d" % k for k in range(8)]
    steps = []
    for _ in range(r.randint(2, 5)):
        for p in r.sample(names, 5):
            steps.append({"Op": "write", "Path": p, "C": r.choice([0, 1, 2, 4, 5, 6, 7, 8, 0, 1, 5, 6, 3, 9])})
        for _ in range(r.randint(0, 3)):
            steps.append(r.choice([cmd("share", path(r.choice(names))), cmd("list"), cmd("clean"), second(r, 1, r.sample(QUICK, 2) + [cmd("share", path(r.choice(names)))]),
                                   {"Op": "remove", "Path": r.choice(names)}]))
        end = {"C": r.choice([0, 0, 1, 2, 3]), "Sure": r.choice(SIGNALS)}
        b = [cmd("share", path(p)) for p in r.sample(names, r.randint(1, 6))] + ([cmd("clean")] if r.random() < 0.3 else [])
        steps.append(dict(end, Op="cut", Burst=b, Timeout=r.uniform(0, 0.08)))
        for _ in range(r.choice([0, 0, 1, 2])):
            steps.append({"Op": "flash", "C": r.choice([0, 0, 1, 2, 3]), "Sure": r.choice(SIGNALS), "Timeout": r.uniform(0, 0.02)})
        steps += [{"Op": "start"}, cmd("list"), cmd("list", ip_arg(SELF), sure=1)]
    return {"Entries": entries, "Steps": steps}


def S01(ctx):
    r = ctx.rng
    q = ctx.quick
    drv, flu, frace, gen = in_parallel([lambda: build_driver(ctx), lambda: build_repo(ctx), lambda: build_repo(ctx, race=True), lambda: generate(ctx, "GenLife")])
    r.shuffle(gen)
    total = len(gen)
    gen = gen[:400 if q else total]
    n = 8
    jobs = []
    for k in range(n):      # (the first with the race detector, which is slow)
        part = gen[:len(gen) // 24] if k == 0 else gen[len(gen) // 24 + k - 1::n - 1]
        hist = [life(r, g) for g in part] + [long_life(r) for _ in range((12 if q else 150) // (3 if k == 0 else 1))]
        jobs.append({"Seed": r.randrange(1 << 40), "Contents": CONTENTS + [{"Size": 5 << 20, "CSize": 4 << 20}], "Hosts": [], "Histories": hist})
    traces = sum(in_parallel([lambda k=k: run_cli(ctx, drv, frace if k == 0 else flu, "life%d" % k, jobs[k]) for k in range(n)]), [])
    judge_cli(ctx, traces)
    return "model_checking", ("lives of the real daemon: those TLC generates from GenLife.tla (%d of %d in this run: starts with new and old homes and whatever is left of the socket, ends at rest, at "
                              "work and while starting, by different signals, and further daemons started meanwhile), and random ones with more commands at once. Commands between are judged, "
                              "and the catalogue after every step, by TLC against Life.tla and Cli.tla. Distinct = distinct sessions." % (len(gen), total))
