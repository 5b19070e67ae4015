"""C01-C09: the catalogue. Specification: Catalogue.tla, CatOps.tla."""
import base64, json, os, collections
from vf import *
from p_disc import in_parallel, short


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode()).decode()


def op(o, **k):
    for f in ("Path", "Name"):
        if f in k:
            k[f] = b64(k[f])
    return dict({"Op": o, "C": -1}, **k)


NAMES = ["n1", "n2", "n1", "n3", "N1", "../n1", "../../../../etc/n1", "a/b/n2", "/n1", "n1/", "n2//", "./n1", ".hidden", "n1.tmp", "index.json",
         b"\xff\xfen", "\u00fcn\u00ef", " n 1 ", "a\nb", "x" * 255, "..n", "...", "n\"q\\", "%s%d", "~", "$HOME", "cat", "a\\b", "<&>", "\u2028"]
BADNAMES = [".", "..", "", "/", "//", "a/..", "a/.", "a\0b", "../..", "\0"]
BADDIMS = ["more", "fewer", "zero", "zeroall", "huge", "negative", "many", "wrap", "wide"]
WRONG = ["flip", "cut", "append"]


# ------------------------------------------------------------------ histories from the specification
def concrete(ctx, abstract, extra=()):
    """A generated history of GenCatalogue.tla, made concrete; None if it needs a path that only the code knows."""
    r = ctx.rng
    u = r.choice([1, 5, 1000, 4096])
    def cont():
        return {"Size": 2 * u if u == 1 or r.random() < .5 else u + r.randint(1, u - 1), "CSize": u}
    h = {"Seed": r.randrange(1 << 30), "Contents": [cont(), cont()]}
    C = {"A": 0, "B": 1}
    ops = [op("outside", Kind="write", Path="s/s1", C=0), op("outside", Kind="write", Path="s/s2", C=1)]
    def path(p):
        return ("s/" if p[0] == "s" else "dl/") + p
    for e in abstract:
        if "+" in e.get("path", ""):
            return None
        o = e["op"]
        if o == "share":
            p = path(e["path"])
            ops.append(op("share", Path=r.choice([p, p, p.replace("/", "//"), "s/.././" + p])))
        elif o == "register":
            n = e["name"]
            ops.append(op("register", C=C[e["c"]], Name=r.choice([n, n, "../" + n, "a/" + n, n + "/"]),
                          Dims="" if e["good"] else r.choice(BADDIMS)))
        elif o == "save":
            ops.append(op("save", C=C[e["c"]], Chunk=e["chunk"],
                          Data=("good" if e["good"] else "other") if r.random() < .9 else r.choice(["short", "long", "empty"])))
        elif o == "unshare":
            ops.append(op("unshare", C=C[e["c"]]))
        elif o == "clean":
            ops.append(op("clean"))
        elif o == "reopen":
            ops.append(op(r.choice(["reopen", "moved"])))
        elif o == "outside":
            p = path(e["path"])
            if e["c"] in C:
                ops.append(op("outside", Path=p, Kind=r.choice(["write", "write", "link"]), C=C[e["c"]]))
            elif e["c"] == "junk":
                ops.append(op("outside", Path=p, Kind=r.choice(WRONG), Chunk=r.randrange(1 << 20)))
            else:
                ops.append(op("outside", Path=p, Kind=r.choice(["remove", "remove", "dir", "fifo"])))
    h["Ops"] = ops + list(extra)
    return h


# ------------------------------------------------------------------ random histories
def random_history(ctx, n, focus="", csizes=(1, 2, 7, 64, 1000, 4096, 65536), ncont=5):
    r = ctx.rng
    cs = []
    for i in range(ncont):
        c = r.choice(csizes)
        cs.append({"Size": r.choice([0, 1, c, c + 1, max(1, c - 1), 2 * c, 3 * c + 1, 5 * c - 1, r.randint(1, 70) * c + r.randint(0, c - 1)]), "CSize": c})
    files = ["s/f1", "s/f2", "s/f11", "s/F1", "s/d/f3", b"s/\xfff", "s/f 4"]
    holds, reg, names = {}, {}, {}
    ops = []
    for k in range(r.randint(2, 4)):
        p, c = r.choice(files), r.randrange(ncont)
        holds[p] = c
        ops.append(op("outside", Kind=r.choice(["write", "write", "write", "link"]), Path=p, C=c))
    weights = {"share": 8, "register": 9, "save": 22, "unshare": 5, "contains": 3, "list": 1, "missing": 2, "complete": 2,
               "rehash": 2, "reader": 6, "reopen": 3, "moved": 1, "clean": 2, "outside": 5, "snapshot": 2, "reread": 2, "fill": 2}
    for w, x in {"C01": {"register": 14, "unshare": 9, "share": 14}, "C02": {"reopen": 8, "moved": 6}, "C05": {"save": 40, "fill": 5},
                 "C06": {"save": 50, "outside": 2, "fill": 4}, "C08": {"clean": 8, "outside": 14, "fill": 5, "unshare": 1},
                 "C09": {"snapshot": 14, "reread": 14}}.get(focus, {}).items():
        weights[w] = x
    kinds, ws = list(weights), list(weights.values())
    snaps = 0
    while len(ops) < n:
        o = r.choices(kinds, ws)[0]
        c = r.choice(list(reg)) if reg and r.random() < .7 else r.randrange(ncont)
        if o == "share":
            p = r.choice(list(holds) + files) if r.random() < .85 else r.choice(["s/none", "s", "s/d", "dl/" + r.choice(["n1", "n2", "n3"]), "dl"])
            ops.append(op("share", Path=p if isinstance(p, bytes) or r.random() < .8 else r.choice(["./" + p, p.replace("/", "///"), "o/../" + p])))
        elif o == "register":
            c = r.randrange(ncont)
            bad = r.random()
            nm = r.choice(BADNAMES) if bad < .07 else r.choice(NAMES)
            dm = r.choice(BADDIMS) if .07 < bad < .15 else ""
            ops.append(op("register", C=c, Name=nm, Dims=dm))
            if bad >= .15:
                reg[c] = set()
                names[c] = nm
        elif o == "save":
            nch = -(-cs[c]["Size"] // cs[c]["CSize"])
            missing = [x for x in range(min(nch, 200)) if x not in reg.get(c, ())]
            k = r.choice(missing) if missing and r.random() < .8 else r.choice([0, max(0, nch - 1), nch, nch + 1, 65535])
            d = r.choices(["good", "other", "short", "long", "empty"], [85, 5, 4, 4, 2])[0]
            if d == "short" and cs[c]["Size"] == 0:
                d = "long"
            ops.append(op("save", C=c, Chunk=min(k, 65535), Data=d))
            if c in reg and d == "good":
                reg[c].add(k)
        elif o == "fill":
            if c in reg:
                nch = -(-cs[c]["Size"] // cs[c]["CSize"])
                todo = [x for x in range(nch) if x not in reg[c]]
                r.shuffle(todo)
                for k in todo[:12]:
                    ops.append(op("save", C=c, Chunk=k, Data="good"))
                    reg[c].add(k)
        elif o in ("unshare", "contains", "missing", "complete", "rehash"):
            ops.append(op(o, C=c))
            if o == "unshare":
                reg.pop(c, None)
        elif o == "reader":
            nch = -(-cs[c]["Size"] // cs[c]["CSize"])
            ops.append(op("reader", C=c, Chunk=r.choice(list(reg[c])) if reg.get(c) and r.random() < .7 else r.choice([0, nch - 1 if nch else 0, nch, 65535, 1 << 20])))
        elif o in ("list", "reopen", "moved", "clean"):
            ops.append(op(o))
            if o in ("reopen", "moved") and reg and r.random() < .5:     # the first that is asked of it
                c = r.choice(list(reg))
                nm = names[c].encode() if isinstance(names[c], str) else names[c]
                nm = nm.rstrip(b"/").split(b"/")[-1]
                missing = [x for x in range(min(200, -(-cs[c]["Size"] // cs[c]["CSize"]))) if x not in reg[c]]
                kind = r.choice(["share", "share", "save", "again", "ask"])
                if kind == "share" and nm and nm not in (b".", b"..") and b"\0" not in nm:
                    ops.append(op("share", Path=b"dl/" + nm))
                elif kind == "save" and missing:
                    k = r.choice(missing)
                    ops.append(op("save", C=c, Chunk=k, Data="good"))
                    reg[c].add(k)
                elif kind == "again":
                    ops.append(op("register", C=c, Name=names[c]))
                else:
                    ops.append(op(r.choice(["unshare", "contains", "missing", "complete", "rehash", "reader"]), C=c, Chunk=0))
                    if ops[-1]["Op"] == "unshare":
                        reg.pop(c)
        elif o == "snapshot":
            snaps += 1
            ops.append(op("snapshot", C=c, Chunk=snaps))
        elif o == "reread" and snaps:
            ops.append(op("reread", Chunk=r.randint(max(1, snaps - 5), snaps)))
        elif o == "outside":
            if r.random() < .5 or not names:
                p = r.choice(files)
            else:
                nm = names[r.choice(list(names))]
                nm = nm.encode() if isinstance(nm, str) else nm
                nm = nm.rstrip(b"/").split(b"/")[-1]
                if len(nm) < 1 or nm in (b".", b"..") or b"\0" in nm:
                    continue
                p = b"dl/" + nm
            kind = r.choices(["write", "remove", "dir", "fifo", "flip", "cut", "append", "link"], [8, 5, 1, 1, 4, 2, 2, 1])[0]
            if p[:3] == b"dl/" and r.random() < .25 and p.swapcase() != p:      # a file whose path is like that of a download, and then shared
                p = b"dl/" + p[3:].swapcase()
                ops.append(op("outside", Kind="write", Path=p, C=r.randrange(ncont)))
                ops.append(op("share", Path=p))
                continue
            if kind == "link" and bytes(p if isinstance(p, bytes) else p.encode()).startswith(b"dl/"):
                kind = "write"
            # a source directory or fifo may be in the way of its children: s/d/f3 has a directory of its own
            ops.append(op("outside", Kind=kind, Path=p, C=r.randrange(ncont), Chunk=r.randrange(1 << 20)))
    return {"Seed": r.randrange(1 << 30), "Contents": cs, "Ops": ops}


def big_histories(ctx):
    """Histories with many chunks or large files."""
    r = ctx.rng
    hs = []
    # 65536 chunks
    n = 65536
    for c in ([{"Size": n, "CSize": 1}], [{"Size": 3 * n - 1, "CSize": 3}]):
        ks = sorted(set([0, 1, 63, 64, 4095, 32767, 32768, 65534, 65535] + [r.randrange(n) for _ in range(6)]))
        r.shuffle(ks)
        o = [op("register", C=0, Name="big")]
        for k in ks:
            o.append(op("save", C=0, Chunk=k, Data="good"))
        o += [op("missing", C=0), op("reader", C=0, Chunk=ks[0]), op("save", C=0, Chunk=ks[0], Data="good"), op("reopen"), op("complete", C=0), op("list")]
        hs.append({"Seed": r.randrange(1 << 30), "Contents": c, "Ops": o, "Lean": True})
    # chunks beyond the 4 GB and 2 GB marks, and chunk numbers with the highest bit set
    for size, csize in ((5 << 30, 65537 * 3), (65535 * 70001 + 5, 70001), (65536 * 32769, 32769)):
        nch = -(-size // csize)
        ks = sorted(set([0, 1, nch - 1, nch // 2] + [min(nch - 1, -(-(g << 30) // csize) + d) for g in (1, 2, 4) for d in (-1, 0)] + [r.randrange(nch) for _ in range(3)]))
        r.shuffle(ks)
        o = [op("register", C=0, Name="huge")]
        for k in ks:
            o += [op("save", C=0, Chunk=k, Data="good"), op("reader", C=0, Chunk=k)]
        o += [op("missing", C=0), op("reader", C=0, Chunk=ks[0]), op("reopen"), op("reader", C=0, Chunk=ks[1]), op("list")]
        hs.append({"Seed": r.randrange(1 << 30), "Contents": [{"Size": size, "CSize": csize}], "Ops": o, "Lean": True})
    # files of several real chunks
    M4 = 1 << 22
    for size in (M4, M4 + 1, M4 - 1, 2 * M4 + 12345):
        c = [{"Size": size, "CSize": M4}]
        nch = -(-size // M4)
        o = [op("outside", Kind="write", Path="s/f", C=0), op("share", Path="s/f"), op("reader", C=0, Chunk=nch - 1), op("reader", C=0, Chunk=nch),
             op("unshare", C=0), op("register", C=0, Name="f")]
        ks = list(range(nch))
        r.shuffle(ks)
        for k in ks:
            o += [op("save", C=0, Chunk=k, Data="good"), op("reader", C=0, Chunk=k)]
        o += [op("rehash", C=0), op("clean"), op("reopen"), op("outside", Kind="cut", Path="dl/f"), op("reader", C=0, Chunk=nch - 1), op("clean")]
        hs.append({"Seed": r.randrange(1 << 30), "Contents": c, "Ops": o, "Lean": True})
    return hs


# ------------------------------------------------------------------ running and judging
def drive_histories(ctx, drv, cmd, job, timeout=300):
    work = ctx.path(cmd + "-%d" % ctx.rng.randrange(1 << 40))
    os.makedirs(work)
    with open(work + ".job", "w") as f:
        json.dump(dict(job, Work=work), f)
    st, o, e = drive(ctx, drv, [cmd, work + ".job", work + ".out"], timeout=timeout)
    if st != "ok":
        bad_end(ctx, st, e)
        return None
    return json.load(open(work + ".out"))


def judge(ctx, traces, what="an operation is not as specified"):
    traces = [t for t in traces if t]
    for t in traces:
        ctx.evaluations += len(t)
        ctx.nontrivial([[e.get(k) for k in ("op", "path", "hash", "ok", "chunk", "mode", "call", "len", "base")] for e in t])
    ops = collections.Counter(e["op"] + ("" if e.get("ok", True) else "-") for t in traces for e in t)
    ctx.extra["operations"] = {k: ctx.extra.get("operations", {}).get(k, 0) + v for k, v in ops.items()}
    for t in traces[::max(1, len(traces) // 2)]:
        ctx.sample([{k: v for k, v in short(e).items() if k not in ("fs", "live", "disk")} for e in t[:8]])
    for i, at in sorted(validate(ctx, "TraceCatalogue", traces, timeout=700, heap="12g", chunk=1500))[:10]:
        ev = traces[i][at] if at is not None and at < len(traces[i]) else {"op": "?"}
        brief = {k: v for k, v in short(ev).items() if k not in ("fs", "live", "disk")}
        ctx.violation("%s: %s" % (what, json.dumps(brief)[:600]), traces[i][:(at or 0) + 1])


def generated(ctx, n, want=None, extra=lambda: ()):
    gen = generate(ctx, "GenCatalogue")
    ctx.extra["behaviours_enumerated"] = len(gen)
    gen = [g for g in gen if want is None or want(g)]
    hs = []
    for g in ctx.rng.sample(gen, min(len(gen), n * 2)):
        h = concrete(ctx, g, extra())
        if h:
            hs.append(h)
        if len(hs) == n:
            break
    return hs


RULE = ("histories of catalogue operations on the real catalogue: %d behaviours drawn from those TLC enumerates from GenCatalogue.tla (all "
        "histories of up to 5 operations on two contents, two source files and two download names), and %d random longer ones over files "
        "of 0 bytes to 8 MB and up to 65536 chunks, with files changed from outside, restarts and moves of the data directory; after every "
        "operation the files, the live catalogue and the catalogue reopened from disk are judged by TLC against CatOps.tla. "
        "Distinct = distinct histories.")


def _seq(ctx, want=None, extra=lambda: (), ngen=(500, 12000), nrand=(90, 1500), big=True, oplen=(15, 60)):
    drv = build_driver(ctx)
    hs = generated(ctx, ngen[0 if ctx.quick else 1], want, extra)
    g = len(hs)
    for h in hs[::3]:
        h["Shy"] = True
    for k in range(nrand[0 if ctx.quick else 1]):
        hs.append(random_history(ctx, ctx.rng.randint(*oplen), ctx.prop))
        hs[-1]["Shy"] = k % 3 == 0
    if big:
        hs += big_histories(ctx)
    tr = []
    for lo in range(0, len(hs), 2000):
        tr += drive_histories(ctx, drv, "cat", {"Histories": hs[lo:lo + 2000]}) or []
    judge(ctx, tr)
    return "model_checking", RULE % (g, len(hs) - g)


def C01(ctx):
    return _seq(ctx)


def C02(ctx):
    return _seq(ctx, extra=lambda: [op(ctx.rng.choice(["reopen", "moved"]))])


def C05(ctx):
    return _seq(ctx, want=lambda g: any(e["op"] in ("save", "share") for e in g))


def C08(ctx):
    return _seq(ctx, extra=lambda: [op("clean"), op("reopen")])


def C09(ctx):
    def extra():
        return [op("snapshot", C=0, Chunk=1), op("snapshot", C=1, Chunk=2), op("unshare", C=0), op("register", C=0, Name="n9"),
                op("save", C=0, Chunk=0, Data="good"), op("save", C=1, Chunk=0, Data="good"), op("save", C=1, Chunk=1, Data="good"),
                op("reread", Chunk=1), op("reread", Chunk=2), op("reopen"), op("reread", Chunk=2)]
    return _seq(ctx, extra=extra, ngen=(350, 8000))


# ------------------------------------------------------------------ what earlier versions have stored
def stored_bytes(count, held):
    """As Stored.tla has it (and judges it)."""
    words = [0] * ((count + 63) // 64)
    for k in held:
        words[k // 64] |= 1 << (k % 64)
    return list(count.to_bytes(8, "big") + b"".join(w.to_bytes(8, "big") for w in words))


def stored_history(ctx, g):
    """A stored catalogue with (two of) the given downloads in it, and then anything."""
    r = ctx.rng
    h = random_history(ctx, r.randint(4, 14), "C02", csizes=(1, 7, 64), ncont=2)
    ops = [o for o in h["Ops"] if o["Op"] == "outside" and bytes(base64.b64decode(o["Path"]))[:2] == b"s/" and o["Kind"] == "write"][:2]
    rest = [o for o in h["Ops"] if o not in ops]
    entries, seen = [], set()
    for o in ops:       # shared files
        p = base64.b64decode(o["Path"])
        c = o["C"]
        s = h["Contents"][c]["Size"]
        if c in seen or s == 0 or p in (b"s/\xff" b"f",) or r.random() < .4 or any(x["Path"] == o["Path"] for x in entries):
            continue
        seen.add(c)
        entries.append({"C": c, "CSize": 4 << 20, "Path": o["Path"], "Held": [0], "Bytes": stored_bytes(1, [0])})
    # (a path is written once, at most)
    keep, paths = [], set()
    for o in ops:
        if o["Path"] not in paths:
            keep.append(o)
            paths.add(o["Path"])
        else:
            entries = [x for x in entries if x["Path"] != o["Path"]]
    for k, x in enumerate(g):       # downloads
        u = r.choice([1, 3, 1000]) if x["count"] < 400 else 2
        h["Contents"].append({"Size": x["count"] * u - (r.randrange(u) if x["count"] > 1 or u > 1 else 0), "CSize": u})
        entries.append({"C": len(h["Contents"]) - 1, "CSize": u, "Path": op("outside", Path="dl/e%d" % k)["Path"], "Held": sorted(x["held"]), "Bytes": x["bytes"]})
        c = len(h["Contents"]) - 1
        missing = sorted(set(range(x["count"])) - set(x["held"]))
        mine = [op("contains", C=c), op("complete", C=c), op("missing", C=c), op("rehash", C=c)]
        for j in ([r.choice(missing)] if missing else []) + ([r.choice(sorted(x["held"]))] if x["held"] else []):
            mine += [op("reader", C=c, Chunk=j), op("save", C=c, Chunk=j, Data="good"), op("reader", C=c, Chunk=j)]
        if missing and len(missing) < 12:
            mine += [op("save", C=c, Chunk=j, Data="good") for j in missing] + [op("complete", C=c)]
        mine += [op(r.choice(["reopen", "moved", "clean", "list"]))] + ([op("unshare", C=c)] if r.random() < .3 else [])
        rest[0:0] = mine
    r.shuffle(entries)
    h["Ops"] = keep + [op("stored", Entries=entries)] + rest
    return h


def C10(ctx):
    q = ctx.quick
    r = ctx.rng
    drv, gen = build_driver(ctx), generate(ctx, "GenStored")
    r.shuffle(gen)
    hs = []
    for turn in range(1 if q else 4):
        gs = list(gen)
        while gs:
            hs.append(stored_history(ctx, [gs.pop() for _ in range(min(len(gs), r.choice([1, 1, 2, 3])))]))
    for n in (4096, 65535, 65536) if q else (1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536):
        held = {0, n - 1}
        for _ in range(60):
            a = r.randrange(n)
            held ^= set(range(a, min(n, a + r.choice([1, 2, 63, 64, 65, 1000]))))
        h = stored_history(ctx, [{"count": n, "held": held, "bytes": stored_bytes(n, held)}])
        h["Lean"] = True
        h["Ops"] = [o for o in h["Ops"] if o["Op"] != "clean"][:14]
        hs.append(h)
    hs.append({"Seed": 1, "Contents": [{"Size": 1, "CSize": 1}], "Ops": [op("stored", Entries=[]), op("list")]})
    tr = drive_histories(ctx, drv, "cat", {"Histories": hs}) or []
    judge(ctx, tr, "a catalogue that was stored by an earlier version is not what it was")
    return "model_checking", (
        "catalogues stored as the first version stores them (Stored.tla has the format; GenStored.tla enumerates %d numbers of chunks and sets of held "
        "ones around all boundaries of bytes and words; also random ones of up to 65536 chunks, shared files, another directory's name), written byte by byte, "
        "opened with the real catalogue and used further; TLC reads the stored bytes and judges what is listed, held, complete, read, saved and stored again "
        "(TraceCatalogue.tla). Distinct = distinct histories." % len(gen))


# ------------------------------------------------------------------ crashes and failing calls
def scenarios(ctx, kinds=("share", "register", "save", "unshare", "init")):
    """Histories whose last operation is the one that is interrupted. Every last operation would succeed."""
    r = ctx.rng
    hs = []
    def H(contents, ops, **k):
        hs.append(dict({"Seed": r.randrange(1 << 30), "Contents": [{"Size": s, "CSize": c} for s, c in contents], "Ops": ops}, **k))
    W = lambda p, c: op("outside", Kind="write", Path=p, C=c)
    S = lambda p: op("share", Path=p)
    R = lambda c, n: op("register", C=c, Name=n)
    P = lambda c, k: op("save", C=c, Chunk=k, Data="good")
    U = lambda c: op("unshare", C=c)
    base = [(3000, 1000), (50, 7), (10, 10), (200000, 70000)]
    others = [W("s/f2", 2), S("s/f2"), R(1, "n1"), P(1, 0), P(1, 3)]
    if "init" in kinds:
        H(base, [op("init")])
    if "reopen" in kinds:
        H(base, others + [op("reopen")])
    if "read" in kinds:     # what only looks; a fault must not make it see something else
        held = others + [R(0, "n"), P(0, 0), P(0, 2), R(3, "m"), P(3, 1)]
        for o in (op("list"), op("contains", C=1), op("contains", C=3), op("rehash", C=2), op("rehash", C=1), op("reader", C=0, Chunk=2),
                  op("reader", C=3, Chunk=1), op("reader", C=2, Chunk=0), op("reopen")):
            H(base, held + [o])
        H(base, held + [op("reader", C=3, Chunk=1)], Last="warm")
    if "share" in kinds:
        H(base, [W("s/f", 0), S("s/f")])
        H(base, others + [W("s/f", 0), S("s/f")])
        H(base, others + [W("s/f", 0), S("s/f"), U(0), W("s/g", 0), S("s/g")])
        H(base, others + [R(0, "n2"), P(0, 1), U(0), W("s/f", 0), S("s/f")])
    if "register" in kinds:
        H(base, [R(0, "n")])
        H(base, others + [R(0, "n1")])
        H(base, others + [R(0, "n2"), P(0, 0), P(0, 1), U(0), R(0, "n2")])
        H(base, others + [W("s/f", 0), S("s/f"), U(0), R(0, "f")])
    if "save" in kinds:
        H(base, [R(0, "n"), P(0, 0)])
        H(base, others + [R(0, "n"), P(0, 2), P(0, 0)])
        H(base, others + [R(0, "n"), P(0, 0), P(0, 1), P(0, 2)])
        H(base, others + [P(1, 7)])
        H(base, others + [P(1, 0)])
        H(base, [R(3, "n"), P(3, 2), P(3, 1)], Last="warm")
        H(base, others + [op("outside", Kind="write", Path="dl/n", C=3), R(0, "n"), P(0, 2)])
        H(base, others + [R(0, "n"), P(0, 1), op("reopen"), P(0, 2)])
        H(base, others + [op("outside", Kind="write", Path="dl/n1", C=3), P(1, 7)])     # it is made shorter again
        H(base, [R(0, "n"), op("outside", Kind="write", Path="dl/n", C=3), P(0, 2), P(0, 1), P(0, 0)])
    if "unshare" in kinds:
        H(base, [W("s/f", 0), S("s/f"), U(0)])
        H(base, others + [U(1)])
        H(base, others + [U(2)], Last="warm")
        H(base, others + [R(0, "n"), U(0)])
    return hs


def _crash(ctx, modes, kinds, every, extra=()):
    drv = build_driver(ctx)
    finj = ctx.path("finj")
    rc, o, e = run(["gcc", "-O2", "-o", finj, os.path.join(VERIF, "tools", "finj.c")], 120)
    if rc != 0:
        raise CheckError("building finj failed:\n" + e)
    hs = scenarios(ctx, kinds) + list(extra)
    res = drive_histories(ctx, drv, "crash", {"Finj": finj, "Histories": hs, "Modes": modes, "Every": every}, timeout=600)
    if res is None:
        return
    if res["calls"] == 0 or res["hits"] == 0:
        raise CheckError("no file-system call was interfered with: %s" % {k: res[k] for k in ("hits", "calls")})
    ctx.extra.setdefault("interruptions", 0)
    ctx.extra["interruptions"] += res["hits"]
    ctx.extra["modes"] = modes
    judge(ctx, res["traces"], "an interrupted operation is not all or nothing")


def random_scenarios(ctx, n):
    """Random histories that end in an operation that changes something."""
    hs = []
    while len(hs) < n:
        h = random_history(ctx, ctx.rng.randint(6, 16), "C06", csizes=(7, 1000))
        h["Ops"] = [o for o in h["Ops"] if o["Op"] not in ("clean", "snapshot", "reread") and o.get("Data", "good") == "good" and
                    not o.get("Dims") and not (o["Op"] == "outside" and b"dl/" == base64.b64decode(o["Path"])[:3])]
        k = [i for i, o in enumerate(h["Ops"]) if o["Op"] in ("save", "unshare", "register")]
        if not k:
            continue
        h["Ops"] = h["Ops"][:k[-1] + 1]
        # a chunk that is there already is saved again with the same bytes; chunks beyond the end are another matter
        ok = all(o["Op"] != "save" or o["Chunk"] * h["Contents"][o["C"]]["CSize"] < h["Contents"][o["C"]]["Size"] for o in h["Ops"])
        if ok:
            hs.append(h)
    return hs


E = {"ENOSPC": 28, "EIO": 5, "EMFILE": 24, "EACCES": 13, "EDQUOT": 122}


def C03(ctx):
    q = ctx.quick
    tlc(ctx, "CatDisk")
    _crash(ctx, ["kill", "after", "torn:0", "torn:50", "torn:99"], ("share", "register", "save", "unshare", "init", "reopen"), 1,
           random_scenarios(ctx, 12 if q else 250))
    return "model_checking", (
        "CatDisk.tla (the catalogue's disk protocol, a crash between any two steps) checked by TLC; and operations of the real catalogue, "
        "in a process of their own, killed before, after and in the middle of each of their file-system calls (%d interruptions), the "
        "directory then reopened: what it shows is judged by TLC against TraceCatalogue.tla (the state before or after the operation), "
        "and so is everything done with it afterwards. Distinct = distinct histories with the point of interruption." % ctx.extra["interruptions"])


def C07(ctx):
    q = ctx.quick
    modes = ["err:%d" % E["EIO"], "full:%d" % E["ENOSPC"], "short:%d" % E["ENOSPC"]]
    if not q:
        modes += ["err:%d" % E["ENOSPC"], "err:%d" % E["EACCES"], "full:%d" % E["EDQUOT"], "full:%d" % E["EIO"], "err:%d" % E["EMFILE"]]
    _crash(ctx, modes, ("share", "register", "save", "unshare", "init", "read"), 1, random_scenarios(ctx, 8 if q else 150))
    return "model_checking", (
        "operations of the real catalogue, in a process of their own, during which one file-system call fails, or writes only half, or it "
        "and all later ones that need space fail (%d faults: every call of every operation); the live and the reopened catalogue after it, "
        "and after repeating the operation without the fault, are judged by TLC against TraceCatalogue.tla. Distinct = distinct histories "
        "with the fault." % ctx.extra["interruptions"])


def C06(ctx):
    r = _seq(ctx, want=lambda g: any(e["op"] == "save" for e in g), ngen=(350, 8000), nrand=(70, 1200))
    _crash(ctx, ["kill", "torn:50", "short:%d" % E["ENOSPC"], "full:%d" % E["ENOSPC"]] + ([] if ctx.quick else ["after", "torn:0", "err:5"]),
           ("save",), 1, random_scenarios(ctx, 4 if ctx.quick else 100))
    return r[0], r[1] + " Also %d crashes and failed calls while a chunk is saved." % ctx.extra["interruptions"]


# ------------------------------------------------------------------ concurrency
def conc_history(ctx, lanes, perlane):
    r = ctx.rng
    # contents 0-2 have source files, 3-5 are downloads
    cs = [{"Size": s, "CSize": 1000} for s in (1500, 10, 0 if r.random() < .2 else 5000)]
    cs += [{"Size": r.choice([1, 700, 3000]), "CSize": 700}, {"Size": 64 * r.choice([3, 65, 130]), "CSize": 64}, {"Size": 20, "CSize": 3}]
    pre = [op("outside", Kind="write", Path="s/f%d" % c, C=c) for c in range(3)] + [op("outside", Kind="write", Path="s/g0", C=0)]
    focus = r.choice([None, None, "one", "saves", "names"])
    def name(c): # no file ever comes to be where one of the first three is registered
        return ("m" if c < 3 else "n") + ("" if focus == "names" else str(r.randrange(3)))
    for c in range(6):
        if r.random() < .6:
            pre.append(op("share", Path="s/f%d" % c) if c < 3 else op("register", C=c, Name=name(c)))
    L = []
    hot = r.randrange(6)
    for l in range(lanes):
        o = []
        for k in range(perlane):
            c = hot if focus == "one" and r.random() < .8 else r.randrange(6)
            what = r.choices(["share", "register", "save", "unshare", "list", "contains", "rehash", "missing", "complete", "reader"],
                             [4, 4, 6, 4, 2, 2, 1, 2, 2, 2] if focus != "saves" else [0, 1, 20, 0, 2, 2, 0, 2, 2, 4])[0]
            if what in ("save", "missing", "complete", "reader") and r.random() < .8:
                c = hot if focus == "one" and hot >= 3 else r.randrange(3, 6)
            nch = max(1, -(-cs[c]["Size"] // cs[c]["CSize"]))
            if what == "share":
                c = c % 3
                o.append(op("share", Path="s/g0" if c == 0 and r.random() < .4 else "s/f%d" % c))
            elif what == "register":
                o.append(op("register", C=c, Name=name(c)))
            elif what == "save":
                o.append(op("save", C=r.randrange(3, 6) if c < 3 else c, Chunk=0, Data="good"))
                c2 = o[-1]["C"]
                nch = -(-cs[c2]["Size"] // cs[c2]["CSize"])
                o[-1]["Chunk"] = r.randrange(nch)
            elif what == "rehash":
                o.append(op("rehash", C=c % 3))
            elif what == "list":
                o.append(op("list"))
            elif what == "reader":
                o.append(op("reader", C=c, Chunk=r.randrange(nch)))
            else:
                o.append(op(what, C=c))
        L.append(o)
    return {"Seed": r.randrange(1 << 30), "Contents": cs, "Ops": pre, "Lanes": L}


def C04(ctx):
    drv, race = in_parallel([lambda: build_driver(ctx), lambda: build_driver(ctx, race=True)])
    q = ctx.quick
    jobs = [("plain", drv, [conc_history(ctx, ctx.rng.randint(2, 6), ctx.rng.randint(3, 7)) for _ in range(250 if q else 4000)]),
            ("race", race, [conc_history(ctx, ctx.rng.randint(2, 8), ctx.rng.randint(4, 8)) for _ in range(120 if q else 1500)])]
    traces = []
    for r in in_parallel([lambda j=j: drive_histories(ctx, j[1], "conc", {"Histories": j[2], "Workers": 4}, timeout=200 if q else 700) for j in jobs]):
        traces += r or []
    overlaps = 0
    for t in traces:
        ctx.evaluations += len(t["recs"])
        open_ = set()
        for w, k in t["ev"]:
            if w == "call":
                overlaps += len(open_)
                open_.add(k)
            else:
                open_.discard(k)
        ctx.nontrivial(t["ev"])
    ctx.extra["overlapping_pairs"] = overlaps
    ctx.sample([short(e) for e in traces[0]["recs"][:4]] if traces else [])
    for i, at in sorted(validate(ctx, "TraceConc", traces, timeout=800, heap="14g", chunk=1000))[:10]:
        t = traces[i]
        k = (at or 0) - len(t["pre"])
        what = "the return of %s" % json.dumps(short(t["recs"][t["ev"][k][1] - 1]))[:500] if 0 <= k < len(t["ev"]) else \
            "the final state" if k >= len(t["ev"]) else "a sequential operation"
        ctx.violation("a history of overlapping operations is not linearizable: no order explains " + what, t)
    return "model_checking", (
        "histories of up to 8 goroutines performing up to 8 catalogue operations each at the same time on few entries (also with the race "
        "detector), %d pairs of operations overlapping; TLC looks for a linearization of each against CatOps.tla and compares the final "
        "live and reopened catalogue and the bytes in the files. Distinct = distinct interleavings of calls and returns." % overlaps)
