"""Model checking of the specification itself, and scenarios generated from it."""
import concurrent.futures as cf
import json, os, re, tempfile, time
import families, mv

# Worlds of spec/MC.tla: connections, those up from the start, and what differs from the default
WORLDS = {
    "Match":    dict(conns=2, up=[1, 2]),
    "Overlap":  dict(conns=2, up=[1, 2]),
    "Order":    dict(conns=2, up=[1, 2]),
    "Requests": dict(conns=2, up=[1, 2]),
    "Qos2":     dict(conns=2, up=[1, 2]),
    "Pids":     dict(conns=2, up=[1, 2]),
    "First":    dict(conns=2, up=[1], first=True),
    "Takeover": dict(conns=3, up=[1, 2], first=True, ends=True),
    "Ends":     dict(conns=2, up=[1, 2], ends=True),
    "Stall":    dict(conns=2, up=[1, 2], ends=True, stalls=[1]),
    "Time":     dict(conns=3, up=[1, 2], first=True, subs=False, times=True),
    "All":      dict(conns=5, up=[1, 3], first=True, ends=True, stalls=[2, 3], times=True),
    "Int":      dict(conns=2, up=[1], ends=True, stalls=[1], interrupts=True, live=True),
}


INVARIANTS = """TypeOK C01_OnlyMatching C01_AllMatching C02_OneCopy C02_Qos C03_Content C04_Fifo C04_Agree
C07_Responses C07_AllAnswered C16_AnsweredBeforeEnd C09_Pids C10_Connack C10_NoEffect C13_Reason C13_Closed
C12_Newest C15_NotEarly C15_InTime C16_Noticed C17_AllClosed C14_NoDeadlock C20_Filters C21_Released C22_Welcome""".split()

# which worlds and statements make up a property
MODELS = {
    "C01": (["Match", "Overlap"], "C01_OnlyMatching C01_AllMatching"),
    "C02": (["Overlap"], "C02_OneCopy C02_Qos"),
    "C03": (["Match"], "C03_Content C01_AllMatching"),
    "C04": (["Order"], "C04_Fifo C04_Agree C01_AllMatching"),
    "C06": (["Match", "Requests"], "C01_OnlyMatching C01_AllMatching C07_Responses C07_AllAnswered"),
    "C07": (["Requests", "Qos2"], "C07_Responses C07_AllAnswered"),
    "C08": (["Qos2"], "C02_OneCopy C01_AllMatching C07_Responses"),
    "C09": (["Pids"], "C09_Pids C02_Qos"),
    "C10": (["First"], "C10_Connack C10_NoEffect C07_Responses"),
    "C11": (["First"], "C07_Responses C16_AnsweredBeforeEnd C13_Closed"),
    "C12": (["Takeover"], "C12_Newest C01_OnlyMatching C01_AllMatching"),
    "C13": (["First", "Ends"], "C13_Reason C13_Closed"),
    "C14": (["Stall"], "C14_NoDeadlock C01_AllMatching C07_AllAnswered"),
    "C15": (["Time"], "C15_NotEarly C15_InTime"),
    "C16": (["Ends"], "C16_Noticed C16_AnsweredBeforeEnd C01_AllMatching"),
    "C17": (["Int"], "C17_AllClosed C14_NoDeadlock"),
    "C19": (["Ends"], "C01_AllMatching"),
    "C20": (["Requests"], "C20_Filters C07_Responses C01_OnlyMatching"),
    "C21": (["Takeover", "Ends"], "C21_Released C01_OnlyMatching"),
    "C22": (["First", "Time"], "C22_Welcome C13_Reason"),
}


def world_config(name, deep, only, work, invariants=INVARIANTS, hasty=True):
    w = WORLDS[name]
    ids = lambda l: "{%s}" % ", ".join(map(str, l))
    t = ["SPECIFICATION M_Spec", "CONSTRAINT Short", "CHECK_DEADLOCK FALSE", "CONSTANTS",
         "  Conns = " + ids(range(1, w["conns"] + 1)), "  ConnectTime = 60000", "  Slack = 250",
         "  Menu <- %s_Menu" % name, "  Limit <- %s_Limit" % name,
         "  First <- %s" % (name + "_First" if w.get("first") else "Own"),
         "  Subs0 <- %s" % (name + "_Subs" if w.get("subs", True) else "None"),
         "  Ends <- %s" % (name + "_Ends" if w.get("ends") else "None"),
         "  Times <- %s" % (name + "_Times" if w.get("times") else "NoTimes"),
         "  Up = " + ids(w["up"]), "  Stalls = " + ids(w.get("stalls", [])),
         "  Interrupts = " + ("TRUE" if w.get("interrupts") else "FALSE"),
         "  Only = %d" % only, "  Deep = %d" % deep,
         "  Hasty = " + str(hasty).upper()]
    t += ["INVARIANT " + i for i in invariants]
    if w.get("live") and not only:
        t += ["PROPERTY C14_Rest", "PROPERTY C17_Exit"]
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".cfg", delete=False)
    with f:
        f.write("\n".join(t) + "\n")
    return f.name


# ---------------------------------------------- how the broker is built, and definitions given twice

def loop_config(world, deep, bug=""):
    w = LOOPS[world]
    ids = lambda l: "{%s}" % ", ".join(map(str, l))
    return ["SPECIFICATION L_Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS",
            "  Conns = " + ids(range(1, w["conns"] + 1)), "  ConnectTime = %d" % w.get("patience", 60000), "  Slack = 250",
            "  Dt = 500", "  MaxTime = %d" % w.get("time", 0), "  Keep0 <- " + (world + "_Keep" if w.get("time") else "NoKeep"),
            "  Cap = 1", "  QCap = %d" % w["qcap"], "  Up = " + ids(w["up"]), "  Name <- %s_Name" % world,
            "  Subs0 <- %s_Subs" % world, "  Menu <- %s_Menu" % world,
            "  Limit <- %s_%s" % (world, "Deep" if deep else "Limit"), "  Stalls = " + ids(w.get("stalls", [])),
            "  Ends <- " + (world + "_Ends" if w.get("ends") else "NoEnds"),
            "  Interrupts = " + str(w.get("interrupts", False)).upper(), '  Bug = "%s"' % bug,
            "PROPERTY Refines", "INVARIANT NoDeadlock", "INVARIANT Whole", "INVARIANT Released", "INVARIANT Bounded"]


def trie_config(pool, deep, bug=""):
    return ["SPECIFICATION T_Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", "  Clients = {1, 2}", "  Pool <- Pool%s" % pool,
            "  Names <- Names_", "  Size = %d" % (5 if deep else 3), '  Bug = "%s"' % bug,
            "INVARIANT Right", "INVARIANT Once", "INVARIANT Clean"]


def wire_config(_, deep, bug=""):
    return ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", "  Pieces <- Pieces_", "  MaxLen = %d" % (6 if deep else 5),
            "INVARIANT Segments", "INVARIANT Hopeless", "INVARIANT Incomplete", "PROPERTY HopelessEnds"]


def topics_config(_, deep, bug=""):
    return ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", "  FChars = {97, 47, 43, 35, 36}", "  TChars = {97, 47, 36}",
            "  FLen = 5", "  TLen = %d" % (5 if deep else 4), "INVARIANT ByCharacter", "INVARIANT Laws"]


LOOPS = {
    "Flood": dict(conns=2, up=[1, 2], stalls=[1], qcap=1),
    "Take":  dict(conns=3, up=[1, 2], stalls=[2], ends=True, qcap=2),
    "Ends":  dict(conns=2, up=[1, 2], ends=True, qcap=1),
    "Int":   dict(conns=2, up=[1], stalls=[1], interrupts=True, qcap=1),
    "Reqs":  dict(conns=2, up=[1], qcap=2),
    "Time":  dict(conns=2, up=[1], stalls=[1], qcap=1, time=3500, patience=1500),
}
CONFIGS = {"Loop": ("MCLoop.tla", loop_config), "Trie": ("MCTrie.tla", trie_config),
           "Wire": ("MCWire.tla", wire_config), "Topics": ("MCTopics.tla", topics_config)}
DESIGN = {
    "C01": ["Topics", "Trie/1", "Trie/2"], "C02": ["Trie/1"], "C03": ["Wire"], "C04": ["Loop/Flood"], "C05": ["Wire"],
    "C06": ["Topics", "Trie/3"], "C07": ["Loop/Reqs"], "C08": ["Loop/Reqs"], "C09": ["Loop/Reqs"], "C10": ["Loop/Reqs"],
    "C11": ["Loop/Reqs"], "C12": ["Loop/Take"], "C13": ["Wire"], "C14": ["Loop/Flood"], "C15": ["Loop/Time"], "C16": ["Loop/Ends"],
    "C17": ["Loop/Int"], "C18": ["Loop/Ends", "Wire"], "C19": ["Loop/Ends"], "C20": ["Topics", "Trie/4"],
    "C21": ["Loop/Take", "Trie/4"], "C22": ["Loop/Reqs"],
}
# defects the design could have, and where they have to show
BUGS = {
    "Loop/Flood": ["noattend", "stack", "trysend"], "Loop/Take": ["anysub", "anydisc", "trykick", "leftsubs"],
    "Loop/Ends": ["eofdrops", "nobye", "failstops"], "Loop/Int": ["nocancel"], "Loop/Reqs": ["qos2"],
    "Loop/Time": ["once", "unheard", "fed", "deaf", "first", "patient"],
    "Trie/1": ["double", "everybodys", "nodesleft", "cutsbelow", "parent", "dollar"], "Trie/2": ["cutsbelow", "parent"],
    "Trie/3": ["dollar", "nodesleft"], "Trie/4": ["everybodys", "nodesleft"],
}


def plans(prop, tier):
    """(name, statements, module, configuration, does it have to fail?)"""
    worlds, invariants = MODELS.get(prop, ([], ""))
    deeps = (0, 1) if tier == "thorough" else (0,)
    for name in worlds:
        for deep in deeps:
            yield ("MC/%s%s" % (name, "+1" if deep else ""), invariants.split(), "MC.tla",
                   lambda work: world_config(name, deep, 0, work, ["TypeOK"] + invariants.split()), False)
    for name in DESIGN.get(prop, []):
        kind, _, which = name.partition("/")
        module, config = CONFIGS[kind]

        def write(work, deep, bug=""):
            f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".cfg", delete=False)
            with f:
                f.write("\n".join(config(which, deep, bug)) + "\n")
            return f.name

        statements = [l.split()[1] for l in config(which, 0) if l.split()[0] in ("INVARIANT", "PROPERTY")]
        for deep in deeps:
            yield name + ("+1" if deep else ""), statements, module, lambda work: write(work, deep), False
        if tier == "thorough":
            for bug in BUGS.get(name, []):
                yield "%s!%s" % (name, bug), statements, module, lambda work: write(work, 0, bug), True


def check(prop, tier, work, deadline):
    """TLC on the models of a property; the statements hold there or the specification is wrong."""
    out = []
    for name, statements, module, config, fails in plans(prop, tier):
        t0 = time.time()
        limit = min(deadline - t0 - 10, 400 if tier == "thorough" else 120)
        m = {"model": name, "invariants": statements, "states": 0, "distinct": 0, "exhausted": False}
        out.append(m)
        if limit < 15:
            continue
        try:
            rc, text = mv.tlc(module, config(work), work, workers=4 if tier == "thorough" else 3, heap="5g", timeout=limit)
        except mv.Timeout as e:
            m["states"], m["distinct"] = mv.numbers(getattr(e, "text", ""))
            continue
        m["states"], m["distinct"] = mv.numbers(text)
        m["wall_s"] = round(time.time() - t0, 1)
        if fails:
            m["refuted"] = rc in (12, 13)
            if rc not in (12, 13):
                raise mv.ToolError("the defect in %s goes unnoticed:\n%s" % (name, text[-3000:]))
            continue
        m["exhausted"] = rc == 0
        if rc:
            raise mv.ToolError("the specification does not have %s in %s:\n%s" % (prop, name, text[-3000:]))
    return out


# ---------------------------------------------- behaviours of the specification

def walks(name, n, seed, work, pace, length, invariants=(), timeout=100):
    """n random behaviours of a world: their histories"""
    cfg = world_config(name, 4, 0, work, ["Show"] + list(invariants))
    t = open(cfg).read().replace("M_Spec", "G_Spec").replace("CONSTRAINT Short\n", "").split("PROPERTY")[0]
    with open(cfg, "w") as f:
        f.write(t + "\nCONSTANTS Pace = %d\n  Length = %d\n" % (pace, length))
    rc, text = mv.tlc("Gen.tla", cfg, work, args=["-simulate", "num=%d" % n, "-depth", str(length + 1), "-seed", str(seed)],
                      timeout=timeout)
    # the last step's alternatives may all be printed
    hs = {}
    for x in re.findall(r'^"HISTORY .*"$', text, re.M):
        h = [e for e in json.loads(json.loads(x)[8:])]
        hs.setdefault(json.dumps([e for e in h if e["e"] not in ("out", "close", "exit")]), h)
    hs = list(hs.values())[:n]
    if "is violated" in text or not hs:
        raise mv.ToolError("no behaviours of world %s:\n%s" % (name, text[-3000:]))
    return hs


def data(c, p):
    return "p%d.%s." % (c, "".join(map(str, p["data"])))


def encode(rng, c, p):
    t = p["t"]
    if t == "CONNECT":
        return families.connect(bytes(p["cid"]), p["keep"])
    if t == "REFUSE":
        return mv.connect("x", level=rng.choice([0, 3, 5, 255])) if p["code"] == 1 else mv.connect("", clean=False)
    if t == "DUBIOUS":
        return mv.connect("x", flags=rng.choice([1, 3, 2 | 8, 2 | 16, 2 | 64]))
    if t == "PUBLISH":
        return families.publish(bytes(p["topic"]), data(c, p), p["qos"], p["pid"] or None)
    if t == "SUBSCRIBE":
        return mv.subscribe(p["pid"], [(bytes(f), q) for f, q in p["filters"]])
    if t == "UNSUBSCRIBE":
        return mv.unsubscribe(p["pid"], [bytes(f) for f in p["filters"]])
    if t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
        return getattr(mv, t.lower())(p["pid"])
    if t == "BAD":
        return rng.choice(families.malformed_packets(rng))
    return {"PINGREQ": mv.PING, "DISCONNECT": mv.DISCONNECT}[t]


def replay(rng, h):
    """a history -> what clients and network do in it. The broker gets about as far in between as in the history."""
    sc = families.script(rng, "gen", cap=rng.choice([None, None, 0, 1, 2]))
    now, steps = 0, 0
    how = rng.choice(["step", "step", "settle", "await", "rush", "mixed"])
    sent = {}
    parts = rng.random() < .2
    for e in h:
        if e["e"] in ("out", "close", "exit"):
            steps += 1
            if e["e"] == "out":
                sent[e["c"]] = sent.get(e["c"], 0) + 1
                last = e["c"]
            continue
        if steps:
            w = rng.choice(["step", "settle", "await", "rush"]) if how == "mixed" else how
            if w == "step":
                sc.step(rng.randint(1, 6 * steps))
            elif w == "settle":
                sc.settle()
            elif w == "await" and sent:
                sc.op("await", last, sent[last])
            steps = 0
        k, c = e["e"], e["c"]
        if k == "open":
            sc.open(c)
        elif k == "in":
            d = encode(rng, c, e["p"])
            if parts:
                sc.pieces(c, d, [rng.randint(1, len(d))], rng.choice([None, ("step", 1), ("settle",)]))
            else:
                sc.send(c, d)
        elif k in ("eof", "gone", "rst", "unstall"):
            sc.op(k, c)
        elif k == "stall":
            sc.op("stall", c, rng.choice([0, 0, 1, 5, 40]))
        elif k == "t":
            sc.settle().adv(e["p"]["at"] - now)
            now = e["p"]["at"]
        elif k == "int":
            sc.op("int")
    return sc.settle()


def histories(rng, name, n, work):
    out = []
    paces = rng.sample([1, 3, 6, 12], 1 if n <= 12 else 2 if n <= 60 else 4)
    for k, pace in enumerate(paces):
        out += walks(name, n // len(paces) + (k < n % len(paces)), rng.randrange(1 << 30), work, pace, 250 if name == "All" else 120)
    return out
