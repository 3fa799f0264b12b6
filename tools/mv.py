"""Running the real broker under the simulated network and validating what it
did against the TLA+ specification (spec/Trace.tla) with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
BIN = os.path.join(BUILD, "target/debug/broker_sim")
CORES = os.cpu_count() or 8
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def build():
    """Compile /repo's current tree into the simulation binary."""
    env = dict(os.environ, RUSTFLAGS="--cfg tokio_unstable --cfg mqtt_verif -Awarnings",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("building the simulation of /repo failed:\n" + p.stdout[-4000:])


# ------------------------------------------------------------------ scripts

def enc_len(n):
    out = b""
    while True:
        d = n % 128
        n //= 128
        out += bytes([d | (128 if n else 0)])
        if not n:
            return out


def s(x):
    b = x.encode() if isinstance(x, str) else x
    return len(b).to_bytes(2, "big") + b


def u16(n):
    return n.to_bytes(2, "big")


def pkt(first, body=b""):
    return bytes([first]) + enc_len(len(body)) + body


def connect(cid, keep=0, clean=True, level=4, flags=None, tail=b"", name="MQTT"):
    f = (2 if clean else 0) if flags is None else flags
    return pkt(0x10, s(name) + bytes([level, f]) + u16(keep) + s(cid) + tail)


def publish(topic, payload=b"", qos=0, pid=None, dup=0, retain=0):
    p = payload.encode() if isinstance(payload, str) else payload
    return pkt(0x30 | dup << 3 | qos << 1 | retain, s(topic) + (u16(pid) if qos else b"") + p)


def subscribe(pid, filters):
    return pkt(0x82, u16(pid) + b"".join(s(f) + bytes([q]) for f, q in filters))


def unsubscribe(pid, filters):
    return pkt(0xA2, u16(pid) + b"".join(s(f) for f in filters))


def puback(pid): return pkt(0x40, u16(pid))
def pubrec(pid): return pkt(0x50, u16(pid))
def pubrel(pid): return pkt(0x62, u16(pid))
def pubcomp(pid): return pkt(0x70, u16(pid))


PING = pkt(0xC0)
DISCONNECT = pkt(0xE0)


class Script:
    """One scenario: operations for the harness, and the long runs of bytes in it."""

    greet = staticmethod(connect)

    def __init__(self, seed=1, family="", **opts):
        self.ops, self.blobs, self.family = [], [], family
        self.op("seed", seed)
        for k, v in opts.items():
            if v is not None:
                self.op(k, v)

    def op(self, *a):
        self.ops.append(" ".join(str(x) for x in a))
        return self

    def open(self, c): return self.op("open", c)
    def send(self, c, *data):
        x = b"".join(data)
        return self.op("send", c, x.hex()) if x else self
    def settle(self): return self.op("settle")
    def step(self, n=1): return self.op("step", n)
    def adv(self, ms): return self.op("adv", ms)
    def eof(self, c): return self.op("eof", c)
    def gone(self, c): return self.op("gone", c)
    def rst(self, c): return self.op("rst", c)
    def probe(self): return self.op("probe")

    def join(self, c, cid=None, keep=0, settle=True):
        self.open(c).send(c, self.greet(cid if cid is not None else "c%d" % c, keep))
        return self.settle() if settle else self

    def pieces(self, c, data, cuts, between=None):
        """send data cut at the given offsets"""
        last = 0
        for x in sorted(set(cuts)) + [len(data)]:
            if x > last:
                self.send(c, data[last:x])
                if between:
                    self.op(*between)
                last = x
        return self

    def blob(self, rng, n):
        """n ordinary characters that the specification treats as one symbol"""
        words = [("%06x" % rng.getrandbits(24)).translate(str.maketrans("0123456789", "ghijklmnop")) for _ in range(64)]
        b = "".join(words)
        out = (b * (n // len(b) + 1))[:n].encode()
        tag = ("b%dx" % len(self.blobs)).encode()
        out = (tag + out)[:n]
        self.blobs.append(out)
        return out

    def text(self):
        return "\n".join(self.ops) + "\n"


# ------------------------------------------------------------------ running

def run_batch(jobs, alarm):
    lst = tempfile.NamedTemporaryFile("w", suffix=".lst", delete=False)
    with lst:
        for a, b in jobs:
            lst.write("%s\t%s\n" % (a, b))
    env = dict(os.environ, SIM_LIST=lst.name, SIM_ALARM=str(alarm), RUST_BACKTRACE="0")
    p = subprocess.run([BIN], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.unlink(lst.name)
    return p.returncode, p.stdout.decode(errors="replace")


def execute(scripts, work, alarm=20):
    """Run every script, return the list of event lists."""
    d = os.path.join(work, "runs")
    os.makedirs(d, exist_ok=True)
    jobs = []
    for i, sc in enumerate(scripts):
        a = os.path.join(d, "%d.txt" % i)
        with open(a, "w") as f:
            f.write(sc.text())
        jobs.append((a, os.path.join(d, "%d.ev" % i)))
    n = max(1, min(CORES, len(jobs)))
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: run_batch(jobs[k::n], alarm), range(n)))
    out = []
    for i, (a, b) in enumerate(jobs):
        try:
            ev = [json.loads(x) for x in open(b) if x.strip()]
        except (OSError, ValueError) as e:
            raise ToolError("no event log for scenario %d: %s %s" % (i, e, res))
        if not ev or ev[-1]["e"] not in ("end", "hang", "crash", "panic", "exit", "spin", "skipped"):
            raise ToolError("scenario %d ended without a verdict: %s" % (i, ev[-1:]))
        out.append(ev)
    return out


PIECE = 150
UNIT = 1 << 23   # Wire!Unit


def symbols(data, blobs):
    """where the long runs are in data: (begin, end, symbol)"""
    hits = []
    for k, b in enumerate(blobs):
        at = data.find(b)
        while at >= 0:
            hits.append((at, at + len(b), -((k + 1) * UNIT + len(b))))
            at = data.find(b, at + len(b))
    hits.sort()
    return hits


def content(d):
    """what a PUBLISH packet carries"""
    n = 1
    while n < len(d) and d[n] & 128:
        n += 1
    n += 1
    n += 2 + int.from_bytes(d[n:n + 2], "big")
    return d[n + (2 if d[0] & 6 else 0):]


def split_packets(data):
    out, i = [], 0
    while i + 2 <= len(data):
        n, shift, j = 0, 0, i + 1
        while j < len(data):
            n |= (data[j] & 127) << shift
            shift += 7
            j += 1
            if not data[j - 1] & 128:
                break
        if j + n > len(data):
            break
        out.append(data[i:j + n])
        i = j + n
    return out


def identity(p):
    """client identifier field of a CONNECT packet (with what comes before it, if that is odd)"""
    n = 2
    while n < len(p) and p[n - 1] & 128:
        n += 1
    body = p[n:]
    if body[:6] != b"\0\4MQTT":
        return None
    k = int.from_bytes(body[10:12], "big")
    return body[12:12 + k]


def calm_events(events):
    """the receptions by which no publication and no identifier in use elsewhere comes in"""
    calm, rest, ids = set(), {}, {}
    for i, e in enumerate(events):
        if e["e"] == "open":
            rest[e["c"]] = b""
        if e["e"] != "rx" or "fill" in e:
            continue
        c = e["c"]
        d = rest.get(c)
        if d is None:
            continue
        d += bytes.fromhex(e["x"])
        ps = split_packets(d)
        rest[c] = d[sum(map(len, ps)):]
        ok = len(rest[c]) < 4000
        for p in ps:
            kind = p[0] >> 4
            if kind == 1:
                x = identity(p)
                ids.setdefault(x, []).append(i)
                ok = ok and x
            elif kind not in (4, 5, 6, 7, 8, 10, 12, 14):
                ok = False
            if kind in (0, 2, 9, 11, 13, 15):
                rest[c] = None
                break
        if ok:
            calm.add(i)
    for x, l in ids.items():
        if len(l) > 1:
            calm -= set(l)
    return calm


VISITOR = re.compile("10..00044d51545404020000000.76697369746f722d(3.)+e000$")


def visits(events):
    """A client that comes, is let in and leaves at once leaves the state of the specification as it was (see
    Trace!Visit): runs of them become one event."""
    out, i = [], 0
    while i < len(events):
        five = events[i:i + 4]
        c = events[i].get("c")
        if [e["e"] for e in five] == ["open", "rx", "tx", "close"] and all(e["c"] == c for e in five) \
                and VISITOR.match(five[1]["x"]) and five[2]["x"] == "20020000" and five[0]["t"] == five[3]["t"]:
            if out and out[-1]["e"] == "visits" and out[-1]["c"] == c and out[-1]["t"] == five[0]["t"]:
                out[-1]["n"] += 1
            else:
                out.append({"e": "visits", "c": c, "n": 1, "t": five[0]["t"], "i": i})
            i += 4
        else:
            out.append(dict(events[i], i=i))
            i += 1
    return out


def convert(events, script):
    """Event log -> events for Trace.tla"""
    events = visits(events)
    blobs = script.blobs
    streams, offs, odd = {}, {}, 100
    for e in events:
        if e["e"] == "rx" and "fill" not in e:
            streams[e["c"]] = streams.get(e["c"], b"") + bytes.fromhex(e["x"])
    hits = {c: symbols(d, blobs) for c, d in streams.items()} if blobs else {}
    calm = calm_events(events)
    out = []
    for i, e in enumerate(events):
        r = {"e": e["e"], "t": e.get("t", 0), "i": e["i"]}
        if "c" in e:
            r["c"] = e["c"]
        if e["e"] == "rx" and "fill" in e:
            r["b"] = list(bytes.fromhex(e["x"])) + [-(255 * UNIT + e["fill"])]
            r["calm"] = False
        elif e["e"] == "rx":
            c = e["c"]
            a = offs.get(c, 0)
            d = bytes.fromhex(e["x"])
            z = a + len(d)
            offs[c] = z
            b, pos = [], a
            for h0, h1, sym in hits.get(c, []):
                if h1 <= a or h0 >= z:
                    continue
                b += d[pos - a:max(h0, a) - a] if h0 > pos else b""
                if h1 <= z:
                    b.append(sym)
                pos = min(h1, z)
            b += d[pos - a:]
            # in pieces: TLC's effort for one piece is quadratic in the packets in it
            b = list(b)
            piece = max(PIECE, len(b) // 60)
            while len(b) > 2 * piece:
                out.append(dict(r, b=b[:piece], calm=i in calm))
                b = b[piece:]
            r["b"] = b
            r["calm"] = i in calm
        elif e["e"] == "tx":
            d = bytes.fromhex(e["x"])
            b, pos = [], 0
            for h0, h1, sym in (symbols(d, blobs) if len(d) > 200 else []):
                if h0 < pos:
                    continue
                b += d[pos:h0]
                b.append(sym)
                pos = h1
            rest = d[pos:]
            if len(rest) > 4000:
                odd = min(odd + 1, 200)   # a long run that no client sent
                b += list(rest[:64]) + [-(odd * UNIT + len(rest) - 64)]
            else:
                b += rest
            r["b"] = list(b)
            if d[:1] and d[0] >> 4 == 3:
                # "u": no other publication has the same content
                x = content(d)
                r["u"] = len(x) > 1 and sum(y.count(x) for y in streams.values()) == 1
        elif e["e"] == "probe":
            r["orphan"], r["live"] = e["orphan"], e["live"]
        elif e["e"] in ("mem", "visits"):
            r["n"] = e["n"]
        elif e["e"] == "bind":
            r["port"], r["any"] = e["port"], e["any"]
        out.append(r)
    return out


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, args=(), heap="1500m", timeout=840, dfs=False, workers=1):
    md = tempfile.mkdtemp(dir=work, prefix="tlc")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", TLA_JAR + ":" + os.path.dirname(TLA_JAR) + "/CommunityModules-deps.jar",
            "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        t = Timeout("TLC timed out: %s %s" % (module, cfg))
        t.text = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, (bytes, type(None))) else e.stdout
        raise t
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def numbers(text):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


class Timeout(ToolError):
    pass


class Verdict:
    """ok: accepted; undecided: the search did not end in time; pos: the event it got stuck at"""
    def __init__(self, ok, pos=0, why=(), undecided=False):
        self.ok, self.pos, self.why, self.undecided = ok, pos, list(why), undecided

    @property
    def rejected(self):
        return not self.ok and not self.undecided


def payload(traces):
    """traces: [(events, script)] -> the JSON document for Trace.tla"""
    docs = [{"ev": convert(ev, sc)} for ev, sc in traces]
    return {"conns": max([r.get("c", 0) for d in docs for r in d["ev"]] + [1]), "traces": docs}


def config(base, conns, work, **consts):
    """a copy of a configuration with as many connections as needed"""
    text = open(os.path.join(SPEC, base)).read()
    consts["Conns"] = "{%s}" % ", ".join(map(str, range(1, conns + 1)))
    for k, v in consts.items():
        text = re.sub(r"\b%s = .*" % k, "%s = %s" % (k, v), text)
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".cfg", delete=False)
    with f:
        f.write(text)
    return f.name


def search(traces, work, timeout, eager=True, budget=20):
    """TLC's search for behaviours of the specification: how far each trace was explained (-1: all of it)"""
    doc = payload(traces)
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".json", delete=False)
    with f:
        json.dump(doc, f)
    conf = config("Trace.cfg", doc["conns"], work, Eager="TRUE" if eager else "FALSE", Budget=int(budget))
    try:
        rc, out = tlc("Trace.tla", conf, work, env={"TRACES": f.name}, dfs=True, timeout=timeout)
    finally:
        os.unlink(conf)
    res = dict((int(a), int(b)) for a, b in re.findall(r'<<"RESULT", (\d+), (-?\d+)>>', out))
    if len(res) != len(traces):
        raise ToolError("TLC failed on " + f.name + "\n" + "\n".join(
            x for x in out.split("\n") if "Error" in x or "error" in x or "Attempt" in x)[:1500] + out[-1500:])
    os.unlink(f.name)
    return [res[i + 1] for i in range(len(traces))], numbers(out)


def explain(traces, stops, work, timeout):
    doc = payload(traces)
    doc["stop"] = list(stops)
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".json", delete=False)
    with f:
        json.dump(doc, f)
    conf = config("Explain.cfg", doc["conns"], work)
    why = [[] for _ in traces]
    try:
        rc, out = tlc("Explain.tla", conf, work, env={"TRACES": f.name}, timeout=timeout)
        for a, b in re.findall(r'<<"WHY", (\d+), "([^"]*)">>', out):
            if b not in why[int(a) - 1]:
                why[int(a) - 1].append(b)
        if "Finished in" not in out:
            raise ToolError("Explain failed\n" + out[-3000:])
    except Timeout:
        pass
    finally:
        os.unlink(f.name)
        os.unlink(conf)
    return why


def validate_chunk(traces, work, timeout=300, budget=8, deadline=None):
    """Verdicts for a list of (events, script); (verdicts, states generated, distinct states)."""
    if deadline is not None:
        left = deadline - time.time()
        if left < 5:
            return [Verdict(False, undecided=True) for _ in traces], 0, 0
        timeout = min(timeout, left + 20)
    try:
        res, (gen, dist) = search(traces, work, timeout, budget=budget)
    except Timeout:
        return [Verdict(False, undecided=True) for _ in traces], 0, 0
    return [Verdict(r == -1, r, undecided=r == -2) for r in res], gen, dist


def confirm(trace, verdict, work, single=60):
    """A rejection has to stand without the shortcut as well; says what is wrong with the trace."""
    stop = verdict.pos
    try:
        r, _ = search([trace], work, single + 20, eager=False, budget=single)
        if r[0] == -2:
            raise Timeout()
        if r[0] == -1:
            return Verdict(True)
        stop = max(stop, r[0])
    except Timeout:
        pass
    ev = convert(*trace)
    return Verdict(False, ev[min(stop, len(ev)) - 1]["i"] + 1, explain([trace], [verdict.pos], work, single)[0])


def validate(scripts, logs, work, timeout=300, per=40, single=60, budget=6, deadline=None):
    """Validate all logs, in parallel chunks; then those that were not decided quickly one by one.
    Returns (verdicts, states, distinct)."""
    order = sorted(range(len(scripts)), key=lambda i: -len(logs[i]))
    n = max(CORES, -(-len(order) // per)) if len(order) >= CORES else len(order)
    chunks = [c for c in (order[k::n] for k in range(n)) if c]
    out = [None] * len(scripts)
    gen = dist = 0

    def go(chunks, budget):
        nonlocal gen, dist
        with cf.ThreadPoolExecutor(CORES) as ex:
            for c, (vs, a, b) in zip(chunks, ex.map(
                    lambda c: validate_chunk([(logs[i], scripts[i]) for i in c], work, timeout, budget, deadline), chunks)):
                for i, v in zip(c, vs):
                    out[i] = v
                gen += a
                dist += b

    go(chunks, budget)
    slow = [i for i in order if out[i].undecided]
    if slow and not any(v.rejected for v in out):
        go([[i] for i in slow[:3 * CORES]], single)
    return out, gen, dist


# ------------------------------------------------- long series of deliveries

def pid_log(events, c):
    """deliveries to connection c and its acknowledgements, for Pids.tla"""
    out, at, buf = [], [], b""
    for k, e in enumerate(events):
        if e.get("c") != c:
            continue
        if e["e"] == "tx":
            d = bytes.fromhex(e["x"])
            if d[0] >> 4 == 3 and d[0] & 6:
                body = d[2 if d[1] < 128 else 3:]
                n = 2 + int.from_bytes(body[:2], "big")
                out.append(int.from_bytes(body[n:n + 2], "big"))
                at.append(k)
        elif e["e"] == "rx":
            for d in split_packets(bytes.fromhex(e["x"])):
                if d[0] >> 4 in (4, 7):
                    out.append(-int.from_bytes(d[2:4], "big"))
                    at.append(k)
    return out, at


def content_tag(payload):
    """the payloads of many_unreleased say which publication they belong to"""
    m = re.fullmatch(rb"(\d+)\.(\d+)", payload)
    return int(m[1]) * 65536 + int(m[2]) if m and int(m[2]) < 65536 else None


def qos2_log(events, sub, pub):
    """what one publisher and one subscriber see, for Qos2.tla"""
    out, at, begun, stalled = [], [], False, False

    def add(k, v, i):
        out.append(8 * v + k)
        at.append(i)

    for i, e in enumerate(events):
        if e["e"] in ("stall", "unstall"):
            stalled = e["e"] == "stall"
        elif e["e"] == "q":
            # a stalled subscriber does not have to get anything, but the publisher does
            add(0 if stalled else 6, 0, i)
        elif e["e"] == "rx" and e["c"] == pub:
            for d in split_packets(bytes.fromhex(e["x"])):
                if d[0] >> 4 == 3:
                    begun = True
                    body = d[2 if d[1] < 128 else 3:]
                    n = 2 + int.from_bytes(body[:2], "big")
                    add(1, content_tag(body[n + 2:]), i)
                elif d[0] == 0x62:
                    add(2, int.from_bytes(d[2:4], "big"), i)
        elif e["e"] == "tx" and begun:
            d = bytes.fromhex(e["x"])
            if e["c"] == pub and d[:2] in (b"\x50\2", b"\x70\2"):
                add(3 if d[0] == 0x50 else 4, int.from_bytes(d[2:4], "big"), i)
            elif e["c"] == sub and d[0] == 0x30 and d[1] < 128:
                v = content_tag(d[4 + int.from_bytes(d[2:4], "big"):])
                add(7 if v is None else 5, v or 0, i)
            else:
                add(7, 0, i)
        elif e["e"] == "close" or e["e"] == "txpart" and not stalled:
            add(7, 0, i)
    return out, at


def pid_series(events):
    return pid_log(events, 2)


def qos2_series(events):
    return qos2_log(events, 1, 2)


def crowd_series(events):
    """who comes, asks, gets and goes, for Crowd.tla: every third connection says nothing"""
    out, at, n, names, there = [], [], 0, {}, set()

    def add(k, c, i):
        out.append(10 * c + k)
        at.append(i)

    for i, e in enumerate(events):
        if e["e"] == "q":
            add(9, 0, i)
        elif e["e"] == "open":
            add(1 if e["c"] % 3 else 0, e["c"], i)
        elif e["e"] in ("rst", "eof", "gone"):
            there.discard(e["c"])
            add(7, e["c"], i)
        elif e["e"] == "close":
            add(8, e["c"], i)
        elif e["e"] == "rx":
            for d in split_packets(bytes.fromhex(e["x"])):
                if d[0] == 0x10:
                    # a client of that name that is already there has to go
                    name = identity(d)
                    if name and name in names and names[name] in there:
                        there.remove(names[name])
                        add(7, names[name], i)
                    names[name] = e["c"]
                    there.add(e["c"])
                k = {0x82: 3, 0x30: 5}.get(d[0])
                if k == 5:
                    n += 1
                if k or d[0] != 0x10:
                    add(k or 9, e["c"], i)
        elif e["e"] == "tx":
            d = bytes.fromhex(e["x"])
            k = 2 if d == b"\x20\2\0\0" else 4 if d == b"\x90\3\0\1\0" else 6 if d == b"\x30" + bytes([3 + len(str(n))]) + b"\0\1t" + str(n).encode() else 9
            add(k, e["c"], i)
        elif e["e"] not in ("bind", "end"):
            add(9, e.get("c", 1), i)
    return out, at


# families whose executions are too long for Trace.tla: the projection of the specification that decides them,
# how the recorded log is reduced to it, and what a deviation from it is
SERIES = {"long_series": ("Pids", pid_series, "pid"), "held_series": ("Pids", pid_series, "pid"), "many_unreleased": ("Qos2", qos2_series, "dup"),
          "backlog": ("Qos2", qos2_series, "lost"),
          "crowd": ("Crowd", crowd_series, "noconnack"), "nameless": ("Crowd", crowd_series, "badclose")}


def validate_series(family, logs, work, timeout=300):
    module, reduce_, why = SERIES[family]
    conv = [reduce_(ev) for ev in logs]
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".json", delete=False)
    with f:
        json.dump({"logs": [x for x, _ in conv]}, f)
    try:
        rc, out = tlc(module + ".tla", module + ".cfg", work, env={"TRACES": f.name}, dfs=True, timeout=timeout, heap="3g")
    except Timeout:
        return [Verdict(False, undecided=True) for _ in logs], 0, 0
    finally:
        os.unlink(f.name)
    res = dict((int(a), int(b)) for a, b in re.findall(r'<<"RESULT", (\d+), (-?\d+)>>', out))
    if len(res) != len(logs):
        raise ToolError("TLC failed on " + module + "\n" + out[-1500:])
    vs = []
    for i, (x, at) in enumerate(conv):
        r = res[i + 1]
        if r == -1 and logs[i][-1]["e"] != "end":
            vs.append(Verdict(False, len(logs[i]), [logs[i][-1]["e"]]))
        else:
            vs.append(Verdict(r == -1, at[r - 1] + 1 if r > 0 else 0, [] if r == -1 else [why]))
    gen, dist = numbers(out)
    return vs, gen, dist
