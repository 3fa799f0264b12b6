"""Scenario families: scripted and randomized histories of clients and network,
grouped by the property they put under stress. Nothing in here says what the
broker should do about them; that is the specification's business."""
import itertools, random
import mv
from mv import *

PIDS = [1, 2, 3, 127, 128, 255, 256, 257, 4660, 32767, 32768, 65280, 65534, 65535]
CHAOS = [0, 0, 10, 30, 60]

# Unless a family asks for something particular, the flags of CONNECT and
# PUBLISH that must not make a difference vary: clean session, will, user
# name and password (nothing is kept for any client); RETAIN and DUP.
VARY = random.Random(0)


def connect(cid, keep=0, **kw):
    if kw or not cid:
        return mv.connect(cid, keep, **kw)
    r = VARY.random()
    if r < .4:
        return mv.connect(cid, keep)
    if r < .7:
        return mv.connect(cid, keep, clean=False)
    f, tail = VARY.choice([0, 2]), b""
    if VARY.random() < .6:
        f |= 4 | VARY.choice([0, 8, 16]) | VARY.choice([0, 32])
        tail += s(VARY.choice(["w", "w/t", "d", "t"])) + s(VARY.choice(["", "bye", b"\xff\0"]))
    if VARY.random() < .6:
        f |= 128
        tail += s(VARY.choice(["user", "", "\u00e9"]))
        if VARY.random() < .6:
            f |= 64
            tail += s(VARY.choice(["secret", "", b"\x00\xff\xc0"]))
    return mv.connect(cid, keep, flags=f, tail=tail)


def publish(topic, payload=b"", qos=0, pid=None, dup=None, retain=None):
    if dup is None:
        dup = int(qos > 0 and VARY.random() < .06)
    if retain is None:
        retain = int(VARY.random() < .06)
    return mv.publish(topic, payload, qos, pid, dup, retain)


Script.greet = staticmethod(connect)


def script(rng, family, **o):
    """a scenario with random scheduling"""
    o.setdefault("chaos", rng.choice(CHAOS))
    if o["chaos"]:
        o.setdefault("naps", rng.choice([0, 0, 1, 4, 15]))
    x = rng.randrange(1 << 30)
    VARY.seed(x)
    sc = Laggard(x, family, **o)
    if o["chaos"]:
        sc.often = rng.choice([0, 0, 0, .05, .2])
    return sc


class Laggard(Script):
    """now and then whoever serves a client that sends something is not run for a while"""
    often = 0

    def send(self, c, *data):
        if self.often and VARY.random() < self.often:
            self.op("lag", c, VARY.choice([2, 5, 10, 20, 50]))
        return super().send(c, *data)


class Count:
    """distinct payloads"""
    def __init__(self): self.n = 0

    def __call__(self, tag="m"):
        self.n += 1
        return "%s%d." % (tag, self.n)


def observer(sc, c, filters=(("#", 2),), pid=1):
    return sc.join(c).send(c, subscribe(pid, list(filters))).settle()


def check_alive(sc, clients, count, topic="alive"):
    """everybody who is still connected must be served"""
    for c in clients:
        sc.send(c, PING, publish(topic, count("alive"), 1, 7))
    return sc.settle()


# ------------------------------------------------------------- topic matching

def filters_upto(n, words=("a", "b", "")):
    out = []
    for k in range(1, n + 1):
        for t in itertools.product(list(words) + ["+"], repeat=k):
            f = "/".join(t)
            if f:
                out.append(f)
        for t in itertools.product(list(words) + ["+"], repeat=k - 1):
            out.append("/".join(t + ("#",)))
    return sorted(set(out))


def topics_upto(n, words=("a", "b", "")):
    return sorted({"/".join(t) for k in range(1, n + 1) for t in itertools.product(words, repeat=k)} - {""})


def match_table(rng, n, per=5, depth=3):
    """every filter against every topic, up to a depth"""
    fs = filters_upto(depth)
    ts = topics_upto(depth) + ["$a", "$a/b", "a/$a", "$", "$/a", "A", "a/B", "ab", "a/bb"]
    rng.shuffle(fs)
    groups = [fs[i:i + per] for i in range(0, len(fs), per)]
    out = []
    for g in groups[:n]:
        sc = script(rng, "match_table", chaos=0)
        count = Count()
        for c, f in enumerate(g, 2):
            sc.join(c, settle=False).send(c, subscribe(c, [(f, rng.randrange(3))]))
        sc.join(1).settle()
        for t in ts:
            sc.send(1, publish(t, count()))
        out.append(sc.settle())
    return out


WORDS = ["a", "b", "", "c", "é", "A", "a b", "$x", "aa", "日本"]


def rnd_topic(rng, depth=4, words=WORDS):
    while True:
        t = "/".join(rng.choice(words) for _ in range(rng.randint(1, depth)))
        if t and not t.startswith("$share"):
            return t


def generalise(rng, topic):
    """a filter likely to match"""
    l = [rng.choice([x, x, "+"]) for x in topic.split("/")]
    r = rng.random()
    if r < .25:
        l = l[:rng.randint(0, len(l))] + ["#"]
    elif r < .35:
        l.append(rng.choice(["+", "a", "#"]))
    elif r < .45 and len(l) > 1:
        l.pop()
    return "/".join(l) or "#"


def trie_history(rng, n, clients=3, steps=14, words=("a", "b", ""), depth=3):
    """subscriptions added, replaced and removed in random order, probed by publications"""
    out = []
    for _ in range(n):
        sc = script(rng, "trie_history", chaos=rng.choice([0, 0, 20]))
        count = Count()
        pub = clients + 1
        sc.join(pub)
        topics = [rnd_topic(rng, depth, words) for _ in range(4)]
        pool = sorted({generalise(rng, t) for t in topics for _ in range(3)} | set(topics[:2]))
        for c in range(1, clients + 1):
            sc.join(c)
        for s_ in range(steps):
            c = rng.randint(1, clients)
            r = rng.random()
            if r < .5:
                sc.send(c, subscribe(rng.choice(PIDS), [(rng.choice(pool), rng.randrange(3)) for _ in range(rng.choice([1, 1, 2, 3]))]))
            elif r < .85:
                sc.send(c, unsubscribe(rng.choice(PIDS), [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]))
            elif r < .95:
                sc.send(c, DISCONNECT).settle().join(c)
            else:
                sc.op("rst", c).settle().join(c)
            sc.settle()
            for t in rng.sample(topics, rng.choice([1, 2, 4])):
                sc.send(pub, publish(t, count(), rng.randrange(3), 1 + s_))
            sc.settle()
        out.append(sc)
    return out


def match_random(rng, n):
    """richer alphabets and deeper topics, one filter set per scenario"""
    out = []
    for _ in range(n):
        sc = script(rng, "match_random", chaos=rng.choice([0, 10]))
        count = Count()
        sc.join(1)
        topics = [rnd_topic(rng, rng.choice([2, 4, 7])) for _ in range(12)]
        for c in range(2, 6):
            fs = sorted({generalise(rng, rng.choice(topics)) for _ in range(rng.randint(1, 6))})
            rng.shuffle(fs)
            sc.join(c).send(c, subscribe(9, [(f, rng.randrange(3)) for f in fs]))
        sc.settle()
        for i, t in enumerate(topics):
            sc.send(1, publish(t, count(), rng.randrange(3), i + 1))
        out.append(sc.settle())
    return out


def match_odd(rng, n=None):
    """long, deep and unusual topics"""
    deep = "/".join(["x"] * 120)
    pairs = [
        (deep, [deep, "x/#", "/".join(["+"] * 120), "/".join(["+"] * 119), "/".join(["+"] * 121)]),
        ("/", ["/", "+/+", "#", "/#", "+", "/+", "+/"]),
        ("//", ["//", "+/+/+", "/#", "//#", "+//+", "/+/", "+/+"]),
        ("a", ["a", "a/#", "+", "+/#", "a/+", "#", "A", "aa"]),
        ("a/", ["a/", "a/+", "a/#", "a", "+/+", "+/", "a//"]),
        ("/a", ["/a", "+/a", "/+", "a", "/#", "#"]),
        ("a b/c", ["a b/c", "a b/+", "a/b/c", "ab/c"]),
        ("été/日本/😀", ["été/+/😀", "+/日本/#", "été/日本", "été/日本/😀", "ete/+/+"]),
        ("$SYS/x", ["#", "+/x", "$SYS/#", "$SYS/+", "+/+", "$sys/x", "/#"]),
        ("$", ["#", "+", "$", "$/#"]),
        ("a/$SYS/x", ["#", "a/+/x", "+/+/+", "a/$SYS/#"]),
        ("a" * 300 + "/b", ["a" * 300 + "/b", "+/b", "a" * 299 + "/b", "a" * 300 + "/+"]),
        ("\u0001x/\u007fy", ["\u0001x/+", "+/\u007fy", "#"]),
        ("*", ["*", "#", "+", "?"]),
        ("a/*/b", ["a/*/b", "a/+/b", "a/x/b"]),
        ("a.b", ["a.b", "a/b", "+", "a?b"]),
    ]
    out = []
    for t, fs in pairs:
        sc = script(rng, "match_odd", chaos=0)
        count = Count()
        sc.join(1)
        for c, f in enumerate(fs, 2):
            sc.join(c, settle=False).send(c, subscribe(c, [(f, 1)]))
        sc.settle().send(1, publish(t, count(), 1, 5)).settle()
        # and once more after taking half of them away
        for c, f in list(enumerate(fs, 2))[::2]:
            sc.send(c, unsubscribe(c, [f]))
        sc.settle().send(1, publish(t, count(), 1, 6))
        out.append(sc.settle())
    return out


def many_clients(rng, n, k=24):
    """one publication for many, some leave"""
    out = []
    for _ in range(n):
        sc = script(rng, "many_clients")
        count = Count()
        sc.join(1)
        for c in range(2, k + 2):
            sc.join(c, settle=False).send(c, subscribe(1, [(rng.choice(["t", "+", "#", "t/#", "u"]), rng.randrange(3))]))
        sc.settle().send(1, publish("t", count(), 2, 1)).settle()
        for c in rng.sample(range(2, k + 2), k // 2):
            rng.choice([lambda: sc.send(c, DISCONNECT), lambda: sc.op("rst", c), lambda: sc.send(c, unsubscribe(4, ["t", "#"]))])()
        sc.settle().send(1, publish("t", count(), 1, 2))
        out.append(sc.settle())
    return out


def many_filters(rng, n, k=60):
    """one client with many filters"""
    out = []
    for _ in range(n):
        sc = script(rng, "many_filters", chaos=0)
        count = Count()
        sc.join(1).join(2)
        fs = ["f%d" % i for i in range(k // 2)] + ["f%d/+" % i for i in range(k // 4)] + ["f%d/#" % i for i in range(k // 4)]
        rng.shuffle(fs)
        for i in range(0, len(fs), 15):
            sc.send(2, subscribe(i + 1, [(f, rng.randrange(3)) for f in fs[i:i + 15]]))
        sc.settle()
        for i in range(0, k // 4):
            sc.send(1, publish("f%d" % i, count(), 1, 1 + i), publish("f%d/x" % i, count(), 2, 100 + i))
        sc.settle().send(2, unsubscribe(9, rng.sample(fs, k // 3))).settle()
        for i in range(0, k // 4):
            sc.send(1, publish("f%d" % i, count(), 1, 1 + i), publish("f%d/x" % i, count()))
        out.append(sc.settle())
    return out


# ------------------------------------------------------ overlap, QoS, SUBACK

def overlap(rng, n):
    """overlapping filters of one client (and of a second one), all QoS levels"""
    sets = [("a/b", ["a/b", "a/+", "+/b", "#", "a/#", "+/+", "a/b/#", "+/#"]),
            ("a", ["a", "+", "#", "a/#", "+/#"]),
            ("a//c", ["a//c", "a/+/c", "+//+", "a/#", "#", "a//#"])]
    out = []
    for _ in range(n):
        topic, fs = rng.choice(sets)
        sc = script(rng, "overlap")
        count = Count()
        sc.join(1).join(2).join(3)
        mine = [(rng.choice(fs), rng.randrange(3)) for _ in range(rng.randint(2, 6))]
        if rng.random() < .5:
            sc.send(2, subscribe(1, mine))
        else:
            for i, f in enumerate(mine):
                sc.send(2, subscribe(i + 1, [f]))
                if rng.random() < .3:
                    sc.settle()
        if rng.random() < .6:
            sc.send(3, subscribe(1, [(rng.choice(fs), rng.randrange(3)) for _ in range(2)]))
        sc.settle()
        def pubs():
            for q in range(3):
                sc.send(1, publish(topic, count(), q, rng.choice(PIDS)) if q < 2 else publish(topic, count(), 2, count.n + 10))
            sc.settle()
        pubs()
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < .5:
                sc.send(2, unsubscribe(7, [rng.choice(mine)[0]]))
            elif r < .8:
                sc.send(2, subscribe(8, [(rng.choice(mine)[0], rng.randrange(3))]))
            else:
                sc.send(3, unsubscribe(7, [rng.choice(mine)[0]]))
            sc.settle()
            pubs()
        out.append(sc)
    return out


def overlap_pairs(rng, n):
    """two overlapping filters: each order, each pair of QoS levels, each unsubscribed alone"""
    combos = [(t, f, g, p, q) for t, fs in (("a/b", ["a/b", "a/+", "+/b", "#", "a/#", "a/b/#"]), ("a", ["a", "+", "#", "a/#"]))
              for f, g in itertools.permutations(fs, 2) for p in range(3) for q in range(3)]
    rng.shuffle(combos)
    out = []
    for i in range(0, min(n, len(combos)), 4):
        sc = script(rng, "overlap_pairs", chaos=0)
        count = Count()
        sc.join(1)
        for c, (t, f, g, p, q) in enumerate(combos[i:i + 4], 2):
            # keep the topics of the clients apart by a prefix
            pre = "p%d/" % c
            sc.join(c, settle=False)
            if rng.random() < .5:
                sc.send(c, subscribe(1, [(pre + f, p), (pre + g, q)]))
            else:
                sc.send(c, subscribe(1, [(pre + f, p)]), subscribe(2, [(pre + g, q)]))
        sc.settle()
        for step in range(3):
            for c, (t, f, g, p, q) in enumerate(combos[i:i + 4], 2):
                pre = "p%d/" % c
                sc.send(1, publish(pre + t, count(), 2, count.n + 1), publish(pre + t, count(), 1, count.n + 1), publish(pre + t, count()))
            sc.settle()
            if step < 2:
                for c, (t, f, g, p, q) in enumerate(combos[i:i + 4], 2):
                    sc.send(c, unsubscribe(3 + step, ["p%d/" % c + (f if step == 0 else g)]))
                sc.settle()
        out.append(sc)
    return out


BAD_FILTERS = ["", "a#", "#/a", "a/#/b", "+a", "a+", "a/+b", "a/b+/c", "##", "a/##", "++", "#+", "+#", "a/#b", "/#/", "#/", "a/+/#/", "é#", "+/b#"]


def suback(rng, n):
    """SUBSCRIBE and UNSUBSCRIBE requests of every shape, racing publications"""
    good = ["a", "b", "a/b", "+", "#", "a/+", "a/#", "/", "+/b"]
    out = []
    for _ in range(n):
        sc = script(rng, "suback")
        count = Count()
        sc.join(1).join(2).join(3)
        for i in range(rng.randint(3, 7)):
            c = rng.choice([2, 3])
            r = rng.random()
            if r < .6:
                fs = [(rng.choice(good) if rng.random() < .7 else rng.choice(BAD_FILTERS), rng.randrange(3))
                      for _ in range(rng.choice([1, 2, 3, 6]))]
                if rng.random() < .3:
                    fs.append((fs[0][0], rng.randrange(3)))
                sc.send(c, subscribe(rng.choice(PIDS), fs))
            else:
                sc.send(c, unsubscribe(rng.choice(PIDS), [rng.choice(good + BAD_FILTERS) for _ in range(rng.choice([1, 2, 4]))]))
            for _ in range(rng.randint(0, 3)):
                sc.send(1, publish(rng.choice(["a", "b", "a/b", "/", "c/b"]), count(), rng.randrange(3), count.n + 1))
            if rng.random() < .5:
                sc.settle()
            elif rng.random() < .5:
                sc.step(rng.randint(1, 6))
        sc.settle()
        for t in ("a", "b", "a/b", "/", "c/b", "d"):
            sc.send(1, publish(t, count(), 2, count.n + 1))
        out.append(sc.settle())
    return out


def self_pipeline(rng, n):
    """a client that subscribes, publishes to itself and unsubscribes in one go"""
    out = []
    for _ in range(n):
        sc = script(rng, "self_pipeline")
        count = Count()
        sc.open(1)
        data = connect("me")
        for i in range(rng.randint(4, 12)):
            t = rng.choice(["a", "b", "a/b"])
            f = rng.choice([t, "#", "+", "a/+"])
            data += rng.choice([
                lambda: subscribe(rng.choice(PIDS), [(f, rng.randrange(3))]),
                lambda: unsubscribe(rng.choice(PIDS), [f]),
                lambda: publish(t, count(), rng.randrange(3), rng.randint(1, 40)),
                lambda: publish(t, count(), 1, rng.randint(1, 40)),
                lambda: PING])()
        if rng.random() < .3:
            data += DISCONNECT
        sc.send(1, data).settle()
        out.append(sc)
    return out


def qos_pairs(rng, n):
    """all pairs of publication and subscription QoS, several subscribers, with and without acknowledgements"""
    out = []
    for _ in range(n):
        sc = script(rng, "qos_pairs")
        count = Count()
        sc.join(1)
        for c in range(2, 5):
            sc.join(c).send(c, subscribe(1, [("t", c - 2), ("u/+", rng.randrange(3))]))
            if rng.random() < .6:
                sc.op("auto", c)
        sc.settle()
        for i in range(rng.choice([6, 12, 30])):
            sc.send(1, publish(rng.choice(["t", "u/x", "t"]), count(), rng.randrange(3), i + 1, 0, rng.choice([0, 0, 1])))
            if rng.random() < .2:
                sc.settle()
        out.append(sc.settle())
    return out


def long_series(rng, n, length=66200):
    """so many deliveries that their packet identifiers have to start again"""
    out = []
    for _ in range(n):
        sc = script(rng, "long_series", chaos=0)
        sc.join(1).join(2)
        sc.op("auto", 2).send(2, subscribe(1, [("t", 1)])).settle()
        k = 0
        while k < length:
            sc.send(1, b"".join(publish("t", b"", 1, 1 + (k + j) % 60000) for j in range(400)))
            k += 400
            sc.settle()
        out.append(sc)
    return out


def backlog(rng, n, k=66600):
    """a subscriber that does not read while very many publications for it are acknowledged (decided by Qos2.tla)"""
    out = []
    for _ in range(n):
        sc = script(rng, "backlog", chaos=0)
        sc.join(1).join(2).send(1, subscribe(1, [("t", 0)])).settle()
        p = said = 0
        for held in (k, 300):
            sc.op("stall", 1, rng.choice([0, 3, 500]))
            for at in range(0, held, 300):
                d = b""
                for j in range(300):
                    p = p % 65535 + 1
                    said += 1
                    d += mv.publish("t", "%d.%d" % (said // 65535, p), 2, p) + mv.pubrel(p)
                sc.send(2, d).settle()
            sc.op("unstall", 1).settle()
        out.append(sc)
    return out


def held_series(rng, n, length=40000):
    """very many deliveries that the subscriber acknowledges late"""
    out = []
    for _ in range(n):
        sc = script(rng, "held_series", chaos=0)
        sc.join(1).join(2).send(2, subscribe(1, [("t", 1), ("u", 2)])).settle()
        for held in (length, 26000):
            for k in range(0, held, 400):
                sc.send(1, b"".join(publish(rng.choice("ttu"), b"", 2, 1 + k + j) + mv.pubrel(1 + k + j) for j in range(400))).settle()
            for k in range(1, 65536, 400):
                sc.send(2, b"".join(mv.puback(p) for p in range(k, min(k + 400, 65536)))).settle()
        out.append(sc)
    return out


def many_unreleased(rng, n, k=65535):
    """every packet identifier in use for a QoS 2 publication that is not released yet"""
    out = []
    for i in range(n):
        sc = script(rng, "many_unreleased", chaos=0)
        sc.join(1).join(2).send(1, subscribe(1, [("t", 0)])).settle()
        pub = lambda p, gen, dup: mv.publish("t", "%d.%d" % (gen, p), 2, p, dup)
        ids = list(range(1, k + 1))
        if i % 2:
            rng.shuffle(ids)

        def each(ids, f):
            for at in range(0, len(ids), 300):
                sc.send(2, b"".join(f(p) for p in ids[at:at + 300])).settle()

        each(ids, lambda p: pub(p, 0, 0))
        again = ids[:300] + ids[-300:] + rng.sample(ids, 900)
        each(again, lambda p: pub(p, 0, 1))
        done = ids[:100] + ids[-100:] + rng.sample(ids, 400)
        each(done, lambda p: mv.pubrel(p))
        gone = set(done)
        each(done, lambda p: pub(p, 1, 0))
        each(done + again, lambda p: pub(p, 1 if p in gone else 0, 1))
        out.append(sc)
    return out


def many_sessions(rng, n, steps=(200, 70, 65300, 200)):
    """so many sessions that whatever counts them has to start again, beside some that stay"""
    out = []
    for _ in range(n):
        sc = script(rng, "many_sessions", chaos=0)
        count = Count()
        sc.join(1).join(2)
        sc.send(2, subscribe(1, [("x", 1), ("y/+", 2)])).settle()
        k = 0
        for step in steps:
            for more in range(k, k + step, 10000):
                sc.op("visits", 5, more, min(more + 10000, k + step)).settle()
            k += step
            sc.join(3).send(3, subscribe(1, [("z", 0), ("y/b", 0)])).settle()
            for t in ("x", "y/a", "y/b", "z"):
                sc.send(1, publish(t, count(), 2, 1 + count.n)).settle()
            sc.send(3, DISCONNECT).settle()
            for t in ("x", "y/a", "y/b", "z"):
                sc.send(1, publish(t, count(), 1, 1 + count.n)).settle()
        out.append(sc)
    return out


# ------------------------------------------------------------------- content

EDGES = [0, 1, 2, 100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130]
MID = [16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 8191, 8192, 8193, 4096, 65535, 65536, 70000]
BIG = [2097142, 2097144, 2097146, 2097147, 2097148, 2097149, 2097150, 2097151, 2097152, 2097153]


def content(rng, n):
    """payloads and topics of all kinds and sizes"""
    out = []
    sizes = EDGES + MID
    rng.shuffle(sizes)
    for i in range(n):
        sc = script(rng, "content", chaos=rng.choice([0, 10]))
        sc.join(1).join(2).join(3)
        sc.send(2, subscribe(1, [("#", rng.randrange(3))])).send(3, subscribe(1, [("t/+", rng.randrange(3))])).settle()
        if rng.random() < .5:
            sc.op("wmode", rng.choice([2, 3]), rng.choice(["rand", 1000, 7]))
        for k in range(4):
            r = rng.random()
            if r < .5:
                size = sizes[(4 * i + k) % len(sizes)]
                p = sc.blob(rng, size) if size > 600 else bytes(rng.randrange(256) for _ in range(size))
            elif r < .7:
                p = bytes(range(256)) * rng.choice([1, 2])
            elif r < .8:
                p = rng.choice([PING, DISCONNECT, connect("x"), publish("t/x", "inner"), b"\0", b"\xff" * 20])
            else:
                p = sc.blob(rng, rng.choice(MID))
            t = rng.choice(["t/x", "t/é", "t/" + "long" * 40, "t/日本", "u", "t/\u00a0", "t/ "])
            sc.send(1, publish(t, p, rng.randrange(3), 4 * i + k + 1, 0, rng.choice([0, 0, 1])))
            if rng.random() < .5:
                sc.settle()
        out.append(sc.settle())
    return out


def sizes_exact(rng, n, around=(128, 16384)):
    """total lengths around the boundaries of the length encoding, on the way in and on the way out"""
    out = []
    todo = [(b + d, q, g) for b in around for d in range(-6, 7) for q in range(3) for g in range(3)]
    rng.shuffle(todo)
    per = 9
    for i in range(0, min(len(todo), n * per), per):
        sc = script(rng, "sizes_exact", chaos=0)
        sc.join(1)
        for g in range(3):
            sc.join(2 + g).send(2 + g, subscribe(1, [("s%d" % g, g)]))
        sc.settle()
        for k, (n_, q, g) in enumerate(todo[i:i + per]):
            body = n_ - 4 - (2 if q else 0)
            p = sc.blob(rng, body) if body > 600 else bytes(rng.randrange(256) for _ in range(body))
            sc.send(1, publish("s%d" % g, p, q, k + 1))
        out.append(sc.settle())
    return out


def huge(rng, n):
    """payloads that need four length bytes"""
    out = []
    sizes = list(BIG)
    rng.shuffle(sizes)
    for i in range(n):
        sc = script(rng, "huge", chaos=0)
        sc.join(1).join(2)
        sc.send(2, subscribe(1, [("t", i % 3)])).settle()
        q = rng.randrange(3)
        data = publish("t", sc.blob(rng, sizes[i % len(sizes)]), q, 9)
        if rng.random() < .5:
            sc.send(1, data)
        else:
            sc.pieces(1, data, [rng.randrange(1, len(data)) for _ in range(3)] + [1, 2, 3, 4])
        sc.settle().send(1, publish("t", "after"), PING).settle()
        out.append(sc)
    return out


def much_input(rng, n, total=290 << 20):
    """one connection carries more than any packet could hold"""
    out = []
    for i in range(n):
        sc = script(rng, "much_input", chaos=0)
        sc.join(1).join(2).send(1, subscribe(1, [("x", 1)])).settle()
        if i % 2: sc.op("rmode", 2, 1 << 19)
        done = k = 0
        while done < total:
            k += 1
            size = rng.randint(6 << 20, 8 << 20)
            sc.op("fill", 2, size, k)
            done += size
            if k % 3 == 0: sc.send(2, publish("x", "m%d." % k, 1, k))
            sc.settle()
        out.append(sc)
    return out


def long_strings(rng, n=None):
    """topics, filters and identifiers up to the longest there are"""
    out = []
    for size in (127, 128, 255, 256, 1000, 65535):
        sc = script(rng, "long_strings", chaos=0)
        t = sc.blob(rng, size) if size > 600 else bytes(rng.choice(b"abcdefgh") for _ in range(size))
        sc.open(1).send(1, connect(t)).settle().join(2)
        sc.send(2, subscribe(1, [(t, 1)])).settle()
        sc.send(1, publish(t, "x", 1, 3), publish(t[:-1] if size < 600 else b"q", "y", 1, 4)).settle()
        sc.send(2, unsubscribe(2, [t])).settle().send(1, publish(t, "z", 1, 5)).settle()
        # the identifier is taken over
        sc.open(3).send(3, connect(t)).settle().send(3, PING).settle()
        out.append(sc)
    return out


# --------------------------------------------------------------------- order

def order(rng, n):
    """bursts of several publishers to several subscribers"""
    out = []
    for _ in range(n):
        sc = script(rng, "order", cap=rng.choice([None, None, 1, 2, 5]))
        count = Count()
        np, ns = rng.randint(1, 3), rng.randint(1, 3)
        subs_ = list(range(1, ns + 1))
        pubs = list(range(ns + 1, ns + np + 1))
        for c in subs_:
            sc.join(c).send(c, subscribe(1, [(rng.choice(["#", "t/+", "t/a", "t/#"]), rng.randrange(3))]))
        for c in pubs:
            sc.join(c)
        sc.settle()
        for c in subs_ + pubs:
            if rng.random() < .4:
                sc.op("wmode", c, rng.choice(["rand", 3, 50]))
            if rng.random() < .3:
                sc.op("rmode", c, rng.choice(["rand", 10]))
        for k in range(rng.randint(2, 5)):
            for c in pubs:
                burst = b"".join(publish(rng.choice(["t/a", "t/b"]), count("p%d-" % c), rng.randrange(3), count.n + 1)
                                 for _ in range(rng.randint(1, 10)))
                sc.send(c, burst)
                if rng.random() < .4:
                    sc.step(rng.randint(1, 10))
            if rng.random() < .3:
                sc.op(rng.choice(["stall", "unstall"]), rng.choice(subs_))
        for c in subs_:
            sc.op("unstall", c)
        out.append(sc.settle())
    return out


def order_flood(rng, n, k=260):
    """a burst larger than any queue"""
    out = []
    for _ in range(n):
        sc = script(rng, "order_flood", chaos=rng.choice([0, 20]))
        count = Count()
        sc.join(1).join(2).join(3)
        for c in (1, 2):
            sc.send(c, subscribe(1, [("t", rng.randrange(3))]))
        sc.settle()
        if rng.random() < .6:
            sc.op("stall", 1, rng.choice([0, 5, 100]))
        sc.send(3, b"".join(publish("t", count(), rng.choice([0, 1]), i + 1) for i in range(k)))
        if rng.random() < .5:
            sc.step(rng.randint(1, 200))
        else:
            sc.settle()
        sc.op("unstall", 1).settle()
        sc.send(1, PING).send(2, PING).settle()
        out.append(sc)
    return out


# ------------------------------------------------------------------ scale

def wide(rng, n, clients=105):
    """more clients than fit any small table"""
    out = []
    for _ in range(n):
        sc = script(rng, "wide", chaos=0)
        count = Count()
        sc.join(1)
        for c in range(2, clients + 2):
            sc.join(c, settle=c % 10 == 0).send(c, subscribe(1, [(f, rng.randrange(3)) for f in rng.sample(["t", "+", "#", "t/#"], rng.choice([1, 1, 2, 4]))]))
        sc.settle().send(1, publish("t", count(), 2, 1)).settle()
        gone = rng.sample(range(2, clients + 2), clients // 4)
        for c in gone:
            rng.choice([lambda: sc.send(c, DISCONNECT), lambda: sc.op("rst", c), lambda: sc.send(c, unsubscribe(4, ["t", "#", "+", "t/#"]))])()
        sc.settle().send(1, publish("t", count(), 1, 2)).settle()
        for c in gone[:3]:
            sc.op("rst", c).settle().join(c).send(c, subscribe(2, [("t", 2)])).settle()
        sc.send(1, publish("t", count(), 2, 3))
        out.append(sc.settle().probe())
    return out


def big_requests(rng, n, k=300):
    """requests with very many filters"""
    out = []
    for i in range(n):
        sc = script(rng, "big_requests", chaos=0)
        count = Count()
        sc.join(1).join(2)
        k_ = rng.choice([127, 128, 129, 200, 255, 256, 257, k])
        fs = ["r%d" % j for j in range(k_)]
        sc.send(2, subscribe(rng.choice(PIDS), [(f, rng.randrange(3)) for f in fs])).settle()
        probes = [0, 1, k_ // 2, k_ - 2, k_ - 1] + [x for x in (126, 127, 128, 254, 255, 256) if x < k_]
        for j in probes:
            sc.send(1, publish("r%d" % j, count(), 2, j + 1))
        sc.settle().send(2, unsubscribe(rng.choice(PIDS), rng.sample(fs, k_ - 3))).settle()
        for j in probes:
            sc.send(1, publish("r%d" % j, count(), 1, j + 1))
        out.append(sc.settle())
    return out


def deep(rng, n):
    """topics of very many levels"""
    out = []
    for i in range(n):
        sc = script(rng, "deep", chaos=0)
        count = Count()
        d = rng.choice([8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 300])
        l = [rng.choice("ab") for _ in range(d)]
        t = "/".join(l)
        def wild(k):
            x = list(l)
            for j in rng.sample(range(d), k): x[j] = "+"
            return x
        fs = [t, "/".join(wild(d)), "/".join(wild(1)), "/".join(l[:d - 1] + ["#"]), "/".join(l + ["#"]), "/".join(wild(2)[:d // 2] + ["#"]),
              "/".join(l[:d - 1]), "/".join(l + ["+"]), "/".join(l[:-1] + ["c"]), "/".join(wild(d)[:-1])]
        sc.join(1)
        for c, f in enumerate(fs, 2):
            sc.join(c, settle=False).send(c, subscribe(c, [(f, rng.randrange(3))]))
        sc.settle().send(1, publish(t, count(), 2, 5), publish("/".join(l[:-1]), count(), 1, 6), publish(t + "/x", count(), 1, 7)).settle()
        for c, f in list(enumerate(fs, 2))[::2]:
            sc.send(c, unsubscribe(c, [f]))
        sc.settle().send(1, publish(t, count(), 1, 6), publish(t + "/x", count(), 1, 7))
        out.append(sc.settle())
    return out


# -------------------------------------------------------------- segmentation

def session_bytes(rng, count, long=False):
    """a plausible byte stream of a client after its CONNECT"""
    d = [subscribe(rng.choice(PIDS), [("t", 1), ("u/+", 2)]),
         publish("t", count(), 1, rng.choice(PIDS)),
         PING,
         publish("u/x", count() * (60 if long else 1), 2, 77),
         pubrel(77),
         unsubscribe(5, ["t"]),
         publish("t", count(), 0),
         puback(3), pubcomp(9), pubrec(12),
         publish("u/y", "", 1, 300)]
    rng.shuffle(d)
    return d[:rng.randint(4, len(d))]


def segment_every_cut(rng, n):
    """one stream cut in two at every position"""
    out = []
    count = Count()
    data = connect("me") + subscribe(10, [("t", 1)]) + publish("t", b"x" * 130, 2, 5) + PING + pubrel(5) + unsubscribe(6, ["t"])
    cuts = list(range(1, len(data)))
    rng.shuffle(cuts)
    for x in cuts[:n]:
        sc = script(rng, "segment_every_cut", chaos=0)
        sc.open(1).pieces(1, data, [x], rng.choice([("settle",), ("step", 2), None])).settle()
        out.append(sc)
    return out


def segment_random(rng, n):
    """streams in random pieces, with other traffic in between"""
    out = []
    for _ in range(n):
        sc = script(rng, "segment_random")
        count = Count()
        observer(sc, 1, [("#", rng.randrange(3))])
        sc.join(2)
        ps = session_bytes(rng, count, rng.random() < .3)
        data = b"".join(ps)
        style = rng.random()
        if style < .25:
            cuts = range(1, len(data))
        elif style < .7:
            cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randint(1, 12))))
        else:
            cuts = []
        if rng.random() < .5:
            sc.op("rmode", 2, rng.choice([1, 2, 3, 7, "rand"]))
        last = 0
        for x in list(cuts) + [len(data)]:
            sc.send(2, data[last:x])
            last = x
            r = rng.random()
            if r < .2:
                sc.settle()
            elif r < .4:
                sc.step(rng.randint(1, 5))
            elif r < .5:
                # deliveries to the client that is in the middle of a packet
                sc.send(1, publish(rng.choice(["t", "u/x"]), count(), rng.randrange(2), count.n))
            elif r < .55:
                sc.send(1, PING)
        sc.settle().send(2, PING).settle()
        out.append(sc)
    return out


def segment_big(rng, n):
    """packets larger than read buffers, and many small packets at once"""
    out = []
    for _ in range(n):
        sc = script(rng, "segment_big", chaos=rng.choice([0, 10]))
        count = Count()
        observer(sc, 1, [("#", 1)])
        sc.join(2)
        parts = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < .5:
                parts.append(publish("t", sc.blob(rng, rng.choice([4000, 8180, 8190, 8192, 8200, 16384, 20000, 65535, 65536, 100000, 300000])), rng.randrange(3), count.n + 50))
                count()
            else:
                parts += [rng.choice([PING, publish("t", count(), 1, count.n), publish("s", count())]) for _ in range(rng.randint(3, 20))]
        data = b"".join(parts)
        if rng.random() < .5:
            sc.op("rmode", 2, rng.choice(["rand", 1000, 8192, 100, 8191]))
        sc.pieces(2, data, [rng.randrange(1, len(data)) for _ in range(rng.randint(0, 6))],
                  rng.choice([None, ("step", 3), ("settle",)])).settle()
        sc.send(2, PING).settle()
        out.append(sc)
    return out


def segment_pairs(rng, n):
    """two streams in pieces at the same time"""
    out = []
    for _ in range(n):
        sc = script(rng, "segment_pairs")
        count = Count()
        sc.open(1).open(2)
        streams = [[connect("one")] + session_bytes(rng, count), [connect("two")] + session_bytes(rng, count)]
        data = [b"".join(x) for x in streams]
        at = [0, 0]
        while at[0] < len(data[0]) or at[1] < len(data[1]):
            i = rng.randrange(2)
            if at[i] >= len(data[i]):
                i = 1 - i
            k = rng.choice([1, 1, 2, 3, 5, 20])
            sc.send(i + 1, data[i][at[i]:at[i] + k])
            at[i] += k
            if rng.random() < .3:
                sc.step(rng.randint(1, 4))
        out.append(sc.settle())
    return out


# ------------------------------------------------------------------ requests

def requests(rng, n):
    """pipelined requests of all kinds, with all kinds of identifiers, deliveries in flight"""
    out = []
    for _ in range(n):
        sc = script(rng, "requests", cap=rng.choice([None, None, 1, 3]))
        count = Count()
        sc.join(1).join(2)
        sc.send(1, subscribe(1, [("d", rng.randrange(3))])).settle()
        if rng.random() < .3:
            sc.op("wmode", 1, rng.choice([1, 2, "rand"]))
        if rng.random() < .3:
            sc.op("auto", 1)
        used = set()
        for _ in range(rng.randint(5, 30)):
            p = rng.choice(PIDS + [rng.randint(1, 65535)])
            r = rng.randrange(12)
            if r == 0: sc.send(1, subscribe(p, [(rng.choice(["x", "y/+", "bad#"]), rng.randrange(3)) for _ in range(rng.randint(1, 4))]))
            elif r == 1: sc.send(1, unsubscribe(p, [rng.choice(["x", "y/+"]) for _ in range(rng.randint(1, 3))]))
            elif r == 2: sc.send(1, PING)
            elif r == 3: sc.send(1, publish("e", count(), 1, p, rng.randrange(2)))
            elif r == 4: sc.send(1, publish("e", count(), 2, p, rng.randrange(2)))
            elif r == 5: sc.send(1, pubrel(p))
            elif r == 6: sc.send(1, pubrec(p))
            elif r == 7: sc.send(1, puback(p))
            elif r == 8: sc.send(1, pubcomp(p))
            elif r == 9: sc.send(1, publish("e", count()))
            elif r == 10: sc.send(2, publish("d", count(), rng.randrange(3), count.n + 1))
            else: rng.choice([sc.settle, lambda: sc.step(rng.randint(1, 8))])()
        out.append(sc.settle())
    return out


def request_pids(rng, n):
    """every kind of request with boundary identifiers"""
    out = []
    kinds = [lambda p: subscribe(p, [("x", 1)]), lambda p: unsubscribe(p, ["x"]), lambda p: publish("e", "z%d" % p, 1, p),
             lambda p: publish("e", "y%d" % p, 2, p), pubrel, pubrec]
    for k in kinds[:n]:
        sc = script(rng, "request_pids", chaos=0)
        sc.join(1)
        pids = PIDS + [rng.randint(1, 65535) for _ in range(6)]
        for p in pids:
            sc.send(1, k(p))
        out.append(sc.settle())
    return out


# ----------------------------------------------------------------------- QoS 2

def qos2(rng, n):
    """histories of QoS 2 publications, repetitions and releases; everything else a client may send in between"""
    out = []
    for _ in range(n):
        sc = script(rng, "qos2", cap=rng.choice([None, None, None, 1, 2]))
        count = Count()
        observer(sc, 1, [("t", rng.randrange(3))])
        sc.join(2).join(3)
        ids = rng.sample(PIDS, rng.randint(1, 4))
        if rng.random() < .4:
            ids.append(ids[0] % 65535 + 1)
        last = {}
        noise = rng.choice([0, .2, .5])
        for _ in range(rng.randint(4, 20)):
            c = rng.choice([2, 2, 2, 3])
            p = rng.choice(ids)
            if rng.random() < noise:
                sc.send(c, rng.choice([
                    lambda: puback(p), lambda: pubcomp(p), lambda: pubrec(p), lambda: PING,
                    lambda: publish("t", count(), 1, p), lambda: publish("t", count()),
                    lambda: subscribe(p, [("z", rng.randrange(3))]), lambda: unsubscribe(p, ["z"]),
                    lambda: puback(p) + pubrec(p) + pubcomp(p), lambda: publish("z", count(), rng.choice([1, 2]), p)])())
                if rng.random() < .1:
                    sc.adv(rng.choice([100, 20000, 90000]))
                continue
            r = rng.random()
            if r < .35:
                last[c, p] = count()
                sc.send(c, publish("t", last[c, p], 2, p))
            elif r < .65 and (c, p) in last:
                # usually the same again, sometimes not: the identifier counts
                sc.send(c, publish(*rng.choice([("t", last[c, p])] * 5 + [("t", count()), ("u", last[c, p])]), 2, p, rng.choice([1, 1, 0])))
            elif r < .9:
                sc.send(c, pubrel(p))
            elif r < .95:
                sc.send(c, publish("t", count(), 1, p))
            else:
                sc.send(c, DISCONNECT).settle().join(c)
                last = {k: v for k, v in last.items() if k[0] != c}
            if rng.random() < .4:
                sc.settle()
        # what is still open can be repeated and released
        for (c, p), x in sorted(last.items()):
            sc.send(c, publish("t", x, 2, p, 1))
            if rng.random() < .5:
                sc.send(c, pubrel(p), publish("t", count(), 2, p))
        out.append(sc.settle())
    return out


def qos2_many(rng, n, k=40):
    """many identifiers outstanding at once"""
    out = []
    for _ in range(n):
        sc = script(rng, "qos2_many", chaos=0)
        count = Count()
        observer(sc, 1, [("t", 1)])
        sc.join(2)
        r = rng.randrange(4)
        ids = rng.sample(range(1, 65536), k) if r < 2 else list(range(1, k + 1)) if r == 2 else \
            sorted({x % 65536 for h in range(6) for x in (h * 256 + 7, h * 4096 + 7, h + 250, 65530 + h)} - {0})
        rng.shuffle(ids)
        for p in ids:
            sc.send(2, publish("t", "first%d" % p, 2, p))
        sc.settle()
        rel = rng.sample(ids, len(ids) // 2)
        for p in rng.sample(ids, len(ids)):
            sc.send(2, publish("t", "first%d" % p, 2, p, 1))
        for p in rel:
            sc.send(2, pubrel(p))
        for p in rng.sample(ids, len(ids)):
            sc.send(2, publish("t", "second%d" % p, 2, p, rng.randrange(2)))
        out.append(sc.settle())
    return out


def qos2_hundreds(rng, n, k=320):
    """more outstanding identifiers than fit any small table, the oldest repeated at the end"""
    out = []
    for i in range(n):
        sc = script(rng, "qos2_hundreds", chaos=0)
        observer(sc, 1, [("t", rng.randrange(3))])
        sc.join(2)
        start = rng.choice([1, 1000, 65535 - k])
        ids = list(range(start, start + k)) if i % 2 else rng.sample(range(1, 65536), k)
        for at in range(0, k, 40):
            sc.send(2, b"".join(publish("t", "f%d." % p, 2, p, 0) for p in ids[at:at + 40])).settle()
        again = ids[:3] + rng.sample(ids, 6) + ids[-2:]
        sc.send(2, b"".join(publish("t", "f%d." % p, 2, p, 1) for p in again)).settle()
        for p in rng.sample(again, 6):
            sc.send(2, pubrel(p), publish("t", "s%d." % p, 2, p)).settle()
        out.append(sc)
    return out


# ------------------------------------------------------------ CONNECT handling

def first_packets():
    return [publish("t", "early"), publish("t", "early", 1, 5), publish("t", "early", 2, 6), subscribe(3, [("#", 1)]),
            unsubscribe(4, ["t"]), PING, DISCONNECT, puback(1), pubrec(2), pubrel(3), pubcomp(4),
            pkt(0x20, b"\0\0"), pkt(0x90, b"\0\1\0"), pkt(0xB0, b"\0\1"), pkt(0xD0), pkt(0xF0), pkt(0x00)]


def preconnect(rng, n):
    """every kind of packet before the CONNECT, alone or pipelined around one"""
    out = []
    fp = first_packets()
    for i in range(n):
        sc = script(rng, "preconnect")
        count = Count()
        observer(sc, 1)
        sc.open(2)
        p = fp[i % len(fp)]
        style = (i // len(fp)) % 4
        if style == 0:
            sc.send(2, p).settle().send(2, connect("two"), publish("t", "no", 1, 1)).settle()
        elif style == 1:
            sc.send(2, p, connect("two"), publish("t", "no", 1, 1), PING)
        elif style == 2:
            sc.pieces(2, p + connect("two"), [1], ("settle",))
        else:
            sc.send(2, rng.choice(fp), rng.choice(fp), connect("two"), PING)
        sc.settle()
        check_alive(sc, [1], count)
        sc.join(3, "two").send(3, PING).settle()
        out.append(sc)
    return out


def pipelined_connect(rng, n):
    """requests sent along with the CONNECT; a second CONNECT at any point"""
    out = []
    for _ in range(n):
        sc = script(rng, "pipelined_connect", cap=rng.choice([None, 1, 2]))
        count = Count()
        observer(sc, 1)
        sc.open(2)
        ps = session_bytes(rng, count)
        if rng.random() < .6:
            second = rng.choice([connect("two"), connect("other"), connect("c1"), connect(""), connect("x", level=5), connect("", clean=False)])
            ps.insert(rng.randrange(len(ps) + 1), second)
        if rng.random() < .3:
            sc.op("wmode", 2, rng.choice([1, "rand"]))
        data = connect("two") + b"".join(ps)
        if rng.random() < .5:
            sc.send(2, data)
        else:
            sc.pieces(2, data, sorted(rng.sample(range(1, len(data)), 3)), rng.choice([None, ("step", 2), ("settle",)]))
        sc.settle()
        check_alive(sc, [1, 2], count)
        sc.probe()
        out.append(sc)
    return out


def connect_variants(rng):
    """CONNECT packets valid, refused and malformed"""
    v = []
    for level in [0, 1, 2, 3, 5, 6, 127, 128, 131, 132, 255]:
        v.append(connect("x%d" % level, level=level))
    for f in range(256):
        tail = b""
        if f & 4: tail += s("will/t") + s("gone")
        if f & 128: tail += s("user")
        if f & 64: tail += s("pass")
        v.append(connect("f%d" % f, flags=f, tail=tail))
    v += [connect("", clean=False), connect("", clean=True), connect("", clean=True, keep=5),
          connect("x", name="MQIsdp", level=3), connect("x", name="MQT"), connect("x", name="mqtt"), connect("x", name=""),
          connect("x", name="MQTTT"), connect("bin", flags=0xC2, tail=s("user") + s(b"\xff\xfe\0\x80")),
          connect("bin", flags=0x06, tail=s("w") + s(b"\xff\0")), connect("w0", flags=0x06, tail=s("w") + s(b"")),
          connect("u0", flags=0x82, tail=s("")), connect("p0", flags=0xC2, tail=s("") + s("")),
          connect("extra", tail=b"\0"), connect("extra", tail=s("more")), connect("short", flags=0x82), connect("short", flags=0x06, tail=s("w")),
          connect("nul\0"), connect(b"\xff\xfe"), connect(b"\xed\xa0\x80"), connect("é日本😀"), connect("c" * 200), connect(" "),
          pkt(0x10), pkt(0x10, s("MQTT")), pkt(0x10, s("MQTT") + b"\4"), pkt(0x10, s("MQTT") + b"\4\2\0"), pkt(0x10, s("MQTT") + b"\4\2\0\0"),
          pkt(0x10, s("MQTT") + b"\4\2\0\0\0"), pkt(0x10, s("MQTT") + b"\4\2\0\0\0\5ab"), pkt(0x11, connect("fl")[2:]), pkt(0x18, connect("fl")[2:])]
    for w in range(3):
        v.append(connect("will%d" % w, flags=0x06 | w << 3, tail=s("w/t") + s("bye")))
        v.append(connect("willr%d" % w, flags=0x26 | w << 3, tail=s("w/t") + s("bye")))
    # the same identifier and half broken payloads
    v += [connect("c1", level=5), connect("c1", level=3), connect("c1", flags=0x03), connect("c1", flags=0x42, tail=s("p")), connect("c1", tail=b"x")]
    # the level wins over anything wrong behind it
    v += [connect("x", level=5, flags=0x01), connect("", level=3, clean=False)]
    return v


def refusal(rng, n):
    """CONNECTs of all kinds while another client is connected"""
    out = []
    v = connect_variants(rng)
    keepers = v[:11] + v[267:]
    rng.shuffle(v)
    rng.shuffle(keepers)
    todo = (keepers + v)
    per = 4
    for i in range(0, min(len(todo), n * per), per):
        sc = script(rng, "refusal")
        count = Count()
        observer(sc, 1)
        for c, d in enumerate(todo[i:i + per], 2):
            sc.open(c).send(c, d)
            if rng.random() < .4:
                sc.send(c, publish("t", count(), 1, 9))
            if rng.random() < .7:
                sc.settle()
        sc.settle()
        for c in range(2, 2 + per):
            sc.send(c, publish("t", count(), 1, 3), PING)
        sc.settle()
        check_alive(sc, [1], count)
        sc.probe()
        out.append(sc)
    return out


def anonymous(rng, n):
    """clients without an identifier are all different"""
    out = []
    for _ in range(n):
        sc = script(rng, "anonymous")
        count = Count()
        for c in range(1, 5):
            sc.open(c).send(c, connect("", keep=rng.choice([0, 0, 100])))
            if rng.random() < .5:
                sc.settle()
            sc.send(c, subscribe(1, [("t", rng.randrange(3))]))
        sc.settle().send(1, publish("t", count(), 1, 1)).settle()
        sc.send(2, DISCONNECT).settle().send(3, publish("t", count(), 2, 1)).settle()
        out.append(sc.probe())
    return out


# ------------------------------------------------------------------- takeover

def takeover(rng, n):
    """an identifier changes hands while its earlier owners are busy"""
    out = []
    for _ in range(n):
        sc = script(rng, "takeover", cap=rng.choice([None, None, 0, 0, 1, 2]))
        count = Count()
        observer(sc, 1)
        sc.join(2, "pub")
        chain = rng.randint(2, 4)
        base = 3
        sc.join(base, "shared").send(base, subscribe(1, [("t", rng.randrange(3)), ("old/+", 1)])).settle()
        if rng.random() < .3:
            sc.op("stall", base, rng.choice([0, 2, 30]))
            sc.send(2, b"".join(publish("t", count(), 1, i + 1) for i in range(rng.choice([2, 10]))))
        for k in range(1, chain):
            old, new = base + k - 1, base + k
            ops = []
            busy = rng.choice([
                [subscribe(5, [("x/#", 1)])], [unsubscribe(6, ["t"])], [DISCONNECT], [publish("t", count(), 1, 8)],
                [publish("t", count(), 2, 9), subscribe(7, [("t", 2)])], [PING, PING], [], ["eof"], ["rst"], ["gone"],
                [subscribe(5, [("x/#", 1)]), DISCONNECT], [unsubscribe(6, ["t"]), "eof"], [b"\xf0\0"],
                [connect("shared")], [subscribe(2, [("x/y", 0)]), "rst"]])
            for b in busy:
                ops.append((lambda b=b: sc.op(b, old)) if isinstance(b, str) else (lambda b=b: sc.send(old, b)))
            ops.append(lambda: sc.step(rng.randint(1, 5)))
            ops.insert(rng.randrange(len(ops) + 1), lambda: sc.open(new).send(new, connect("shared")))
            if rng.random() < .5:
                ops.append(lambda: sc.send(new, subscribe(2, [(rng.choice(["t", "x/y", "x/#"]), rng.randrange(3))])))
            for o in ops:
                o()
                if rng.random() < .3:
                    sc.step(rng.randint(1, 6))
                if rng.random() < .3:
                    sc.send(2, publish(rng.choice(["t", "x/y", "old/a"]), count(), rng.randrange(3), count.n + 1))
            if rng.random() < .5:
                sc.settle()
        sc.settle()
        last = base + chain - 1
        for t in ("t", "x/y", "old/a"):
            sc.send(2, publish(t, count(), 1, count.n + 1))
        sc.send(last, PING, subscribe(9, [("t", 1)])).settle()
        for t in ("t", "x/y", "old/a"):
            sc.send(2, publish(t, count(), 1, count.n + 1))
        sc.settle()
        sc.send(last, unsubscribe(11, ["t"])).settle().send(2, publish("t", count(), 1, 99)).settle()
        out.append(sc.probe())
    return out


def takeover_late(rng, n):
    """what the last owner of an identifier asked for arrives when the session is already somebody else's"""
    out = []
    for _ in range(n):
        sc = script(rng, "takeover_late", cap=rng.choice([None, None, None, 0, 1, 2]), chaos=rng.choice([0, 10, 30, 60, 90]))
        count = Count()
        sc.join(1).join(2, "shared", keep=rng.choice([0, 60]))
        sc.send(2, subscribe(1, [("t", 1), ("u", 0)])).settle()
        direct = rng.random() < .75
        if not direct and rng.random() < .3: sc.op("stall", 2, rng.choice([0, 4]))
        new = [subscribe(1, [("t", rng.randrange(3)), ("u", rng.randrange(3))])]
        old = rng.choice([[unsubscribe(5, ["t", "u"])], [unsubscribe(5, ["t"]), unsubscribe(6, ["u"])], [subscribe(5, [("t", 0), ("v", 2)])],
                          [publish("w", count(), 1, 7), unsubscribe(5, ["t"])], [PING, subscribe(5, [("v", 1)]), unsubscribe(6, ["u"])],
                          [unsubscribe(5, ["u"]), DISCONNECT], [subscribe(5, [("#", 2)]), DISCONNECT]])
        sc.open(3)
        if rng.random() < .5: sc.settle()
        # both at about the same time, one of them perhaps not run for a while
        if direct:
            sc.settle().op("lag", 2, rng.choice([3, 6, 10, 20, 40]))
        elif rng.random() < .7:
            sc.op("lag", rng.choice([2, 2, 2, 3]), rng.choice([3, 10, 20, 40, 80]))
        a = lambda: [sc.send(2, x) for x in old]
        b = lambda: sc.send(3, connect("shared"), *new) if direct or rng.random() < .6 else sc.send(3, connect("shared")).step(rng.randint(1, 6)).send(3, *new)
        for f in (a, b) if direct else rng.choice([(a, b), (b, a)]):
            f()
            if not direct and rng.random() < .5: sc.step(rng.randint(1, 8))
        if not direct and rng.random() < .4: sc.op(rng.choice(["eof", "rst", "gone"]), 2)
        if rng.random() < .6: sc.settle()
        for t in ("t", "u", "v", "w"):
            sc.send(1, publish(t, count(), rng.randrange(1, 3), count.n + 1))
        sc.settle()
        if rng.random() < .5:
            sc.op("unstall", 2).settle()
        if rng.random() < .4:
            sc.join(2, "other").send(2, subscribe(1, [("t", 2)])).settle()
        for t in ("t", "u", "v"):
            sc.send(1, publish(t, count(), 1, count.n + 1))
        out.append(sc.settle().probe())
    return out


def takeover_race(rng, n):
    """several connections claim an identifier at once"""
    out = []
    for _ in range(n):
        sc = script(rng, "takeover_race", cap=rng.choice([None, 0, 1]), chaos=rng.choice([10, 30, 60]))
        count = Count()
        observer(sc, 1)
        for c in range(2, 6):
            sc.open(c)
        for c in rng.sample(range(2, 6), 4):
            sc.send(c, connect("same"), subscribe(c, [("t", 1)]), publish("u", count(), 1, c))
            if rng.random() < .3:
                sc.step(rng.randint(1, 5))
            if rng.random() < .15:
                sc.op(rng.choice(["eof", "rst", "gone"]), c)
        sc.settle()
        sc.send(1, publish("t", count(), 1, 4)).settle()
        for c in range(2, 6):
            sc.send(c, PING)
        out.append(sc.settle().probe())
    return out


# ------------------------------------------------------------------ malformed

def malformed_packets(rng):
    def body(x): return s(x)
    long5 = bytes([0x30]) + b"\xff\xff\xff\xff\x01"
    out = [
        # reserved types and packets that only a broker sends
        pkt(0x00), pkt(0xF0), pkt(0x0F, b"abc"), pkt(0xF5, b"ab"), pkt(0x20, b"\0\0"), pkt(0x90, b"\0\1\0"), pkt(0xB0, b"\0\1"), pkt(0xD0),
        # reserved flags
        pkt(0x80, subscribe(1, [("t", 1)])[2:]), pkt(0x8A, subscribe(1, [("t", 1)])[2:]), pkt(0x83, subscribe(1, [("t", 1)])[2:]),
        pkt(0xA0, unsubscribe(1, ["t"])[2:]), pkt(0xA3, unsubscribe(1, ["t"])[2:]), pkt(0x60, u16(4)), pkt(0x63, u16(4)),
        pkt(0x41, u16(4)), pkt(0x52, u16(4)), pkt(0x71, u16(4)), pkt(0xC1), pkt(0xC8), pkt(0xE1), pkt(0xE2),
        # QoS 3
        pkt(0x36, s("t") + u16(4) + b"x"), pkt(0x3E, s("t") + u16(4) + b"x"),
        # identifiers of zero
        pkt(0x32, s("t") + u16(0) + b"x"), pkt(0x34, s("t") + u16(0) + b"x"), subscribe(0, [("t", 1)]), unsubscribe(0, ["t"]),
        # wrong lengths
        pkt(0x40), pkt(0x40, b"\1"), pkt(0x40, b"\0\1\0"), pkt(0x50, b"\1"), pkt(0x50, b"\0\1\0\0"), pkt(0x62, b"\0"), pkt(0x62, b"\0\1\0"),
        pkt(0x70), pkt(0x70, b"\0\1\1"), pkt(0xC0, b"x"), pkt(0xE0, b"x"), pkt(0xE0, b"\0"),
        pkt(0x30), pkt(0x30, b"\0"), pkt(0x30, b"\0\5ab"), pkt(0x32, s("t")), pkt(0x32, s("t") + b"\1"), pkt(0x34, s("t")), pkt(0x30, b"\xff\xffab"),
        pkt(0x82), pkt(0x82, u16(1)), pkt(0x82, b"\1"), pkt(0x82, u16(1) + s("t")), pkt(0x82, u16(1) + b"\0\5t\1"), pkt(0x82, u16(1) + s("t") + b"\1" + s("u")),
        pkt(0x82, u16(1) + s("t") + b"\1\0"), pkt(0x82, u16(1) + s("t") + b"\3"), pkt(0x82, u16(1) + s("t") + b"\x80"), pkt(0x82, u16(1) + s("t") + b"\5"),
        pkt(0x82, u16(1) + s("ok") + b"\1" + s("t") + b"\3"),
        pkt(0xA2), pkt(0xA2, u16(1)), pkt(0xA2, b"\1"), pkt(0xA2, u16(1) + b"\0\5t"), pkt(0xA2, u16(1) + s("t") + b"\0"), pkt(0xA2, u16(1) + s("t") + b"\0\5"),
        # topics
        publish("", "x"), publish("a/#", "x"), publish("+", "x", 1, 3), publish("a+b", "x"), publish("a#", "x", 2, 3), publish("#", "x"), publish("a/+/b", "y", 1, 2),
        # strings
        publish(b"\xff", "x"), publish(b"a\xc3", "x"), publish(b"\xc0\x80", "x"), publish(b"\xed\xa0\x80", "x"), publish("a\0b", "x"), publish(b"\xf5\x80\x80\x80", "x"),
        publish(b"\xe0\x80\x80", "x"), publish(b"\x80", "x"), publish(b"\xf4\x90\x80\x80", "x", 1, 1),
        subscribe(1, [("ok", 1), (b"\xff", 1)]), subscribe(1, [("a\0", 1)]), unsubscribe(1, [b"\xfe"]), unsubscribe(1, ["ok", "a\0"]),
        # remaining length of five bytes
        long5, bytes([0x82]) + b"\x80\x80\x80\x80\x01", bytes([0x10]) + b"\xff\xff\xff\xff\x7f", bytes([0xC0]) + b"\x80\x80\x80\x80\0",
    ]
    return out


def malformed(rng, n):
    """a malformed packet in the middle of a session, good packets before and after it"""
    out = []
    m = malformed_packets(rng)
    rng.shuffle(m)
    for i in range(n):
        sc = script(rng, "malformed")
        count = Count()
        observer(sc, 1, [("#", rng.randrange(3))])
        sc.join(2)
        bad = m[i % len(m)]
        before = b"".join(rng.choice([publish("t", count(), 1, 5), subscribe(6, [("x", 1)]), PING, publish("t", count(), 2, count.n), b""]) for _ in range(rng.randint(0, 3)))
        after = rng.choice([b"", publish("t", "after", 1, 9), subscribe(4, [("t", 2)]), PING, DISCONNECT])
        data = before + bad + after
        if rng.random() < .5:
            sc.send(2, data)
        else:
            sc.pieces(2, data, [rng.randrange(1, len(data)) for _ in range(2)], rng.choice([None, ("step", 3)]))
        if rng.random() < .2:
            sc.eof(2)
        sc.settle()
        check_alive(sc, [1], count)
        sc.send(1, publish("x", count()))
        sc.join(3, "c2").send(3, PING).settle()
        out.append(sc.probe())
    return out


def malformed_first(rng, n):
    """malformed input instead of a CONNECT"""
    out = []
    m = malformed_packets(rng) + [bytes(rng.randrange(256) for _ in range(rng.randint(1, 40))) for _ in range(40)] + [
        b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", b"\x16\x03\x01\x02\0\x01\0", b"\0" * 50, b"\xff" * 50, b"\x10\xff\xff\xff\xff", b"\x10\xff\xff\xff\x7f"]
    rng.shuffle(m)
    for i in range(n):
        sc = script(rng, "malformed_first")
        count = Count()
        observer(sc, 1)
        sc.open(2).send(2, m[i % len(m)])
        if rng.random() < .5:
            sc.settle_ok = False
        sc.eof(2).settle()
        check_alive(sc, [1], count)
        out.append(sc.probe())
    return out


def mutate(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.randrange(6)
        i = rng.randrange(len(b)) if b else 0
        if not b: break
        if k == 0: b[i] ^= 1 << rng.randrange(8)
        elif k == 1: b[i] = rng.choice([0, 1, 2, 127, 128, 255])
        elif k == 2: del b[i]
        elif k == 3: b.insert(i, rng.randrange(256))
        elif k == 4: del b[i:]
        else: b[i:i] = b[rng.randrange(len(b)):][:rng.randint(1, 8)]
    return bytes(b)


def fuzz(rng, n):
    """valid streams with random damage"""
    out = []
    for _ in range(n):
        sc = script(rng, "fuzz")
        count = Count()
        observer(sc, 1, [("#", 2)])
        sc.open(2)
        ps = session_bytes(rng, count)
        if rng.random() < .2:
            data = mutate(rng, connect("two", keep=rng.choice([0, 30]))) + b"".join(ps)
        else:
            i = rng.randrange(len(ps))
            ps[i] = mutate(rng, ps[i])
            data = connect("two") + b"".join(ps)
        if b"$share" in data:
            continue
        sc.send(2, data) if rng.random() < .6 else sc.pieces(2, data, [rng.randrange(1, len(data) + 1) for _ in range(3)], ("step", 2))
        # what is left incomplete ends with the stream
        sc.eof(2).settle()
        check_alive(sc, [1], count)
        sc.join(3, "two").send(3, PING).settle()
        out.append(sc.probe())
    return out


# ----------------------------------------------------------- isolation, stalls

def stalls(rng, n, big=False):
    """clients that do not read, flood, stop in the middle of packets or vanish, and others that must be served"""
    out = []
    for _ in range(n):
        cap = rng.choice([1, 1, 2, 2, 3, 5, 0, 0, None]) if not big else None
        k = rng.randint(10, 40) if cap else rng.randint(110, 150)
        sc = script(rng, "stalls", cap=cap)
        count = Count()
        good = [1, 2]
        observer(sc, 1, [("good", rng.randrange(3))])
        sc.join(2)
        bad = list(range(3, 3 + rng.randint(1, 3)))
        for c in bad:
            sc.join(c).send(c, subscribe(1, [(rng.choice(["#", "f", "f"]), rng.randrange(3))])).settle()
            if rng.random() < .8:
                sc.op("stall", c, rng.choice([0, 0, 1, 3, 50]))
        pid = 1
        for round_ in range(rng.randint(1, 3 if cap else 2)):
            src = rng.choice(bad + [2])
            sc.send(src, b"".join(publish("f", count(), rng.choice([0, 0, 1, 2]), pid + i) for i in range(k)))
            pid += k
            r = rng.random()
            if r < .3: sc.settle()
            elif r < .6: sc.step(rng.randint(1, 60))
            x = rng.choice(bad)
            r = rng.random()
            if r < .15: sc.op("gone", x)
            elif r < .3: sc.op("rst", x)
            elif r < .4: sc.send(x, PING * 30)
            elif r < .5: sc.send(x, b"\x30\x7f\0\x01")
            elif r < .6: sc.send(x, subscribe(3, [("g", 1)]), unsubscribe(4, ["g"]))
            elif r < .7: sc.op("unstall", x)
            elif r < .8: sc.open(9).send(9, connect("c%d" % x))
            elif r < .9: sc.send(x, DISCONNECT)
        for c in good:
            sc.send(c, PING, subscribe(8, [("good2", 1)]), publish("good", count(), 1, 60000 + c), publish("good2", count(), 2, 60100 + c))
        sc.settle()
        sc.join(8).send(8, subscribe(1, [("good", 0)])).settle().send(2, publish("good", count())).settle()
        if rng.random() < .6:
            for c in bad:
                sc.op("unstall", c)
            sc.settle()
        sc.probe()
        out.append(sc)
    return out


def stalled_request(rng, n):
    """a client that has stopped reading asks for something of every kind, while
    others flood it; then it resumes, vanishes, is replaced, expires, or all ends"""
    kinds = ["ping", "subscribe", "unsubscribe", "publish1", "publish2", "pubrel", "pubrec", "connect again", "refused", "joins", "joins taken"]
    out = []
    todo = list(itertools.product(kinds, ["unstall", "rst", "gone", "eof", "takeover", "expire", "int", "nothing", "more"]))
    rng.shuffle(todo)
    for i in range(n):
        kind, end = todo[i % len(todo)]
        cap = rng.choice([1, 2, 0, 0, 0, 0, None])
        k = rng.randint(6, 30) if cap else rng.randint(101, 130)
        sc = script(rng, "stalled_request", cap=cap)
        count = Count()
        sc.join(2)
        observer(sc, 1, [("f", rng.randrange(3)), ("good", 0)])
        window = rng.choice([0, 0, 0, 1, 2, 3, 20, None, None])
        stall = lambda: sc.op("stall", 3, window) if window is not None else sc
        fresh = kind in ("refused", "joins", "joins taken")
        name = "c3"
        keep = 10 if end == "expire" else 0
        if fresh:
            if kind == "joins taken":
                sc.join(4, name).send(4, subscribe(1, [("f", 1)])).settle()
            sc.open(3)
        else:
            sc.join(3, name, keep).send(3, subscribe(1, [("f", rng.randrange(3)), ("own", 1)])).settle()
        stall()
        flood = lambda: sc.send(rng.choice([1, 2]), b"".join(publish("f", count(), rng.randrange(3), 100 + count.n) for _ in range(k)))
        if rng.random() < .4:
            flood()
            rng.choice([sc.settle, lambda: sc.step(rng.randint(1, 30)), lambda: None])()
        ask = {"ping": PING, "subscribe": subscribe(2, [("g", 1), ("own", 0)]), "unsubscribe": unsubscribe(3, ["own", "g"]),
               "publish1": publish("f", count(), 1, 4), "publish2": publish("own", count(), 2, 5), "pubrel": pubrel(6), "pubrec": pubrec(7),
               "connect again": connect(name), "joins": connect(name, keep) + subscribe(1, [("f", 1)]),
               "joins taken": connect(name, keep) + subscribe(1, [("f", 1)]),
               "refused": rng.choice([mv.connect("x", level=5), mv.connect("x", level=3), mv.connect("", clean=False)])}[kind]
        sc.send(3, ask * rng.choice([1, 1, 3]) if kind in ("ping", "pubrel", "pubrec") else ask)
        for _ in range(rng.randint(1, 3)):
            rng.choice([sc.settle, lambda: sc.step(rng.randint(1, 10)), lambda: None])()
            flood()
        if rng.random() < .3:
            sc.send(3, rng.choice([PING, unsubscribe(9, ["f"]), publish("good", count(), 1, 9), DISCONNECT, subscribe(11, [("f", 0)])]))
        rng.choice([sc.settle, sc.settle, lambda: sc.step(rng.randint(1, 30))])()
        if end == "takeover": sc.open(5).send(5, connect(name)).settle().send(5, subscribe(1, [("f", 1)])).settle()
        elif end == "expire": sc.adv(15300 if not fresh else 60300).settle()
        elif end == "int": sc.op("int").settle()
        elif end == "more": sc.send(3, publish("f", count(), 1, 12), unsubscribe(13, ["f"])).settle()
        elif end != "nothing": sc.op(end, 3).settle()
        if end != "int":
            for c in (1, 2):
                sc.send(c, PING, subscribe(8, [("good2", 1)]), publish("good", count(), 1, 60000 + c), publish("good2", count(), 2, 60100 + c))
            sc.settle()
            if end == "nothing" and rng.random() < .5:
                sc.op("unstall", 3).settle()
            sc.probe()
        out.append(sc)
    return out


def mutual(rng, n):
    """clients that flood each other without reading"""
    out = []
    for _ in range(n):
        cap = rng.choice([1, 2, 4, 0, None])
        k = 30 if cap else 250
        sc = script(rng, "mutual", cap=cap)
        count = Count()
        for c in (1, 2, 3):
            sc.join(c).send(c, subscribe(1, [("m", rng.randrange(3))])).settle()
        for c in (1, 2):
            sc.op("stall", c, rng.choice([0, 7]))
        for c in (1, 2):
            sc.send(c, b"".join(publish("m", count(), rng.randrange(2), i + 1) for i in range(k)))
        rng.choice([sc.settle, lambda: sc.step(50)])()
        sc.send(3, PING, publish("m", count(), 1, 1)).settle()
        for c in rng.sample([1, 2], 2):
            rng.choice([lambda: sc.op("unstall", c), lambda: sc.op("unstall", c), lambda: sc.op("rst", c)])()
            sc.settle()
        sc.send(3, PING).settle()
        out.append(sc)
    return out


def half_open(rng, n):
    """connections that never finish anything, and errors on accept"""
    out = []
    for _ in range(n):
        sc = script(rng, "half_open")
        count = Count()
        observer(sc, 1)
        for c in range(2, 8):
            r = rng.random()
            if r < .2: sc.op("accepterr")
            sc.open(c)
            d = connect("h%d" % c) + subscribe(1, [("t", 1)])
            cut = rng.randrange(len(d))
            if cut: sc.send(c, d[:cut])
            if rng.random() < .3: sc.op(rng.choice(["eof", "gone", "rst"]), c)
            if rng.random() < .3: sc.op("accepterr")
        sc.settle()
        check_alive(sc, [1], count, "t")
        sc.join(8).send(8, subscribe(2, [("t", 1)])).settle()
        check_alive(sc, [1, 8], count, "t")
        out.append(sc)
    return out


def crowd(rng, n, k=None):
    """very many connections at the same time, a third of which say nothing (decided by Crowd.tla)"""
    k = k or (5000 if n < 2 else 11000)
    out = []
    for _ in range(n):
        sc = script(rng, "crowd", chaos=0)
        sc.join(1)
        said = 0

        def publish():
            nonlocal said
            said += 1
            sc.settle().send(1, mv.publish("t", str(said), 0)).settle()

        here = []
        for c in range(2, k):
            if c % 3:
                sc.join(c, settle=False)
                here.append(c)
            else:
                sc.open(c)
            if c % 7 == 1 and c % 3:
                sc.settle().send(c, subscribe(1, [("t", 0)])).settle()
            if c in (90, 1000, 2100, 4500, 9000):
                publish()
        sc.settle()
        publish()
        for c in rng.sample(here, len(here) // 3):
            sc.op(rng.choice(["rst", "gone", "eof"]), c)
            here.remove(c)
        sc.settle()
        publish()
        for c, old in zip(range(3 * k + 1, 6 * k, 3), rng.sample(here, 60)):
            sc.open(c).send(c, connect("c%d" % old)).settle()
        publish()
        for c in range(k, k + 200):
            if c % 3:
                sc.join(c, settle=False)
        sc.settle()
        publish()
        out.append(sc)
    return out


def nameless(rng, n, k=2400):
    """very many clients without an identifier of their own, all of which are different (decided by Crowd.tla)"""
    out = []
    for _ in range(n):
        sc = script(rng, "nameless", chaos=0)
        sc.join(1)
        c, said = 2, 0

        def publish():
            nonlocal said
            said += 1
            sc.settle().send(1, mv.publish("t", str(said), 0)).settle()

        for _ in range(k):
            c += 1 + (c % 3 == 2)
            sc.open(c).send(c, connect(""))
            if rng.random() < .02:
                sc.settle().send(c, subscribe(1, [("t", 0)])).settle()
        sc.settle()
        publish()
        # some that have chosen what somebody might have thought up for those who have not
        for name in ["0", "1", "2", "3", str(k), "1000", "c2", "auto-1", "auto1", "client-1", "client1", "anonymous", "anonymous-1", "anon-2",
                     "anon1", "mqtt-1", "mqtt_1", "generated-1", "id-1", "guest", "guest-1", "127.0.0.1", " ", "null", "-"]:
            c += 1 + (c % 3 == 2)
            sc.open(c).send(c, connect(name)).settle()
        publish()
        out.append(sc)
    return out


def busy(rng, n, k=116):
    """everything that can be asked for while the broker has its hands full with somebody else's publications"""
    out = []
    for i in range(n):
        cap = rng.choice([None, 1, 2, 3])
        sc = script(rng, "busy", chaos=rng.choice([0, 10]), cap=cap)
        count = Count()
        observer(sc, 1)
        sc.join(2).join(3).join(4).send(3, subscribe(1, [("t", 1)])).settle()
        new = 10
        for c in rng.choice([[2], [2], [2], [2, 4]]):
            sc.send(c, b"".join(publish("z", "", 0) for _ in range(20 if cap else k)))
        for _ in range(rng.randint(1, 4)):
            sc.step(rng.choice([0, 1, 2, 2, 3, 3, 4, 6, rng.randint(5, 120)]))
            what = rng.choice(["join", "join", "take", "sub", "unsub", "pub", "bye", "rst", "refuse", "ping", "anon"])
            if what == "join": sc.join(new, settle=False)
            elif what == "take": sc.open(new).send(new, connect("c%d" % rng.choice([2, 3, 4])))
            elif what == "refuse": sc.open(new).send(new, connect("r", level=5))
            elif what == "anon": sc.open(new).send(new, mv.connect(""))
            elif what == "sub": sc.send(1, subscribe(3, [("u", 0)]))
            elif what == "unsub": sc.send(1, unsubscribe(4, ["t"]))
            elif what == "pub": sc.send(1, publish("t", count(), 1, 5))
            elif what == "ping": sc.send(rng.choice([1, 3]), PING)
            elif what == "bye": sc.send(3, DISCONNECT)
            else: sc.op(rng.choice(["rst", "gone", "eof"]), rng.choice([2, 3, 4]))
            new += 1
        sc.settle().join(new).send(new, subscribe(2, [("t", 1)])).settle()
        check_alive(sc, [1, new], count, "t")
        out.append(sc.probe())
    return out


def arrivals(rng, n):
    """many clients come, some at the same time, some through failing accepts, while others idle, stall or leave"""
    out = []
    for i in range(n):
        sc = script(rng, "arrivals", cap=rng.choice([None, None, 0, 1]))
        count = Count()
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2, 5])): sc.op("accepterr")
            if rng.random() < .5: sc.settle()
        observer(sc, 1)
        burst = rng.random() < .5
        k = rng.choice([3, 6, 9] if burst else [3, 6, 12, 25])
        for c in range(2, k + 2):
            for _ in range(rng.choice([0, 0, 0, 1, 3])): sc.op("accepterr")
            sc.open(c)
            r = rng.random()
            d = connect("a%d" % c) if r < .8 else connect("a%d" % rng.randint(2, k + 1)) if r < .9 else mv.connect("")
            r = rng.random()
            if r < .6: sc.send(c, d)
            elif r < .7: sc.send(c, d, publish("t", count(), 1, 3))
            elif r < .8: sc.send(c, d[:rng.randrange(1, len(d))])
            elif r < .9: sc.op(rng.choice(["rst", "gone", "eof"]), c)
            if rng.random() < .1: sc.op("stall", c, rng.choice([0, 2, 9]))
            if not burst: rng.choice([lambda: sc.step(rng.randint(1, 6)), sc.settle, lambda: None])()
        if rng.random() < .3: sc.op("accepterr")
        sc.settle()
        if rng.random() < .3: sc.adv(rng.choice([1000, 29000, 61000]))
        sc.join(k + 2).send(k + 2, subscribe(2, [("t", 1)])).settle()
        check_alive(sc, [1, k + 2], count, "t")
        out.append(sc)
    return out


# ------------------------------------------------------------------ keep-alive

def keepalive(rng, n):
    """clients at, within and beyond their keep-alive interval"""
    out = []
    signs = [PING, puback(5), pubcomp(6), pubrec(7), pubrel(8), lambda c: publish("k", c(), 0), lambda c: publish("k", c(), 1, 3),
             lambda c: publish("k", c(), 2, c.n), subscribe(3, [("z", 1)]), unsubscribe(4, ["z"])]
    for i in range(n):
        sc = script(rng, "keepalive", chaos=rng.choice([0, 10]))
        count = Count()
        observer(sc, 1, [("k", rng.randrange(3))])
        K = rng.choice([1, 2, 3, 5, 10, 60, 100, 600, 3600, 43690, 43691, 65535])
        sc.join(2, keep=K)
        only = rng.choice([None, None, rng.choice(signs)])
        ms = K * 1000
        late, pieces = b"", rng.random() < .4
        for _ in range(rng.randint(1, 5)):
            wait = rng.choice([ms - 2, ms // 2, ms - 30, ms * 9 // 10])
            if rng.random() < .3:
                # deliveries to the client are no sign of life, nor harmful
                sc.adv(wait // 2).send(1, publish("d2", count())).adv(wait - wait // 2 - 1)
            else:
                sc.adv(wait)
            p = only or rng.choice(signs)
            p = late + (p(count) if callable(p) else p)
            late = b""
            if pieces and rng.random() < .8:
                # the beginning of the next packet comes with this one
                more = rng.choice(signs)
                more = more(count) if callable(more) else more
                cut = rng.randint(1, len(more) - 1)
                p, late = p + more[:cut], more[cut:]
            sc.send(2, p)
            sc.settle()
        if late:
            sc.send(2, late).settle()
        end = rng.random()
        if end < .5:
            sc.adv(ms * 3 // 2 + 300).send(2, PING).settle()
        elif end < .7:
            # half a packet is no packet
            sc.adv(ms // 2).send(2, b"\xc0").adv(ms + 400).settle()
        elif end < .85:
            sc.adv(ms // 2).eof(2).settle()
        out.append(sc.settle().probe())
    return out


def keepalive_fed(rng, n):
    """a silent client that is sent deliveries all the time must be closed as well; a stalled one too"""
    out = []
    for i in range(n):
        sc = script(rng, "keepalive_fed", chaos=0)
        count = Count()
        K = rng.choice([1, 2, 4, 10, 30])
        sc.join(1).join(2, keep=K).send(2, subscribe(1, [("k", i % 3)])).settle()
        if i % 4 == 3:
            sc.op("stall", 2)
        t = 0
        while t < K * 1500 + 300:
            d = K * rng.choice([100, 200, 300])
            sc.adv(d)
            t += d
            sc.send(1, publish("k", count(), rng.randrange(3), count.n + 1))
            sc.settle()
            t += 1
        out.append(sc.adv(K * 200).probe())
    return out


def keepalive_zero(rng, n):
    """keep-alive 0: never; no CONNECT: one minute; slow CONNECT"""
    out = []
    for i in range(n):
        sc = script(rng, "keepalive_zero", chaos=rng.choice([0, 10]))
        count = Count()
        k = i % 6
        if k == 0:
            sc.join(1, keep=0).join(2, keep=0)
            for t in (59000, 3000, 40000, 90000, 1000000, 99000000):
                sc.adv(t).send(1, PING).settle()
            sc.send(2, PING, publish("t", "x", 1, 1))
        elif k == 1:
            sc.join(1).open(2).adv(60300).join(3)
        elif k == 2:
            sc.join(1).open(2).send(2, connect("slow")[:rng.randint(1, 15)]).adv(30000 + 30300).send(1, PING)
        elif k == 3:
            # a CONNECT in time, then the interval it asks for
            d = connect("slow", keep=rng.choice([0, 100]))
            sc.open(2).adv(15000).send(2, d[:5]).adv(10000).send(2, d[5:]).settle().adv(45000).send(2, PING).settle().adv(90000).send(2, PING)
        elif k == 4:
            sc.open(2)
            d = connect("drip")
            for j in range(12):
                sc.send(2, d[j:j + 1]).adv(6000)
        else:
            sc.open(1).send(1, connect("a", keep=0)).settle().open(2).send(2, connect("b", keep=1)).settle()
            sc.adv(2000).send(1, PING).settle().adv(200000).send(1, PING)
        out.append(sc.settle().settle())
    return out


# ------------------------------------------------------------------------ ends

def ends(rng, n):
    """every way to end a connection at every point of its life"""
    out = []
    for i in range(n):
        sc = script(rng, "ends", cap=rng.choice([None, None, 1, 3]))
        count = Count()
        observer(sc, 1, [("#", rng.randrange(3))])
        how = ["disc", "eof", "gone", "rst", "disc+more", "disc+eof", "partial+eof", "eof-now", "shut"][i % 9]
        point = (i // 9) % 5
        data = connect("c2")
        if point >= 1:
            data += subscribe(1, [("d", rng.randrange(3))])
        if point >= 2:
            data += b"".join(publish("t", count(), rng.randrange(3), count.n + 1) for _ in range(rng.choice([1, 5, 40])))
        if point == 0 and rng.random() < .3:
            data = b""
        sc.open(2)
        if rng.random() < .3:
            sc.op("wmode", 2, rng.choice([1, "rand"]))
        if data:
            sc.send(2, data)
        if point == 3:
            sc.settle().send(1, b"".join(publish("d", count(), rng.randrange(3), 100 + j) for j in range(rng.choice([1, 20]))))
        elif point == 4:
            sc.settle().op("stall", 2, rng.choice([0, 9])).send(1, b"".join(publish("d", count(), 1, 100 + j) for j in range(rng.choice([1, 20]))))
        for _ in range(rng.choice([0, 0, 1, 3])):
            sc.step(rng.randint(1, 6))
        if rng.random() < .3 and how != "eof-now":
            sc.settle()
        tail = publish("t", "after", 1, 4)
        if how == "disc": sc.send(2, DISCONNECT)
        elif how == "eof" or how == "eof-now": sc.eof(2)
        elif how == "gone": sc.gone(2)
        elif how == "rst": sc.rst(2)
        elif how == "disc+more": sc.send(2, DISCONNECT + tail + PING)
        elif how == "disc+eof": sc.send(2, DISCONNECT).eof(2)
        elif how == "shut": sc.eof(2).step(rng.randint(0, 4)).gone(2)
        else: sc.send(2, tail[:rng.randrange(1, len(tail))]).eof(2)
        sc.settle()
        if point == 4:
            sc.op("unstall", 2).settle()
        check_alive(sc, [1], count, "d")
        sc.join(3, "c2").send(3, PING).settle().send(1, publish("d", count())).settle()
        out.append(sc.probe())
    return out


def end_drain(rng, n):
    """much input followed by the end of the stream: all of it counts"""
    out = []
    for _ in range(n):
        sc = script(rng, "end_drain", cap=rng.choice([None, 1, 2, 5]))
        count = Count()
        observer(sc, 1, [("#", rng.randrange(2))])
        sc.join(2)
        if rng.random() < .5:
            sc.op("rmode", 2, rng.choice([1, 5, "rand", 100]))
        k = rng.choice([3, 20, 130])
        data = b"".join(publish("t", count(), rng.randrange(3), i + 1) for i in range(k))
        sc.send(2, data)
        if rng.random() < .3:
            sc.send(2, subscribe(5, [("q", 1)]), publish("q", count(), 0))
        rng.choice([lambda: sc.eof(2), lambda: sc.send(2, DISCONNECT), lambda: sc.gone(2), lambda: sc.send(2, DISCONNECT).eof(2)])()
        out.append(sc.settle().probe())
    return out


def acked_then_gone(rng, n):
    """the publisher ends right after its acknowledgement"""
    out = []
    for i in range(n):
        sc = script(rng, "acked_then_gone", cap=rng.choice([None, 1, 1, 2]))
        count = Count()
        observer(sc, 1, [("t", rng.randrange(3))])
        slow = rng.random() < .5
        if slow:
            sc.join(4).send(4, subscribe(1, [("t", 1)])).settle()
            sc.op("wmode", 4, 1) if rng.random() < .5 else sc.op("stall", 4)
        sc.join(2)
        k = rng.choice([1, 1, 3, 12, 60])
        sc.send(2, b"".join(publish("t", count(), rng.choice([1, 2]), j + 1) for j in range(k)))
        sc.op("await", 2, 1 + rng.randint(1, k))
        for _ in range(rng.choice([0, 0, 1])):
            sc.step(rng.randint(1, 3))
        how = ["rst", "gone", "eof", "disc", "bad", "take", "stall"][i % 7]
        if how == "disc": sc.send(2, DISCONNECT)
        elif how == "bad": sc.send(2, b"\xf0\0")
        elif how == "take": sc.open(3).send(3, connect("c2"))
        elif how == "stall": sc.op("stall", 2).op("rst", 2)
        else: sc.op(how, 2)
        sc.settle()
        if slow:
            sc.op("unstall", 4)
        check_alive(sc, [1], count, "t")
        out.append(sc.settle())
    return out


# ------------------------------------------------------------------- interrupt

def interrupt(rng, n):
    """an interrupt at any point"""
    out = []
    for i in range(n):
        cap = rng.choice([None, None, 0, 1, 2])
        sc = script(rng, "interrupt", cap=cap)
        count = Count()
        k = rng.randint(0, 4)
        for c in range(1, k + 1):
            sc.open(c)
            r = rng.random()
            if r < .2: continue
            d = connect("c%d" % rng.choice([c, c, 1]), keep=rng.choice([0, 0, 10]))
            if r < .35:
                sc.send(c, d[:rng.randrange(1, len(d))])
                continue
            sc.send(c, d, subscribe(1, [(rng.choice(["#", "t"]), rng.randrange(3))]))
            if rng.random() < .5: sc.settle()
            if rng.random() < .4: sc.op("stall", c, rng.choice([0, 4]))
            if rng.random() < .2: sc.op("wmode", c, 1)
        for _ in range(rng.randint(0, 4)):
            if not k: break
            c = rng.randint(1, k)
            rng.choice([
                lambda: sc.send(c, b"".join(publish("t", count(), rng.randrange(3), j + 1) for j in range(rng.choice([2, 30] if cap else [2, 230])))),
                lambda: sc.send(c, PING * 5), lambda: sc.op(rng.choice(["eof", "gone", "rst"]), c), lambda: sc.send(c, DISCONNECT),
                lambda: sc.settle(), lambda: sc.step(rng.randint(1, 20)), lambda: sc.send(c, b"\x30\x20\0"), lambda: sc.op("accepterr"),
                lambda: sc.adv(rng.choice([1, 100, 5000]))])()
        if k and rng.random() < .3:
            # somebody comes while the broker has its hands full, and then the interrupt
            sc.send(k, b"".join(publish("z", "", 0) for _ in range(20 if cap else 116)))
            for c in range(20, 20 + rng.randint(1, 3)):
                sc.step(rng.randint(1, 6)).open(c)
                if rng.random() < .6: sc.send(c, connect("c%d" % c))
            sc.step(rng.randint(1, 6))
        elif rng.random() < .4: sc.settle()
        elif rng.random() < .7: sc.step(rng.randint(1, 12))
        sc.op("int")
        if rng.random() < .4:
            c = rng.randint(1, 6)
            rng.choice([lambda: sc.step(rng.randint(1, 5)), lambda: sc.open(7).send(7, connect("late")),
                        lambda: sc.send(1, PING) if k else None, lambda: sc.op("rst", 1) if k else None])()
        sc.settle()
        out.append(sc)
    return out


# ---------------------------------------------------------------------- writes

def writes(rng, n):
    """sockets that take little at a time, with responses and deliveries pending"""
    out = []
    for _ in range(n):
        sc = script(rng, "writes", cap=rng.choice([None, None, 2]))
        count = Count()
        sc.join(1).join(2)
        sc.send(1, subscribe(1, [("d", rng.randrange(3)), ("e", rng.randrange(3))])).settle()
        sc.op("wmode", 1, rng.choice([1, 1, 2, 3, 5, 17, "rand", "rand"]))
        for _ in range(rng.randint(3, 10)):
            r = rng.randrange(7)
            if r == 0: sc.send(1, PING * rng.randint(1, 4))
            elif r == 1: sc.send(1, subscribe(rng.choice(PIDS), [("x%d" % j, rng.randrange(3)) for j in range(rng.randint(1, 8))]))
            elif r == 2: sc.send(1, publish("e", count(), rng.randrange(3), count.n + 1))
            elif r in (3, 4): sc.send(2, b"".join(publish("d", (count() * rng.choice([1, 1, 5, 80])), rng.randrange(3), count.n + 1) for _ in range(rng.randint(1, 5))))
            elif r == 5: sc.op("stall", 1, rng.choice([0, 1, 2, 5, 11, 40]))
            else: sc.op("unstall", 1)
            rng.choice([sc.settle, lambda: sc.step(rng.randint(1, 10)), lambda: None])()
        if rng.random() < .8:
            sc.op("unstall", 1)
        if rng.random() < .2:
            sc.op("wmode", 1, "full")
        out.append(sc.settle())
    return out


def write_windows(rng, n):
    """the client's window opens one byte at a time in the middle of packets"""
    out = []
    for _ in range(n):
        sc = script(rng, "write_windows")
        count = Count()
        sc.join(1).join(2).send(1, subscribe(1, [("d", rng.randrange(3))])).settle()
        sc.op("stall", 1, rng.randint(0, 6))
        sc.send(2, b"".join(publish("d", count() * 3, rng.randrange(3), j + 1) for j in range(4)))
        sc.send(1, PING, publish("x", count(), 1, 3))
        for _ in range(rng.randint(3, 25)):
            sc.op("stall", 1, rng.choice([1, 1, 2, 5]))
            sc.step(rng.randint(1, 3)) if rng.random() < .7 else sc.settle()
            if rng.random() < .2:
                sc.send(1, PING)
        end = rng.random()
        if end < .7: sc.op("unstall", 1)
        elif end < .85: sc.op("rst", 1)
        else: sc.send(1, DISCONNECT).op("unstall", 1)
        out.append(sc.settle())
    return out


# --------------------------------------------------------------- topic validity

def invalid_topics(rng, n):
    """invalid names and filters alone and among valid ones"""
    names = ["", "#", "+", "a/#", "a/+/b", "a+", "#a", "+/", "/#", "a/b#c", "é+"]
    good = ["a", "b", "a/b", "+", "a/+", "#", "/", "+/#"]
    out = []
    for i in range(n):
        sc = script(rng, "invalid_topics")
        count = Count()
        observer(sc, 1, [("#", 1), ("+/+", 2)])
        sc.join(2)
        if i % 2:
            where = rng.choice(["", "", "", "$share/g/", "$share/", "/", "$SYS/", "ok/+/"])
            fs = [(where + rng.choice(BAD_FILTERS), rng.randrange(3)) for _ in range(rng.randint(1, 3))] + \
                 [(rng.choice(good), rng.randrange(3)) for _ in range(rng.randint(0, 3))]
            if rng.random() < .3:
                far = rng.choice(["x", "xy/", "+/"]) * rng.choice([20, 70, 130, 300])
                fs.append((rng.choice([far + "#/", far + "a+", far + "+a", "#/" + far, "a+/" + far, far + "/#/x", far + "x#", far + "/+#"]), 1))
            rng.shuffle(fs)
            sc.send(2, subscribe(rng.choice(PIDS), fs)).settle()
            for t in ["a", "b", "a/b", "/", "a#", "x", "a/x"]:
                if "#" not in t:
                    sc.send(1, publish(t, count(), 1, count.n + 1))
            sc.settle()
            sc.send(2, unsubscribe(7, [f for f, q in fs])).settle()
            sc.send(1, publish("a", count()), publish("a/b", count())).settle()
            # the refused filters left nothing that matches a literal name
            sc.send(2, PING).settle()
        else:
            sc.send(2, subscribe(2, [("a/#", 1)])).settle()
            q = rng.randrange(3)
            name = names[(i // 2) % len(names)]
            if rng.random() < .4:
                # what is wrong is a long way from the beginning, or from the end
                far = rng.choice(["x", "xy/", "é"]) * rng.choice([20, 70, 130, 300, 1500])
                name = rng.choice([far + rng.choice(["#", "+", "/+", "/#", "\0", "+x", "\0x"]), rng.choice(["#", "+/", "a+", "\0", "a\0"]) + far])
            sc.send(2, publish("ok", count(), 1, 1), publish(name, "bad", q, 8), publish("ok", "after", 1, 2)).settle()
            check_alive(sc, [1], count)
        out.append(sc.probe())
    return out


# --------------------------------------------------------------------- leaving

def churn(rng, n):
    """connecting, subscribing, ending in every way, and coming back"""
    out = []
    for _ in range(n):
        sc = script(rng, "churn")
        count = Count()
        observer(sc, 1, [("#", 1)])
        sc.probe()
        fs = ["a", "a/+", "#", "b/#", "a/b"]
        for r in range(rng.randint(3, 7)):
            c = rng.choice([2, 3])
            keep = rng.choice([0, 0, 2])
            sc.op("rst", c).settle() if r else None
            sc.open(c).send(c, connect("x", keep)).settle()
            # nothing left over from before
            sc.send(1, publish("a", count()), publish("a/b", count(), 1, r + 1), publish("b/c", count())).settle()
            sc.send(c, subscribe(1, [(rng.choice(fs), rng.randrange(3)) for _ in range(rng.randint(1, 3))]), publish("q", count(), 2, 5)).settle()
            sc.send(1, publish("a", count()), publish("a/b", count(), 1, 50 + r)).settle()
            how = rng.choice(["disc", "eof", "gone", "rst", "bad", "take", "keep", "unsub"])
            if how == "disc": sc.send(c, DISCONNECT)
            elif how == "bad": sc.send(c, rng.choice(malformed_packets(rng)[:20]))
            elif how == "take": sc.open(5 - c).send(5 - c, connect("x"), subscribe(2, [("a", 1)]))
            elif how == "keep" and keep: sc.adv(3300)
            elif how == "unsub": sc.send(c, unsubscribe(4, fs)).settle().send(c, DISCONNECT)
            elif how in ("eof", "gone", "rst"): sc.op(how, c)
            sc.settle()
            sc.send(1, publish("a", count()), publish("b/c", count())).settle()
            for k in (2, 3):
                if rng.random() < .5:
                    sc.op("rst", k)
            sc.settle()
        for k in (2, 3):
            sc.op("rst", k)
        sc.settle().send(1, DISCONNECT).settle().probe()
        out.append(sc)
    return out


def memory(rng, n, cycles=150):
    """memory in use after many clients came and went in the same way"""
    ways = ["disc", "eof", "rst", "gone", "bad", "take", "keep", "early", "refused", "unsub", "stall", "qos2", "partial"]
    out = []
    for i in range(n):
        way = ways[i % len(ways)]
        sc = script(rng, "memory", chaos=0)
        if i % 3 != 2:
            # somebody else whose subscriptions are in the same places
            sc.join(3).send(3, subscribe(1, [("/s", 0), ("l", 1), ("l/+", 0), ("+/+/#", 2), ("/s/+", 1), ("$share/h/s", 0)])).settle()
        k = 0
        for phase in range(3):
            for j in range(cycles):
                k += 1
                name = "m%05d" % k
                sc.open(1)
                if way == "early":
                    sc.send(1, connect(name)[:j % 14]).rst(1).settle()
                    continue
                if way == "refused":
                    sc.send(1, connect(name, level=5)).settle().rst(1).settle()
                    continue
                sc.send(1, connect(name, 2 if way == "keep" else 0))
                sc.send(1, subscribe(1, [("l/%05d" % k, 1), ("+/%05d/#" % k, 2), ("same", 0), ("$share/%05d/s" % k, 1)])).settle()
                if way == "disc": sc.send(1, DISCONNECT)
                elif way == "bad": sc.send(1, b"\xf0\0")
                elif way == "take":
                    sc.open(2).send(2, connect(name)).settle().send(2, DISCONNECT)
                elif way == "keep": sc.adv(3100)
                elif way == "unsub": sc.send(1, unsubscribe(3, ["l/%05d" % k, "+/%05d/#" % k, "same", "$share/%05d/s" % k])).settle().send(1, DISCONNECT)
                elif way == "stall": sc.op("stall", 1).send(1, publish("same", "x" * 100, 0) * 3).settle().rst(1)
                elif way == "qos2": sc.send(1, b"".join(publish("n%d" % j, "x", 2, z + 1) for z in range(4))).settle().eof(1)
                elif way == "partial": sc.send(1, publish("same", "x" * 300, 1, 5)[:100]).step(3).gone(1)
                else: sc.op(way, 1)
                sc.settle()
            sc.probe().op("mem")
        out.append(sc)
    return out


def subscription_churn(rng, n, cycles=160):
    """subscriptions that come and go leave nothing behind either, while the client stays or with its end"""
    out = []
    for i in range(n):
        sc = script(rng, "subscription_churn", chaos=0)
        k = 0
        stays = i % 2
        if stays:
            sc.join(1).send(1, subscribe(1, [("a", 1), ("a/b/c/d", 1), ("$share/g/a", 0), ("/a", 0), ("+", 0)])).settle()
        elif i % 4 == 2:
            sc.join(2).send(2, subscribe(1, [("a", 1), ("a/b/c/d", 1), ("$share/g/a", 0), ("/a", 0), ("+", 0)])).settle()
        for phase in range(4):
            if not stays:
                sc.join(1)
            for j in range(cycles):
                k += 1
                f = ["a/%05d" % k, "+/%05d/#" % k, "%05d" % k, "a/b/%05d/c" % k, "a/b/c/d/%05d" % k, "$share/g/a/%05d" % k, "$share/%05d/a" % k]
                f = [f[(k + x * 3) % 7] for x in range(4)]
                sc.send(1, subscribe(1, [(x, 1) for x in f]), unsubscribe(2, f[:3]), unsubscribe(3, f[3:]))
                if j % 20 == 0: sc.settle()
            if not stays:
                sc.send(1, DISCONNECT)
            sc.settle().probe()
            if phase:
                sc.op("mem")
        out.append(sc)
    return out


def share_table(rng, n):
    """filters and topics that look like shared subscriptions of a later version are ordinary ones"""
    fs = ["$shared/g/a", "$sharex/g/+", "$share/g/a", "$share/g/+", "$share/g/#", "$share/h/a", "$share/g/a/b", "$share/g/+/b", "a", "#", "+/g/a", "+/+/+", "$share/g/a/#",
          "+", "$share/g/", "$share/g", "a/b"]
    ts = ["$shared/g/a", "$sharex/g/b", "$share/g/a", "$share/h/a", "$share/g/a/b", "a", "a/b", "$share/g/b", "$share/g", "g/a", "$share/i/a", "$share/g/", "b"]
    out = []
    for k in range(n):
        sc = script(rng, "share_table", chaos=0)
        count = Count()
        sc.join(1)
        clients = list(range(2, 6))
        for c in clients:
            sc.join(c)
        for step in range(6):
            c = rng.choice(clients)
            r = rng.random()
            if r < .65 or step < 2: sc.send(c, subscribe(1 + step, [(rng.choice(fs), rng.randrange(3)) for _ in range(rng.randint(1, 3))]))
            elif r < .9: sc.send(c, unsubscribe(1 + step, [rng.choice(fs + ["$share", "x#"]) for _ in range(rng.randint(2, 6))]))
            else: sc.send(c, DISCONNECT).settle().join(c)
            sc.settle()
            for t in rng.sample(ts, 5):
                sc.send(1, publish(t, count(), rng.randrange(3), 1 + count.n))
            sc.settle()
        out.append(sc)
    return out


def similar(rng):
    """words that something might take for the same, or for something special"""
    long = "".join(rng.choice("ab") for _ in range(300))
    return rng.choice([
        ["a", "A", "a ", " a", "a\t", "aa", "\u0430", "\uff41", "a\u200b"],
        ["\u00e9", "e\u0301", "e", "\u00c9", "E\u0301"],
        ["stra\u00dfe", "strasse", "STRASSE", "stra\u00dfe "],
        ["x", "x\u0001", "\u0001x", "x\u007f", "x\ufeff", "\ufeffx"],
        [long, long[:-1], long + "a", long[:-1] + "c", "c" + long[1:], long[:255], long[:256], long[:128]],
        ["1", "01", "1.0", "+1"[1:], "one", "I", "l", "\u0661"],
        [" ", "  ", "\t", "\u00a0", "\u3000", "\r\n", "."],
        ["null", "None", "undefined", "0", "true", "-", "_", "\\", "\\0"],
        ["$share2", "$shared", "$Share", "share", "$shar", "$share ", "$SYS", "$sys", "$SYSTEM", "$", "$$"],
        ["$queue", "$delayed", "$exclusive", "$local", "$aws", "$dollar"],
        ["a%2Fb", "a\\b", "a.b", "a:b", "a,b", "a|b", "a;b", "a\u2044b", "a'b", 'a"b'],
        ["*", "?", ".*", "[a]", "(a)", "^a", "{a}", "a*", "~"],
        ["..", ".", "...", "~", "-"],
        ["\U0001f600", "\U0001f601", "\ud7ff", "\ue000", "\U0010ffff", "\uffff"],
    ])


def lookalikes(rng, n):
    """topic levels that something might take for the same, or for something special"""
    out = []
    for _ in range(n):
        sc = script(rng, "lookalikes", chaos=0)
        count = Count()
        words = rng.sample(x := similar(rng), min(len(x), 5))
        shape = rng.choice(["%s", "%s/v", "v/%s", "%s/%s", "%s/v/w", "/%s", "%s/"])

        def make(wild=0):
            return "/".join(rng.choice(words) if p == "%s" and rng.random() >= wild else "+" if p == "%s" else p for p in shape.split("/"))

        sc.join(1)
        held = {}
        for c in (2, 3, 4):
            sc.join(c)
            held[c] = [make(.2) for _ in range(rng.randint(1, 4))]
            if rng.random() < .2: held[c].append("#")
            sc.send(c, subscribe(1, [(f, rng.randrange(3)) for f in held[c]])).settle()
        ts = sorted({make() for _ in range(6)})
        ts = [t for t in ts if "+" not in t]
        for t in ts: sc.send(1, publish(t, count(), rng.randrange(3), 1 + count.n))
        sc.settle()
        for c in (2, 3):
            sc.send(c, unsubscribe(2, rng.sample(held[c], rng.randint(1, len(held[c]))) + [make(.2), "$share", "bad#"][:rng.randint(0, 3)])).settle()
        for t in ts: sc.send(1, publish(t, count(), rng.randrange(3), 1 + count.n))
        out.append(sc.settle())
    return out


def identifiers(rng, n):
    """client identifiers that something might take for the same, or for something special"""
    out = []
    for _ in range(n):
        sc = script(rng, "identifiers")
        count = Count()
        observer(sc, 1)
        words = rng.sample(x := similar(rng), min(len(x), 4)) + rng.choice([[], ["pub", "c1"], ["obs"]])
        for c in range(2, 2 + rng.randint(4, 8)):
            cid = rng.choice(words)
            sc.open(c).send(c, rng.choice([connect, mv.connect])(cid)).send(c, subscribe(1, [("t", 1), ("t/%d" % c, 1)]))
            if rng.random() < .7: sc.settle()
            if rng.random() < .4: sc.send(rng.randint(2, c), publish("t", count(), rng.randrange(3), 1 + count.n))
            if rng.random() < .15: sc.send(rng.randint(2, c), DISCONNECT)
            if rng.random() < .3: sc.send(1, publish("t/%d" % rng.randint(2, c), count(), 1, 1 + count.n))
        sc.settle().send(1, publish("t", count(), 1, 1 + count.n)).settle()
        out.append(sc.probe())
    return out


# ---------------------------------------------------------------------- mixture

def mixed(rng, n, steps=30):
    """a bit of everything"""
    out = []
    for _ in range(n):
        sc = script(rng, "mixed", cap=rng.choice([None, None, None, 1, 2, 4]))
        count = Count()
        state = {}
        names = ["n%d" % i for i in range(4)]
        topics = ["a", "a/b", "b", "a/b/c", "$d"]
        fs = ["a", "a/+", "#", "b", "+/b", "a/#", "+", "$d", "bad#", "a/b/+"]
        pid = 0
        for _ in range(steps):
            c = rng.randint(1, 5)
            st = state.get(c, "none")
            r = rng.random()
            if st == "none":
                sc.open(c)
                if r < .9:
                    sc.send(c, connect(rng.choice(names + [""]), rng.choice([0, 0, 0, 5])))
                state[c] = "up"
                if r < .2: sc.op("wmode", c, rng.choice([1, "rand"]))
                elif r < .3: sc.op("rmode", c, rng.choice([1, 3, "rand"]))
                elif r < .5: sc.op("auto", c)
            else:
                pid += 1
                if r < .2: sc.send(c, subscribe(pid, [(rng.choice(fs), rng.randrange(3)) for _ in range(rng.randint(1, 3))]))
                elif r < .3: sc.send(c, unsubscribe(pid, [rng.choice(fs) for _ in range(rng.randint(1, 2))]))
                elif r < .6: sc.send(c, b"".join(publish(rng.choice(topics), count(), rng.randrange(3), pid * 10 + i) for i in range(rng.randint(1, 5))))
                elif r < .64:
                    two = rng.randint(1, 4)
                    sc.send(c, publish(rng.choice(topics), count(), 2, two), rng.choice([b"", b"", puback(two), pubcomp(two), pubrec(two), pubrel(two)]))
                    if rng.random() < .3: sc.send(c, publish("a", count(), 2, two, 1))
                    if rng.random() < .3: sc.send(c, pubrel(two))
                elif r < .7: sc.send(c, PING)
                elif r < .74: sc.send(c, rng.choice([puback, pubrec, pubcomp])(rng.randint(1, 9)))
                elif r < .80: sc.op(rng.choice(["stall", "unstall", "unstall"]), c)
                elif r < .92:
                    how = rng.choice(["disc", "eof", "gone", "rst", "bad", "second"])
                    if how == "disc": sc.send(c, DISCONNECT)
                    elif how == "bad": sc.send(c, rng.choice(malformed_packets(rng)[:30]))
                    elif how == "second": sc.send(c, connect(rng.choice(names)))
                    else: sc.op(how, c)
                    sc.op("unstall", c)
                    sc.settle().op("rst", c).settle()
                    state[c] = "none"
                elif r < .95: sc.adv(rng.choice([10, 1000, 3000]))
            r = rng.random()
            if r < .25: sc.settle()
            elif r < .5: sc.step(rng.randint(1, 10))
        for c in state:
            sc.op("unstall", c)
        sc.settle().probe()
        if rng.random() < .15:
            sc.op("int").settle()
        out.append(sc)
    return out
