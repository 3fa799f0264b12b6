#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property for /repo's current tree:
 1. compiles the tree against the simulated network,
 2. checks the property on the specification (TLC, exhaustive within bounds),
 3. runs scenarios (generated families and behaviours generated from the
    specification) through the compiled broker, and
 4. has TLC decide for every recorded execution whether it is a behaviour of
    the specification.
Exit 0: held on everything explored; 1: violated; 2: the check itself failed."""
import collections, concurrent.futures as cf, json, os, random, shutil, sys, tempfile, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families, models, mv
from plan import PLAN

VERIF = mv.VERIF
CRASH = {"panic", "crash", "hang", "spin"}


def rng(*key):
    return random.Random("/".join(map(str, key)))


def counts(prop, tags):
    """Is a deviation with these tags one of the property?"""
    p = PLAN[prop]
    tags = set(tags)
    return not tags or bool(tags & CRASH) or not tags <= set(p["other"])


def counts_mixed(prop, tags):
    return bool(set(tags) & (set(PLAN[prop]["own"]) | CRASH))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (230 if tier == "quick" else 780)
        self.work = tempfile.mkdtemp(prefix="mv-%s-" % prop)
        self.fam = collections.OrderedDict()
        self.kinds = collections.Counter()     # packets and events seen, for the evidence
        self.traces = self.accepted = self.undecided = self.states = self.distinct = self.events = 0
        self.models, self.samples, self.rejected, self.other = [], [], [], []
        self.texts = set()

    # ------------------------------------------------------------- scenarios
    def family(self, name, n, round_=0):
        r = rng(self.seed, self.prop, name, self.tier, round_)
        if name.startswith("gen:"):
            return models.histories(r, name[4:], n, self.work)
        return getattr(families, name)(r, n)

    def batch(self, plan, round_=0):
        """Run and validate [(family, n)] in one go; returns the rejected traces."""
        scripts, names, series = [], [], {}
        plan = [(name, n) for name, n in plan if n > 0]
        # walks through the specification take TLC a while
        gen = [x for x in plan if x[0].startswith("gen:")]
        with cf.ThreadPoolExecutor(4) as ex:
            made = dict(zip((name for name, _ in gen), ex.map(lambda x: self.family(*x, round_), gen)))
        for name, n in plan:
            if name in made:
                r = rng(self.seed, self.prop, name, "replay", round_)
                ss = [models.replay(r, h) for h in made[name]]
            else:
                ss = self.family(name, n, round_)
            if name in mv.SERIES:
                series[name] = ss
                continue
            scripts += ss
            names += [name] * len(ss)
        logs = mv.execute(scripts, self.work) if scripts else []
        verdicts, gen, dist = mv.validate(scripts, logs, self.work, deadline=self.deadline) if scripts else ([], 0, 0)
        for name, ss in series.items():
            pl = mv.execute(ss, self.work, alarm=90)
            pv, g, d = mv.validate_series(name, pl, self.work, timeout=max(10, min(200, self.deadline - time.time())))
            scripts += ss
            names += [name] * len(ss)
            logs += pl
            verdicts += pv
            gen, dist = gen + g, dist + d
        self.states += gen
        self.distinct += dist
        bad = []
        for name, sc, log, v in zip(names, scripts, logs, verdicts):
            f = self.fam.setdefault(name, {"traces": 0, "accepted": 0, "undecided": 0, "rejected": 0, "events": 0})
            f["traces"] += 1
            f["events"] += len(log)
            self.traces += 1
            self.events += len(log)
            self.texts.add(hash(sc.text()))
            for e in log:
                self.kinds[e["e"]] += 1
                if e["e"] in ("rx", "tx") and e["x"]:
                    self.kinds[e["e"] + " type %d" % (int(e["x"][:2], 16) >> 4)] += 1
            if v.ok:
                f["accepted"] += 1
                self.accepted += 1
            elif v.undecided:
                f["undecided"] += 1
                self.undecided += 1
            else:
                f["rejected"] += 1
                bad.append((name, sc, log, v))
        if scripts and len(self.samples) < 3:
            k = len(self.samples) * 7 % len(scripts)
            self.samples.append({"family": names[k], "script": scripts[k].ops[:60], "events": len(logs[k]),
                                 "log": [json.dumps(e)[:200] for e in logs[k][:40]]})
        return bad

    def judge(self, bad):
        """Confirm rejections and keep those that are deviations of this property."""
        tried = collections.Counter()
        bad.sort(key=lambda b: len(b[2]))
        for name, sc, log, v in bad:
            if tried[name] >= 4 or len(self.rejected) >= 3 or (self.rejected and time.time() > self.deadline):
                continue
            tried[name] += 1
            if name in mv.SERIES:
                w = v
            else:
                w = mv.confirm((log, sc), v, self.work, single=40)
            if w.ok:
                self.fam[name]["rejected"] -= 1
                self.fam[name]["accepted"] += 1
                self.accepted += 1
                continue
            mine = counts_mixed(self.prop, w.why) if name in ("mixed", "gen:All") else counts(self.prop, w.why)
            (self.rejected if mine else self.other).append((name, sc, log, w))

    def save(self, k, name, sc, log, v):
        d = os.path.join(mv.BUILD, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (name.replace(":", "_"), k))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "family": name, "seed": self.seed, "event": v.pos, "deviation": v.why,
                       "script": sc.ops, "blobs": [b.hex() for b in sc.blobs],
                       "log": [json.dumps(e) for e in log]}, f, indent=1)
        return p

    # ------------------------------------------------------------------ main
    def main(self):
        p = PLAN[self.prop]
        mv.build()
        result = {}

        def mc():
            try:
                result["m"] = models.check(self.prop, self.tier, self.work, self.deadline)
            except Exception as e:
                result["e"] = e

        th = threading.Thread(target=mc)
        th.start()
        quick = [(n, q) for n, q, _ in p["families"]]
        bad = self.batch(quick)
        self.judge(bad)
        round_ = 0
        if self.tier == "thorough":
            while not self.rejected and time.time() < self.deadline - 150:
                round_ += 1
                bad = self.batch([(n, t) for n, _, t in p["families"]], round_)
                self.judge(bad)
        th.join()
        if "e" in result:
            raise result["e"]
        self.models = result["m"]
        self.rounds = round_ + 1
        violated = False
        for k, (name, sc, log, v) in enumerate(self.rejected):
            path = self.save(k, name, sc, log, v)
            ev = json.dumps(log[v.pos - 1])[:200] if 0 < v.pos <= len(log) else "?"
            print("rejected: family %s, event %d of %d (%s): %s" % (name, v.pos, len(log), ",".join(v.why) or "unclassified", ev))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            violated = True
        for name, sc, log, v in self.other[:3]:
            print("note: a %s trace deviates in another respect (%s); that belongs to another property" % (name, ",".join(v.why)))
        self.evidence()
        print("%s %s: %d executions of the broker, %d accepted, %d undecided; %d states; models: %s; %.0f s" % (
            self.prop, self.tier, self.traces, self.accepted, self.undecided, self.states,
            ", ".join("%s %d states" % (m["model"], m["states"]) for m in self.models) or "-", time.time() - self.t0))
        if not violated and self.traces and self.undecided * 2 > self.traces:
            raise mv.ToolError("more than half of the executions could not be decided in time")
        return 1 if violated else 0

    def evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {
            "states": self.states + sum(m["states"] for m in self.models),
            "transitions": self.distinct + sum(m["distinct"] for m in self.models),
            "traces_validated_against_impl": self.accepted,
            "samples": self.samples,
            "executions": self.traces, "distinct_scripts": len(self.texts), "undecided": self.undecided,
            "rejected_other_property": len(self.other), "events": self.events,
            "families": self.fam, "models": self.models, "event_kinds": dict(sorted(self.kinds.items())),
            "rounds": self.rounds,
            "exhaustive": False,
            "explanation": "states/transitions: states TLC generated and distinct states, in trace validation and in model checking together",
        }
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": PLAN[self.prop]["level"],
                       "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(self.rejected)}, f, indent=1)


ASSUMPTIONS = [
    "the program is compiled from /repo unmodified, but against a simulated network, clock and scheduler (harness/shim)",
    "one thread: parallel execution appears as interleavings at await points, random yields and seeded scheduling",
    "TLC and the specification of the MQTT 3.1.1 behaviour in spec/ are trusted",
]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = None
    try:
        run = Run(prop, tier, seed)
        rc = run.main()
    except Exception as e:
        traceback.print_exc()
        print("the check failed: %s" % str(e)[:3000])
        rc = 2
    finally:
        if run:
            shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
