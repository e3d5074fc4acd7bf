#!/usr/bin/env python3
"""check.py check <property> | replay <file> | build

Builds the simulator against /repo's working tree, runs it for one property in worker
processes, makes a violation small, writes the replay file and the evidence file."""
import array, fcntl, json, os, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")
WORKERS = 8
CHUNK = 4000

# runs of the quick check (about half a minute on 8 cores); the thorough check does DEEP times as many
RUNS = {
    "P01": 4_000_000, "P02": 4_000_000, "P03": 4_000_000, "P04": 4_000_000, "P05": 4_800_000,
    "P06": 4_000_000, "P07": 4_000_000, "P08": 4_000_000, "P09": 4_000_000, "P10": 2_400_000,
    "P11": 3_200_000, "P12": 4_000_000, "P13": 4_000_000, "P14": 3_200_000, "P15": 3_200_000,
    "P16": 4_800_000, "P17": 4_000_000, "P18": 600_000, "P19": 600_000, "P20": 800_000,
    "P21": 600_000, "P22": 1_200_000, "P23": 800_000, "P24": 2_400_000,
}
# distinct cases are counted up to this many
MANY = 20_000_000
DEEP = 20
# no new work after so many seconds
CAP = {"quick": 150, "thorough": 780}
# a run may take so long, and so long without using the processor
HANG, IDLE = 60, 20


def sh(cmd, env=None):
    return subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(variant=""):
    """The simulator, with the library's working tree in it."""
    target = os.path.join(HARNESS, "target" + ("-" + variant if variant else ""))
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if variant:
            cmd += ["--features", "with_" + variant]
        out = ""
        # without the seams, if somebody's change does not build with them
        for flags in ("--cfg neure_sim", ""):
            env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_TERM_COLOR="never")
            r = sh(cmd, env)
            if r.returncode == 0:
                exe = os.path.join(target, "debug", "neure-dst")
                return exe
            out = out or r.stdout
    print(out[-4000:])
    print("the simulator does not build against /repo")
    sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except OSError:
        return 0


class Work:
    """Some runs in a process of their own."""

    def __init__(self, exe, prop, seed, beg, end, samples, scratch, digest=False):
        self.args = (exe, prop, seed, beg, end)
        self.beg, self.end = beg, end
        self.dir = tempfile.mkdtemp(dir=scratch)
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.p = subprocess.Popen(
            [exe, "work", prop, str(seed), str(beg), str(end), self.dir, str(samples), "1" if digest else "0"],
            stdout=self.out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=limits)
        self.seen = (-1, time.time(), time.time(), 0)
        self.crash = None

    def at(self):
        try:
            b = open(os.path.join(self.dir, "status"), "rb").read()
            return int.from_bytes(b[:8], "little") if len(b) >= 8 else self.beg
        except OSError:
            return self.beg

    def poll(self):
        """Whether it is over."""
        rc = self.p.poll()
        if rc is not None:
            self.out.close()
            if rc != 0:
                text = open(os.path.join(self.dir, "out"), errors="replace").read()
                stuck = [l for l in text.splitlines() if l.startswith("STUCK ")]
                self.crash = stuck[0][6:] if stuck else (
                    f"the process ended with signal {-rc}" if rc < 0 else f"the process ended with status {rc}: {text[-300:].strip()}")
            return True
        now, k = time.time(), self.at()
        c = cpu(self.p.pid)
        if k != self.seen[0]:
            self.seen = (k, now, now, c)
        elif c > self.seen[3]:
            self.seen = (k, self.seen[1], now, c)
        if now - self.seen[1] > HANG and self.seen[3] or now - self.seen[2] > IDLE:
            self.p.kill()
            self.p.wait()
            self.out.close()
            self.crash = "the run does not end"
            return True
        return False

    def result(self):
        return json.loads(open(os.path.join(self.dir, "out")).read().strip().splitlines()[-1])

    def numbers(self, name):
        a = array.array("Q")
        try:
            a.frombytes(open(os.path.join(self.dir, name), "rb").read())
        except OSError:
            pass
        return a

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.out.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def once(exe, prop, tape, limit=HANG, before=()):
    """What a tape does, after some other runs in the same process: (kind of end, text)."""
    last = tape if isinstance(tape, str) else " ".join(map(str, tape))
    try:
        r = subprocess.run([exe, "run", prop], input="\n".join([*before, last]), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit, preexec_fn=limits, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "the run does not end"
    if r.returncode == 0:
        return "ok", r.stdout
    if r.returncode == 1:
        return "violated", r.stdout
    return "crash", r.stdout[-2000:] + (f"\nthe process ended with signal {-r.returncode}" if r.returncode < 0 else
                                        f"\nthe process ended with status {r.returncode}")


def trimmed(t):
    t = list(t)
    while t and t[-1] == 0:
        t.pop()
    return t


def shrink_outside(tape, fails, seconds):
    """Smaller tapes that still fail, each tried from outside."""
    end, tries = time.time() + seconds, 0
    best = trimmed(tape)
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < end:
        i, smaller = 0, False
        while i < len(best) and time.time() < end:
            for cand in (best[:i] + best[i + size:], best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                cand = trimmed(cand)
                if (len(cand), cand) < (len(best), best):
                    tries += 1
                    if fails(cand):
                        best, smaller = cand, True
                        break
            else:
                i += size
        size = size // 2 if not smaller or size > 1 else size
        if size == 1 and not smaller:
            break
    for i in range(len(best)):
        while i < len(best) and best[i] > 0 and time.time() < end:
            cand = trimmed(best[:i] + [best[i] // 2] + best[i + 1:])
            tries += 1
            if not fails(cand):
                break
            best = cand
    return best, tries


def tape_of(exe, prop, seed, k, scratch):
    """The choices of a run that does not come back."""
    path = os.path.join(scratch, "tape")
    try:
        subprocess.run([exe, "tape", prop, str(seed), str(k), path], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=HANG, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        pass
    return [int(x) for x in open(path).read().split()]


def history(fails, seed, beg, k):
    """The earlier runs of the same process without which run `k` does not fail, if there are such:
    the library has kept something from them."""
    before = [f"#{seed} {i}" for i in range(beg, k)]
    if not before or not fails(before):
        return None
    end = time.time() + 90
    size = max(1, len(before) // 2)
    while time.time() < end:
        i = 0
        while i < len(before) and time.time() < end:
            cand = before[:i] + before[i + size:]
            if fails(cand):
                before = cand
            else:
                i += size
        if size == 1:
            break
        size = max(1, size // 2)
    return before


def save(prop, seed, k, runseed, tape, message, text, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}-{k}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "run": k, "run_seed": runseed, "violation": message, "tape": tape,
                   "trace": text.splitlines(), **extra}, f, indent=1)
        f.write("\n")
    return path


def report(exe, prop, seed, v, scratch, tier):
    """A violation found by a worker: made small, checked to be repeatable, written down."""
    before = len(v["tape"])
    r = subprocess.run([exe, "shrink", prop, "30"], input=" ".join(map(str, v["tape"])), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)
    tape, message, tries = v["tape"], v["message"], 0
    try:
        s = json.loads(r.stdout)
        if s["message"]:
            tape, message, tries = s["tape"], s["message"], s["tries"]
    except ValueError:
        pass
    a, b = once(exe, prop, tape), once(exe, prop, tape)
    if a[0] == "ok":
        tape, message = v["tape"], v["message"]
        a, b = once(exe, prop, tape), once(exe, prop, tape)
    extra = {}
    if a[0] == "ok" and "beg" in v:
        first = history(lambda h: once(exe, prop, tape, before=h)[0] != "ok", seed, v["beg"], v["run"])
        if first is not None:
            extra["before"] = first
            a, b = once(exe, prop, tape, before=first), once(exe, prop, tape, before=first)
            message += f"\n(after {len(first)} other runs in the same process)"
    path = save(prop, seed, v["run"], v["seed"], tape, message, a[1],
                {**extra, "shrunk": f"{before} choices to {len(tape)} in {tries} tries", "repeated_exactly": a == b})
    return message, path


def report_crash(exe, prop, seed, beg, k, why, scratch):
    tape = tape_of(exe, prop, seed, k, scratch)
    kind, text = once(exe, prop, tape)
    if kind == "ok":
        first = history(lambda h: once(exe, prop, tape, before=h)[0] != "ok", seed, beg, k)
        if first is None:
            return None
        kind, text = once(exe, prop, tape, before=first)
        message = f"{why}\n{text}\n(after {len(first)} other runs in the same process)"
        return message, save(prop, seed, k, None, tape, message, text, {"before": first})
    if kind == "violated":
        return report(exe, prop, seed, {"tape": tape, "message": why, "run": k, "seed": seed}, scratch, "")
    if kind == "hang":
        limit = 5
        small, tries = shrink_outside(tape, lambda t: once(exe, prop, t, limit)[0] == "hang", 60)
    else:
        small, tries = shrink_outside(tape, lambda t: once(exe, prop, t)[0] == "crash", 60)
    kind2, text2 = once(exe, prop, small)
    if kind2 == kind:
        tape, text = small, text2
    message = f"{why}\n{text}"
    path = save(prop, seed, k, None, tape, message, text, {"shrunk": f"to {len(tape)} choices in {tries} tries"})
    return message, path


def add(total, r):
    for k in ("runs", "discarded", "foreign", "steps", "attempts", "callbacks", "log_records", "log_bytes"):
        total[k] = total.get(k, 0) + r[k]
    for k in ("hits", "faults"):
        d = total.setdefault(k, {})
        for h, n in r[k].items():
            d[h] = d.get(h, 0) + n
    total.setdefault("samples", []).extend(r["samples"])


def differing(exes, prop, tape, before=()):
    """What the builds say about a tape, if they do not all say the same."""
    outs = [once(e, prop, tape, before=before) for e in exes]
    return outs if any(o != outs[0] for o in outs) else None


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in CAP:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    variants = ["", "log", "tracing"] if prop == "P23" else [""]
    with ThreadPoolExecutor() as pool:
        exes = list(pool.map(build, variants))
    built = time.time() - t0
    seams = subprocess.run([exes[0], "seams"], stdout=subprocess.PIPE, text=True).stdout.strip()
    n = RUNS[prop] * (DEEP if tier == "thorough" else 1)
    n = int(os.environ.get("VERIF_RUNS") or n)
    scratch = tempfile.mkdtemp(prefix="work-", dir=os.path.join(HARNESS, "target"))
    try:
        return search(prop, tier, seed, exes, n, scratch, t0, built, seams)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(prop, tier, seed, exes, n, scratch, t0, built, seams):
    start = time.time()
    total, cases, inters = {}, set(), set()
    queue = [(b, min(b + CHUNK, n)) for b in range(0, n, CHUNK)]
    queue.reverse()
    running, found, logs, retried, agreed = [], [], {}, 0, 0
    slots = WORKERS if len(exes) == 1 else 3
    while running or (queue and not found):
        while queue and len(running) < slots and not found:
            if time.time() - start > CAP[tier]:
                queue.clear()
                break
            b, e = queue.pop()
            samples = 1 if b % (CHUNK * 8) == 0 and b < CHUNK * 64 else 0
            running.append([Work(x, prop, seed, b, e, samples if x == exes[0] else 0, scratch) for x in exes])
        time.sleep(0.01)
        for group in list(running):
            if not all(w.poll() for w in group):
                continue
            running.remove(group)
            w = group[0]
            crashed = [x for x in group if x.crash]
            if crashed and len(exes) == 1:
                k = w.at()
                r = report_crash(w.args[0], prop, seed, w.beg, k, w.crash, scratch)
                if r:
                    found.append((k, *r))
                elif retried < 3:
                    # nothing that can be repeated: the machine's doing
                    retried += 1
                    queue.append((w.beg, w.end))
                else:
                    print(f"run {k}: {w.crash}, but not when repeated")
                    sys.exit(2)
            elif crashed:
                # the builds must agree on that, too
                k = min(x.at() for x in crashed)
                tape = tape_of(crashed[0].args[0], prop, seed, k, scratch)
                outs = differing(exes, prop, tape)
                if outs:
                    found.append((k, *report_diff(exes, prop, seed, k, tape, outs)))
                else:
                    agreed += 1
                    if agreed < 200 and k + 1 < w.end:
                        queue.append((k + 1, w.end))
            else:
                rs = [x.result() for x in group]
                add(total, rs[0])
                if len(cases) < MANY:
                    cases.update(w.numbers("cases"))
                if len(inters) < MANY:
                    inters.update(w.numbers("inters"))
                if len(exes) > 1:
                    for x, r in zip(group, rs):
                        d = logs.setdefault(os.path.basename(os.path.dirname(os.path.dirname(x.args[0]))), [0, 0])
                        d[0] += r["log_records"]
                        d[1] += r["log_bytes"]
                    ds = [x.numbers("digests") for x in group]
                    for i in range(len(ds[0])):
                        if any(d[i] != ds[0][i] for d in ds):
                            tape = tape_of(exes[0], prop, seed, w.beg + i, scratch)
                            outs, first = differing(exes, prop, tape), ()
                            if not outs:
                                first = history(lambda h: differing(exes, prop, tape, h), seed, w.beg, w.beg + i) or ()
                                outs = first and differing(exes, prop, tape, first)
                            if outs:
                                found.append((w.beg + i, *report_diff(exes, prop, seed, w.beg + i, tape, outs, first)))
                            break
                elif "violation" in rs[0]:
                    found.append((rs[0]["violation"]["run"], {**rs[0]["violation"], "beg": w.beg}))
            for x in group:
                x.close()
    wall = time.time() - start
    code = 0
    message = None
    if found:
        code = 1
        first = min(found, key=lambda f: f[0])
        if len(first) == 2:
            message, path = report(exes[0], prop, seed, first[1], scratch, tier)
        else:
            message, path = first[1], first[2]
        print(message)
        print(f"VIOLATION property={prop} replay={path}")
    again = None
    if not found:
        # one seed is one execution: the first runs once more, twice, compared in every detail
        ds = []
        for _ in range(2):
            w = Work(exes[0], prop, seed, 0, min(n, 300), 0, scratch, True)
            while not w.poll():
                time.sleep(0.01)
            ds.append(w.numbers("digests"))
            w.close()
        again = {"runs": len(ds[0]), "same": ds[0] == ds[1]}
        if not again["same"]:
            print("note: some runs were not repeated exactly")
    evidence(prop, tier, seed, total, cases, inters, logs, wall, built, seams, again, message, time.time() - t0, n)
    if not found:
        print(f"{prop}: {total.get('runs', 0)} runs ({len(cases)} distinct), no violation; {wall:.0f} s after {built:.0f} s of building")
    return code


def report_diff(exes, prop, seed, k, tape, outs, before=()):
    small, tries = shrink_outside(tape, lambda t: differing(exes, prop, t, before) is not None, 60)
    outs2 = differing(exes, prop, small, before)
    if outs2:
        tape, outs = small, outs2
    names = ["no logging", "feature log", "feature tracing"]
    message = "the same run differs between builds\n" + "\n".join(
        f"-- {names[i]}: {o[0]}\n{o[1][-1500:].rstrip()}" for i, o in enumerate(outs))
    path = save(prop, seed, k, None, tape, message, outs[0][1],
                {**({"before": before} if before else {}), "shrunk": f"to {len(tape)} choices in {tries} tries", "builds": {names[i]: o[1].splitlines() for i, o in enumerate(outs)}})
    return message, path


def evidence(prop, tier, seed, total, cases, inters, logs, wall, built, seams, again, message, all_s, planned):
    with open(os.path.join(VERIF, "rules.json")) as f:
        rules = json.load(f)
    r = rules[prop]
    hits = total.get("hits", {})
    runs = total.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(cases),
        "rule": r["rule"],
        "samples": total.get("samples", [])[:8],
        "planned_runs": planned,
        "discarded_runs": total.get("discarded", 0),
        "attempts_on_the_real_library": total.get("attempts", 0),
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds": f"run k of {runs} is seeded from VERIF_SEED={seed}, the property and k",
        "simulated_time": {
            "steps": total.get("steps", 0),
            "note": "the library has no clock; a step is a call into simulated user code, a scheduling point or an operation",
        },
        "calls_into_simulated_user_code": total.get("callbacks", 0),
        "faults_injected": total.get("faults", {}),
        "reached": hits,
        "kinds_with_outcomes_reached": sum(1 for h in hits if ":" in h),
        "left_to_other_properties": total.get("foreign", 0),
        "repeated_exactly": again,
        "seams": f"cfg neure_sim {seams}",
        "real_code": r["real"],
        "stubs": r["stubs"],
    }
    if len(cases) >= MANY:
        cov["distinct_nontrivial_note"] = "counting stopped there"
    if inters:
        cov["distinct_interleavings"] = len(inters)
        cov["interleaving_measure"] = "hash of the sequence of (chosen thread, kind of scheduling point) together with the case"
    if logs:
        cov["log_output"] = {k: {"records": v[0], "bytes": v[1]} for k, v in logs.items()}
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": r["assumptions"], "wall_s": round(all_s, 2), "violations": 1 if message else 0,
        "build_s": round(built, 2),
    }
    if message:
        e["violation"] = message
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.json")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop, tape, before = r["property"], r["tape"], r.get("before", [])
    if prop == "P23":
        outs = differing([build(v) for v in ("", "log", "tracing")], prop, tape, before)
        if not outs:
            print("all builds agree")
            return 0
        for o in outs:
            print("--", o[0])
            print(o[1])
    else:
        kind, text = once(build(), prop, tape, before=before)
        print(text)
        if kind == "ok":
            return 0
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main():
    cmd = sys.argv[1]
    if cmd == "build":
        with ThreadPoolExecutor() as pool:
            list(pool.map(build, ("", "log", "tracing")))
        return 0
    if cmd == "check":
        return check(sys.argv[2])
    if cmd == "replay":
        return replay(sys.argv[2])
    return 2


if __name__ == "__main__":
    sys.exit(main())
