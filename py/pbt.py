"""Property-based testing driver for the Python package: the same choice-sequence scheme as engine/pbt.cpp.

A case draws everything it needs from a Src; the sequence of drawn integers identifies the case, is what gets
shrunk and is what a replay file holds. Cases run in forked workers, so that a crash (AddressSanitizer report,
abort in native code) is a failure of the case that was running and not of the check."""
import argparse, hashlib, json, mmap, os, random, shutil, signal, struct, sys, tempfile, time, traceback


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Src:
    def __init__(self, choices=None, seed=None, log=None):
        self.given, self.pos, self.rng, self.made, self.log = choices, 0, None, [], log
        if choices is None:
            self.rng = random.Random(seed)

    def _draw(self, n, make):
        if self.rng is None:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            v = v % n if n else 0
        else:
            v = make()
        self.made.append(v)
        if self.log is not None:
            os.write(self.log, struct.pack("<Q", v))
        return v

    def below(self, n):
        return self._draw(n, lambda: self.rng.randrange(n)) if n > 0 else 0

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def flip(self):
        return self.below(2) == 1

    def chance(self, num, den):
        return self._draw(den, lambda: self.rng.randrange(den)) >= den - num

    def size(self, lo, hi):
        """small sizes are more likely"""
        n = lo
        while n < hi and self.chance(2, 3):
            n += 1
        return n

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def grid(self, lo, hi, step=0.5):
        return lo + step * self.below(int(round((hi - lo) / step)) + 1)


class Case:
    def __init__(self, src):
        self.src, self.labels, self.trivial, self.desc, self.comparisons = src, {}, True, "", 0

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Fail(msg() if callable(msg) else msg)

    def eq(self, got, want, msg):
        self.comparisons += 1
        if not (got == want and type(got) in _SAME.get(type(want), (type(want),))):
            raise Fail(f"{msg}: got {got!r}, expected {want!r}"[:1500])

    def raises(self, exc, f, msg):
        self.comparisons += 1
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Fail(f"{msg}: raised {type(e).__name__}: {str(e)[:300]}, expected {exc}")
        raise Fail(f"{msg}: returned {r!r}, expected {exc}"[:800])

    def nontrivial(self, b=True):
        if b:
            self.trivial = False

    def label(self, s, n=1):
        self.labels[s] = self.labels.get(s, 0) + n

    def describe(self, s):
        self.desc = (self.desc + "; " if self.desc else "") + s


_SAME = {int: (int,), float: (float, int), bool: (bool,)}


class Prop:
    def __init__(self, name, what, quick, thorough, fn):
        self.name, self.what, self.n, self.fn = name, what, {"quick": quick, "thorough": thorough}, fn


def seed_of(seed, name, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{name}/{i}".encode()).digest()[:8], "little")


def run_case(prop, src):
    """returns (status, message, case): pass, fail, discard"""
    c = Case(src)
    try:
        prop.fn(c)
        return "pass", "", c
    except Discard:
        return "discard", "", c
    except Fail as e:
        return "fail", str(e), c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = next((f"{t.filename.split('/')[-1]}:{t.lineno}" for t in reversed(tb)), "")
        return "fail", f"unexpected {type(e).__name__} at {at} ({tb[-1].line if tb else ''}): {str(e)[:600]}", c


CASE_TIMEOUT = 60


def in_child(prop, choices, seed=None, log=False):
    """runs one case in a forked child: (status, message, desc, choices)"""
    r, w = os.pipe()
    logf = tempfile.TemporaryFile() if log else None
    err = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(err.fileno(), 2)
        signal.alarm(CASE_TIMEOUT)
        src = Src(choices, seed, logf.fileno() if log else None)
        status, msg, c = run_case(prop, src)
        os.write(w, json.dumps([status, msg, c.desc, src.made]).encode()[:60000] if len(src.made) < 5000 else
                 json.dumps([status, msg, c.desc[:200], []]).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    made = choices
    if log:
        logf.seek(0)
        raw = logf.read()
        made = list(struct.unpack("<%dQ" % (len(raw) // 8), raw[: len(raw) // 8 * 8]))
    if st == 0 and data:
        s, m, d, ch = json.loads(data)
        return s, m, d, ch or made
    err.seek(0)
    text = err.read().decode(errors="replace")
    lines = [l for l in text.splitlines() if "ERROR" in l or "terminate" in l or "what()" in l or "Assertion" in l]
    frames = [l.strip() for l in text.splitlines() if l.strip().startswith("#") and "/repo/" in l][:4]
    why = f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit code {os.WEXITSTATUS(st)}"
    return "crash", f"the process died ({why}) " + " ".join(lines[:2] + frames)[:1200], "", made


def shrink(prop, choices, deadline):
    best = list(choices)

    def fails(c):
        return in_child(prop, c)[0] in ("fail", "crash")

    improved = True
    while improved and time.time() < deadline:
        improved = False
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() < deadline:
            i = 0
            while i < len(best) and time.time() < deadline:
                cand = best[:i] + best[i + n:]
                if len(cand) < len(best) and fails(cand):
                    best, improved = cand, True
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if time.time() > deadline:
                break
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    cand = best[:i] + [v] + best[i + 1:]
                    if fails(cand):
                        best, improved = cand, True
                        break
    return best


def worker(props, tier, seed, w, workers, slot, out, deadline, scale, only):
    res = {}
    for pi, p in enumerate(props):
        if only and p.name != only:
            continue
        st = {"evaluations": 0, "discarded": 0, "comparisons": 0, "classes": {}, "hashes": [], "samples": [], "failed": None}
        res[p.name] = st
        total = max(1, int(p.n[tier] * scale))
        for i in range(w, total, workers):
            if time.time() > deadline:
                st["stopped"] = True
                break
            slot[0:16] = struct.pack("<qq", pi, i)
            src = Src(None, seed_of(seed, p.name, i))
            signal.alarm(CASE_TIMEOUT)
            status, msg, c = run_case(p, src)
            signal.alarm(0)
            st["comparisons"] += c.comparisons
            if status == "discard":
                st["discarded"] += 1
                continue
            st["evaluations"] += 1
            for k, v in c.labels.items():
                st["classes"][k] = st["classes"].get(k, 0) + v
            if not c.trivial:
                st["hashes"].append(hashlib.sha256(repr(src.made).encode()).hexdigest()[:16])
                if len(st["samples"]) < 2 and c.desc:
                    st["samples"].append(f"{p.name}: {c.desc}"[:400])
            if status == "fail":
                st["failed"] = [i, src.made, msg]
                break
        if st["failed"]:
            break
    with open(out, "w") as f:
        json.dump(res, f)


def main(pid, rule, assumptions, props, known=()):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--evidence")
    ap.add_argument("--replay-dir", default="replay")
    ap.add_argument("--known")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    byname = {p.name: p for p in props}
    tmp = tempfile.mkdtemp(prefix="pbt-py-")
    os.environ["PBT_TMP"] = tmp
    try:
        if a.replay:
            d = json.load(open(a.replay))
            s, m, desc, _ = in_child(byname[d["sub"]], d["choices"])
            print(desc)
            print(s, m)
            return 1 if s in ("fail", "crash") else 0
        return _run(pid, rule, assumptions, props, known, a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(pid, rule, assumptions, props, known, a, tmp):
    t0 = time.time()
    limit = 400 if a.tier == "quick" else 7200
    slots = [mmap.mmap(-1, 16) for _ in range(a.workers)]
    pids = {}
    sys.stdout.flush()
    for w in range(a.workers):
        p = os.fork()
        if p == 0:
            wt = os.path.join(tmp, f"w{w}")
            os.mkdir(wt)
            os.environ["PBT_TMP"] = wt
            e = os.open(os.path.join(tmp, f"err{w}"), os.O_CREAT | os.O_WRONLY)
            os.dup2(e, 2)
            code = 0
            try:
                worker(props, a.tier, a.seed, w, a.workers, slots[w], os.path.join(tmp, f"out{w}"), t0 + limit, a.scale, a.only)
            except BaseException:
                traceback.print_exc()
                code = 77
            os._exit(code)
        pids[p] = w
    broken, crashed = [], []
    while pids:
        p, st = os.wait()
        w = pids.pop(p, None)
        if w is None:
            continue
        if st != 0:
            pi, i = struct.unpack("<qq", slots[w][0:16])
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                broken.append(open(os.path.join(tmp, f"err{w}")).read()[-2000:])
            else:
                crashed.append((pi, i))
    if broken:
        print("the driver failed:\n" + broken[0])
        return 2
    subs, hashes, samples, failures, stopped = {}, {}, [], [], False
    for p in props:
        subs[p.name] = {"what": p.what, "evaluations": 0, "discarded": 0, "distinct_nontrivial": 0, "comparisons": 0, "classes": {}}
        hashes[p.name] = set()
    for w in range(a.workers):
        f = os.path.join(tmp, f"out{w}")
        if not os.path.exists(f):
            continue
        for name, st in json.load(open(f)).items():
            s = subs[name]
            for k in ("evaluations", "discarded", "comparisons"):
                s[k] += st[k]
            for k, v in st["classes"].items():
                s["classes"][k] = s["classes"].get(k, 0) + v
            hashes[name].update(st["hashes"])
            if sum(x.startswith(name + ":") for x in samples) < 2:
                samples += st["samples"][:1]
            stopped |= bool(st.get("stopped"))
            if st["failed"]:
                failures.append((name, st["failed"][1], st["failed"][2]))
    for pi, i in crashed:
        p = props[pi]
        s, m, _, made = in_child(p, None, seed_of(a.seed, p.name, i), log=True)
        if s not in ("fail", "crash"):
            m = f"a worker died in case {i} of {p.name}, but the case alone passes"
        failures.append((p.name, made or [], m))
    kn = []
    listed = {}
    if a.known and os.path.exists(a.known):
        for line in open(a.known):
            if line.startswith(f"known: property={pid} id="):
                fid, _, text = line[len(f"known: property={pid} id="):].strip().partition(" ")
                listed[fid] = text
    for fid, still in known:
        if fid in listed:
            if still():
                print(f"KNOWN-FINDING: property={pid} {fid}: {listed[fid]}")
                kn.append(fid)
    for name in subs:
        subs[name]["distinct_nontrivial"] = len(hashes[name])
        s = subs[name]
        if not a.only or a.only == name:
            print(f"{pid} {name}: {s['evaluations']} cases, {s['distinct_nontrivial']} distinct non-trivial, {s['discarded']} discarded, "
                  f"{s['comparisons']} comparisons " + " ".join(f"{k}={v}" for k, v in sorted(s["classes"].items())))
    seen = set()
    os.makedirs(a.replay_dir, exist_ok=True)
    nviol = 0
    for name, made, msg in failures:
        if name in seen:
            continue
        seen.add(name)
        p = next(q for q in props if q.name == name)
        best = shrink(p, made, time.time() + float(os.environ.get("PBT_SHRINK", "30"))) if made else made
        s, m, desc, _ = in_child(p, best) if best else ("fail", msg, "", [])
        if s in ("pass", "discard"):
            m, desc = msg, ""
        path = os.path.join(a.replay_dir, f"{pid}_{name}.json")
        json.dump({"property": pid, "sub": name, "seed": a.seed, "choices": best, "message": m, "description": desc}, open(path, "w"), indent=1)
        print(f"  {name}: {m}\n  case: {desc[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        nviol += 1
    total = sum(s["evaluations"] for s in subs.values())
    print(f"{pid} {a.tier} seed {a.seed}: {total} cases in {time.time() - t0:.1f} s")
    if a.evidence:
        json.dump({"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
                   "coverage": {"evaluations": total, "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs.values()),
                                "comparisons": sum(s["comparisons"] for s in subs.values()), "rule": rule,
                                "stopped_by_time_limit": stopped, "workers": a.workers, "sub_checks": subs, "samples": samples[:20],
                                "known_findings_reproduced": kn},
                   "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol},
                  open(a.evidence, "w"), indent=1)
    return 1 if nviol else 0
