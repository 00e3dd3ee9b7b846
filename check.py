#!/usr/bin/env python3
"""Runs the check of one property: builds /repo with a sanitizer, runs the
harness programs, and turns what the monitors saw into a verdict and evidence.

    python3 check.py C01            the check (VERIF_SEED, VERIF_TIER)
    python3 check.py --build        only build everything
"""
import fcntl
import json
import os
import re
import shlex
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "_build"))
RUN = os.path.join(HERE, "_run")
NPROC = max(2, min(8, os.cpu_count() or 2))

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

COMMON = "-O1 -g1 -fno-omit-frame-pointer -w -U_FORTIFY_SOURCE -DBOOST_TIMER_ENABLE_DEPRECATED"
FLAVOURS = {
    "asan": "-fsanitize=address,undefined -fno-sanitize-recover=all",
    "tsan": "-fsanitize=thread",
}
LIBS = "-lboost_system -lboost_thread -lboost_date_time -lxml2 -lssl -lcrypto -lpthread -ldl"


class Error(Exception):
    """The check itself failed: neither held nor violated."""


# ---------------------------------------------------------------- building
def sh(cmd, log, **kw):
    with open(log, "a") as f:
        f.write("$ %s\n" % (cmd if isinstance(cmd, str) else " ".join(map(shlex.quote, cmd))))
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f, shell=isinstance(cmd, str), **kw)


def tail(path, n=40):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


def stale(target, dep):
    """True when target is older than anything its dependency file names."""
    try:
        t = os.stat(target).st_mtime_ns
        with open(dep) as f:
            names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        return any(os.stat(n).st_mtime_ns >= t for n in names)
    except (OSError, IndexError):
        return True


def build(flavour, harnesses):
    """Builds the library and the harness programs; returns their paths."""
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        log = os.path.join(d, "build.log")
        open(log, "w").close()
        flags = "%s %s" % (COMMON, FLAVOURS[flavour])
        lib = os.path.join(d, "lib")
        if not os.path.exists(os.path.join(lib, "build.ninja")):
            if sh(["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-Dbuild_tests=OFF",
                   "-Dbuild_docs=OFF", "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                   "-DCMAKE_CXX_FLAGS=" + flags], log):
                raise Error("configuring %s failed\n%s" % (REPO, tail(log)))
        procs = []
        out = {}
        for h in harnesses:
            obj, dep, exe = (os.path.join(d, h + s) for s in (".o", ".d", ""))
            out[h] = exe
            if stale(obj, dep):
                cmd = "g++ -std=c++14 %s -I%s -I%s -I%s -I/usr/include/libxml2 -I%s -MMD -MF %s -c %s -o %s" % (
                    flags, REPO, os.path.join(lib, "libiqxmlrpc"), lib, os.path.join(HERE, "harness"), dep,
                    os.path.join(HERE, "harness", h + ".cc"), obj)
                hlog = os.path.join(d, h + ".log")
                f = open(hlog, "w")
                procs.append((h, hlog, obj, subprocess.Popen(cmd, shell=True, stdout=f, stderr=f)))
        if sh(["ninja", "-C", lib, "iqxmlrpc"], log):
            for p in procs:
                p[3].kill()
            raise Error("building %s failed\n%s" % (REPO, tail(log)))
        for h, hlog, obj, p in procs:
            if p.wait():
                try:
                    os.unlink(obj)
                except OSError:
                    pass
                raise Error("building harness %s failed\n%s" % (h, tail(hlog)))
        so = os.path.join(lib, "libiqxmlrpc", "libiqxmlrpc.so")
        for h in harnesses:
            exe, obj = out[h], os.path.join(d, h + ".o")
            try:
                fresh = os.stat(exe).st_mtime_ns > max(os.stat(obj).st_mtime_ns, os.stat(so).st_mtime_ns)
            except OSError:
                fresh = False
            if not fresh and sh("g++ %s %s -o %s -rdynamic -L%s -Wl,-rpath,%s -liqxmlrpc %s" % (
                    flags, obj, exe, os.path.dirname(so), os.path.dirname(so), LIBS), log):
                raise Error("linking harness %s failed\n%s" % (h, tail(log)))
        return out


# ---------------------------------------------------------------- running
def environment():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=77:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:handle_abort=1:handle_sigill=1:print_summary=1:detect_odr_violation=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["LSAN_OPTIONS"] = "report_objects=0:exitcode=77:leak_check_at_exit=0"
    env["TSAN_OPTIONS"] = ("exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:detect_deadlocks=1:"
                           "handle_abort=1:suppressions=" + os.path.join(HERE, "harness", "tsan.supp"))
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    return env


def site(text, anchor):
    """The first function of the library in a stack trace after `anchor`."""
    i = text.find(anchor)
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+|\(\S+\)|<null>)", text[max(i, 0):]):
        if "/libiqxmlrpc/" in m.group(2) and "_build" not in m.group(2):
            return re.sub(r"\(.*", "", m.group(1)).strip()
    return "?"


def reports(text):
    """Sanitizer reports and crashes in the standard error of a harness."""
    out = []
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        out.append(("asan:%s:%s" % (m.group(1), site(text, m.group(0))), text[m.start():m.start() + 3500]))
    m = re.search(r"([^\s:]{1,400}):\d+:\d+: runtime error: (.+)", "\n".join(l for l in text.splitlines() if ": runtime error: " in l))
    if m:
        what = re.sub(r"-?\b(0x)?[0-9a-f]*\d[0-9a-f]*\b", "N", m.group(2))
        out.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), what), text[text.find(m.group(0)):][:3000]))
    text = text[text.rfind("[leak report withdrawn]") + 1:]
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks", text)
    if m:
        out.append(("leak:%s" % site(text, m.group(0)), text[m.start():m.start() + 3500]))
    m = re.search(r"(?:WARNING|ERROR|FATAL): ThreadSanitizer: ([^\n(]+)", text)
    if m:
        out.append(("tsan:%s:%s" % (m.group(1).strip(), site(text, m.group(0))), text[m.start():m.start() + 5000]))
    m = re.search(r"Assertion .*failed", text)
    if m and not out:
        out.append(("assert:" + m.group(0), text[-2500:]))
    m = re.search(r"terminate called[^\n]*", text)
    if m:
        out.insert(0, ("terminate:" + m.group(0), text[m.start():m.start() + 2500]))
    return out


class Stop:
    """When the processes of a check have to end: a while after a violation
    was found, as nothing that follows changes the verdict."""

    def __init__(self, prop, known):
        self.prop, self.known, self.at = prop, known, None
        self.lock = threading.Lock()

    def is_fresh(self, found):
        return any(not match_known(self.prop, k, d, self.known) for k, _, d in found)

    def found(self):
        with self.lock:
            if self.at is None:
                self.at = time.time() + 60

    def past(self):
        return self.at is not None and time.time() > self.at


class Shard:
    """One process of a job."""

    def __init__(self, job, exe, tag, args, timeout, rundir, stop):
        self.stop = stop
        self.stopped = False
        self.job, self.exe, self.tag, self.args, self.timeout = job, exe, tag, args, timeout
        self.base = os.path.join(rundir, tag)
        self.found = []       # (key, case, detail, command)
        self.stats = None
        self.error = None
        self.timeouts = 0
        self.restarts = 0

    def command(self, extra=()):
        return [self.exe] + self.args + list(extra)

    def once(self, extra=()):
        files = [self.base + s for s in (".out", ".err", ".json", ".mark")]
        for f in files + [self.base + ".json.sig"]:
            if os.path.exists(f):
                os.unlink(f)
        cmd = self.command(["--out=" + files[2], "--marker=" + files[3]] + list(extra))
        with open(files[0], "w") as o, open(files[1], "w") as e:
            p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=environment(),
                                 start_new_session=True, cwd=os.path.dirname(self.base))
            code, end, fresh = None, time.time() + self.timeout, False
            while code is None and time.time() < end and not self.stop.past():
                try:
                    code = p.wait(1)
                except subprocess.TimeoutExpired:
                    # having reported a violation it may hang
                    if not fresh and os.path.getsize(files[0]) and self.stop.is_fresh(self.parse(files[0])):
                        fresh = True
                        end = min(end, time.time() + 60)
            self.stopped = code is None and self.stop.past()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if code is None:
                p.wait()
        with open(files[0], errors="replace") as f:
            out = f.read()
        with open(files[1], errors="replace") as f:
            err = f.read()
        return code, out, err

    @staticmethod
    def parse(path):
        """The violations a harness has reported so far."""
        found = []
        with open(path, errors="replace") as f:
            lines = f.read().split("\n")
        for line in lines[:-1]:
            if line.startswith("@VIOLATION "):
                try:
                    v = json.loads(line[11:], strict=False)
                    found.append((v["key"], v["case"], v["detail"]))
                except ValueError:
                    found.append(("unreadable", -1, line))
        return found

    def marker(self):
        try:
            with open(self.base + ".mark", "rb") as f:
                return f.read().split(b"\0", 1)[0].decode("utf8", "replace")
        except OSError:
            return ""

    def load(self):
        try:
            with open(self.base + ".json") as f:
                s = json.load(f)
            with open(self.base + ".json.sig", "rb") as f:
                b = f.read()
            s["sigs"] = set(b[i:i + 8] for i in range(0, len(b), 8))
            return s
        except (OSError, ValueError):
            return None

    def run(self):
        start = 0
        while True:
            extra = ["--start=%d" % start] if start else []
            code, out, err = self.once(extra)
            if code is None:
                found = self.parse(self.base + ".out")
                if self.stopped or self.stop.is_fresh(found):
                    self.found += found
                    return
                self.timeouts += 1
                if self.timeouts == 1:
                    continue                     # inconclusive: once more
                mk = self.marker()
                self.found.append(("hang", self.case(mk), "no end within %d s, twice; at %s\n%s" % (self.timeout, mk, err[-1500:])))
                return
            mk = self.marker()
            n = len(self.found)
            self.found += self.parse(self.base + ".out")
            for line in out.splitlines():
                if line.startswith("@HARNESS "):
                    self.error = line
            rep = reports(err)
            for key, text in rep:
                self.found.append((key, self.case(mk), "at %s\n%s" % (mk, text)))
            self.found = [f for f in self.found if not (f[0] == "leak" and any(k.startswith("leak:") for k, _ in rep))]
            s = self.load()
            if s:
                self.merge(s)
            if code == 3 or self.error:
                self.error = self.error or "harness exit 3: " + err[-2000:]
                return
            if code in (0, 1) and s:
                if code == 1 and len(self.found) == n:
                    self.error = "harness reported failure without a violation: " + err[-1500:]
                return
            if len(self.found) == n:
                if code < 0:
                    self.found.append(("crash:signal %d" % -code, self.case(mk), "at %s\n%s" % (mk, err[-2500:])))
                else:
                    self.error = "harness ended with %d: %s %s" % (code, out[-500:], err[-2500:])
                    return
            # A crash ended the process: go on behind the case if it is a known one.
            if self.stop.is_fresh(self.found):
                return
            c = self.case(mk)
            self.restarts += 1
            if c < 0 or self.restarts > 12:
                return
            start = c + 1

    @staticmethod
    def case(mk):
        m = re.match(r"case=(-?\d+)", mk)
        return int(m.group(1)) if m else -1

    def merge(self, s):
        if self.stats is None:
            self.stats = s
            return
        t = self.stats
        t["evaluations"] += s["evaluations"]
        for k, v in s["counters"].items():
            t["counters"][k] = max(v, t["counters"].get(k, 0)) if k.startswith("max:") else v + t["counters"].get(k, 0)
        t["samples"] += s["samples"]
        t["sigs"] |= s["sigs"]


def known_findings():
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(.+?) detail=(.*?) :: (.+)$", line.rstrip("\n"))
            if m:
                out.append(dict(zip(("property", "key", "detail", "what"), m.groups())))
            elif line.startswith("known:"):
                raise Error("unreadable line in known_findings.txt: " + line)
    return out


def match_known(prop, key, detail, known):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["key"], key, re.S) and re.search(k.get("detail", ""), detail, re.S):
            return k
    return None


# ---------------------------------------------------------------- a check
def check(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rundir = os.path.join(RUN, prop)
    os.makedirs(rundir, exist_ok=True)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)

    by_flavour = {}
    for job in spec["jobs"]:
        by_flavour.setdefault(job.get("flavour", "asan"), set()).add(job["harness"])
    exes = {}
    for fl in sorted(by_flavour):
        for h, p in build(fl, sorted(by_flavour[fl])).items():
            exes[fl, h] = p
    t_build = time.time() - t0

    known = known_findings()
    stop = Stop(prop, known)
    shards = []
    for n, job in enumerate(spec["jobs"]):
        cases = job["cases"][0 if tier == "quick" else 1]
        if not cases:
            continue
        count = min(job.get("shards", NPROC), cases)
        for s in range(count):
            args = ["--prop=" + prop, "--tier=" + tier, "--seed=%d" % seed, "--cases=%d" % cases,
                    "--shard=%d" % s, "--nshards=%d" % count] + job.get("args", [])
            tmo = job.get("timeout", (240, 3000))[0 if tier == "quick" else 1]
            shards.append(Shard(job, exes[job.get("flavour", "asan"), job["harness"]], "j%d-s%d" % (n, s), args, tmo, rundir, stop))

    # Jobs may ask for fewer processes at a time (timing, many threads).
    slots = threading.Semaphore(NPROC)
    lock = threading.Lock()

    def go(sh):
        w = min(NPROC, sh.job.get("weight", 1))
        with lock:
            for _ in range(w):
                slots.acquire()
        try:
            if not stop.past():
                sh.run()
            if stop.is_fresh(sh.found):
                stop.found()
        except Exception as e:  # a failure of this program
            sh.error = "runner: %r" % e
        finally:
            for _ in range(w):
                slots.release()

    threads = [threading.Thread(target=go, args=(s,)) for s in shards]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # -- verdict
    fresh, old = [], {}
    for s in shards:
        for key, case, detail in s.found:
            k = match_known(prop, key, detail, known)
            if k:
                old.setdefault(k["what"], []).append((key, detail))
            else:
                fresh.append((s, key, case, detail))

    total = {"evaluations": 0, "counters": {}, "sigs": set(), "samples": []}
    for s in shards:
        if s.stats:
            total["evaluations"] += s.stats["evaluations"]
            total["sigs"] |= s.stats["sigs"]
            for k, v in s.stats["counters"].items():
                c = total["counters"]
                c[k] = max(v, c.get(k, 0)) if k.startswith("max:") else v + c.get(k, 0)
    for rank in range(3):
        for s in shards:
            if s.stats and len(s.stats["samples"]) > rank and len(total["samples"]) < 8:
                total["samples"].append(s.stats["samples"][rank])

    errors = [s.tag + ": " + s.error for s in shards if s.error]
    if not fresh and not old:
        for need in spec.get("needs", []):
            if not total["counters"].get(need):
                errors.append("the run observed no '%s'" % need)
        if not total["evaluations"] or not total["sigs"]:
            errors.append("the run evaluated nothing")

    cov = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": spec["rule"],
        "samples": total["samples"] or ["none"],
        "observed": {k: v for k, v in sorted(total["counters"].items())},
        "processes": len(shards),
        "build_s": round(t_build, 1),
    }
    if spec.get("sanitizers"):
        cov["monitors"] = spec["sanitizers"]
    inconclusive = sum(1 for s in shards if s.timeouts == 1)
    if inconclusive:
        cov["timed_out_once"] = inconclusive
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    with open(evidence + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(evidence + ".tmp", evidence)

    for what, hits in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, what, len(hits)))
    if fresh:
        s, key, case, detail = fresh[0]
        path = os.path.join(rundir, "replay-%s-seed%d.sh" % (tier, seed))
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s: %s\n" % (prop, key))
            for line in detail.splitlines()[:60]:
                f.write("#   %s\n" % line)
            env = environment()
            f.write("cd %s && VERIF_TIER=%s python3 check.py --build %s >/dev/null || exit 2\n" % (HERE, tier, prop))
            f.write("%s \\\n  %s%s\n" % (
                " ".join("%s=%s" % (k, shlex.quote(env[k])) for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS", "TSAN_OPTIONS", "TZ")),
                " ".join(map(shlex.quote, s.command())), " --only=%d" % case if case >= 0 else ""))
        os.chmod(path, 0o755)
        seen = set()
        for s2, k2, c2, d2 in fresh:
            if k2 not in seen and len(seen) < 10:
                seen.add(k2)
                print("# %s case %s: %s" % (k2, c2, " | ".join(d2.splitlines()[:25])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    if errors:
        raise Error("; ".join(errors)[:4000])
    print("held: property=%s evaluations=%d distinct=%d wall=%.0fs (build %.0fs)" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    return 0


def main():
    args = sys.argv[1:]
    try:
        if args and args[0] == "--build":
            want = {}
            for p in args[1:] or sorted(CHECKS):
                for job in CHECKS[p]["jobs"]:
                    want.setdefault(job.get("flavour", "asan"), set()).add(job["harness"])
            for fl in sorted(want):
                build(fl, sorted(want[fl]))
            return 0
        if len(args) != 1 or args[0] not in CHECKS:
            print("usage: check.py <property>", file=sys.stderr)
            return 2
        return check(args[0])
    except Error as e:
        print("ERROR of the check: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
