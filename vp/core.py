"""Running a property check: generation, judging, shrinking, replay, evidence."""
import hashlib, json, os, resource, signal, sys, time, traceback, warnings
import multiprocessing as mp

from . import env


class Violation(Exception):
    """The code under test broke the property (props: ids it speaks for; None = the check's own)."""

    def __init__(self, message, props=None):
        super().__init__(message)
        self.message, self.props = message, props


class Foreign(Exception):
    """The code under test broke another listed property; this case says nothing about ours."""


class Info(dict):
    """What a case covered: nontrivial flag and labels."""


class _Abort(BaseException):
    pass


PID = None        # the property being checked
SOFT = False      # failures that concern only other properties are noted, and the case goes on
NOTED = []


def foreign(props):
    return SOFT and props is not None and PID not in props


def note(message, props):
    if os.environ.get("VP_LABELS"):
        print("foreign:", props, message[:1500], flush=True)
    NOTED.append(message)


class soft:
    """In this context a failure that concerns only other properties does not end the case."""

    def __enter__(self):
        global SOFT
        self.old, SOFT = SOFT, PID is not None

    def __exit__(self, *_):
        global SOFT
        SOFT = self.old


def check(cond, message, props=None):
    if not cond:
        if foreign(props):
            note(message, props)
        else:
            raise Violation(message, props)


def blame(exc):
    """'psion' if the innermost frame that is ours or psion's is psion's, else 'harness'."""
    who = "harness"
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        fn = frame.f_code.co_filename
        if fn.startswith(env.SRC + "/psion"):
            who = "psion"
        elif fn.startswith(env.HOME + "/"):
            who = "harness"
    return who


def _hang(*_):
    raise Violation("no answer: the case used more than 60 s of CPU time")


def execute(mod, case):
    """Run one case; returns Info or raises Violation / Foreign / harness error."""
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, 60)
    NOTED.clear()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return mod.run(case)
    except (Violation, Foreign):
        raise
    except Exception as exc:
        if blame(exc) == "psion":
            raise Violation(f"unexpected {type(exc).__name__}: {exc}"[:600]) from exc
        if isinstance(exc, (MemoryError, OSError)):
            raise
        # The judge stumbled over what psion returned (wrong type or shape): never seen on a correct tree.
        tb = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(f"result cannot be judged: {type(exc).__name__}: {exc} (at {os.path.basename(tb.filename)}:{tb.lineno})"[:600]) from exc
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def _worker(mod, pid, tier, seed, examples, cap, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    try:  # Hypothesis mixes literals of local modules into what it generates: those of psion only, not the harness's own
        from hypothesis.internal.conjecture import providers
        providers.is_local_module_file
        providers.is_local_module_file = lambda path: str(path).startswith(os.path.join(env.SRC, "psion") + os.sep)
    except (ImportError, AttributeError):
        pass

    stats = {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "foreign": 0, "capped": False}
    state = {"best": None, "first": None, "harness": None}
    start = time.monotonic()

    def one(case):
        if state["first"] is not None and time.monotonic() - state["first"] > 40:
            raise _Abort
        if state["first"] is None and time.monotonic() - start > cap:
            stats["capped"] = True
            raise _Abort
        stats["evaluations"] += 1
        try:
            info = execute(mod, case)
        except Foreign:
            stats["foreign"] += 1
            return
        except Violation as v:
            if v.props is not None and pid not in v.props:
                stats["foreign"] += 1
                if os.environ.get("VP_LABELS"):
                    print("foreign:", v.props, v.message[:1500], dumps(case)[:3000] if os.environ["VP_LABELS"] == "2" else "", flush=True)
                return
            text = dumps(case)
            if state["first"] is None:
                state["first"] = time.monotonic()
            if state["best"] is None or len(text) < len(state["best"][0]):
                state["best"] = (text, v.message)
            raise
        except _Abort:
            raise
        except Exception:
            state["harness"] = traceback.format_exc() + "\ncase: " + dumps(case)[:4000]
            raise _Abort
        info = info or {}
        stats["foreign"] += bool(NOTED)
        for label in info.get("labels", ()):
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if info.get("nontrivial"):
            text = dumps(case)
            h = hashlib.sha1(text.encode()).digest()[:10]
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                n = len(stats["nontrivial"])
                if n in (1, 7, 50, 200) and len(text) < 6000:
                    stats["samples"].append(case)

    try:
        deco = settings(max_examples=examples, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=[Phase.generate] + [Phase.shrink] * ("VP_NOSHRINK" not in os.environ), verbosity=hypothesis.Verbosity.quiet)
        test = hypothesis.seed(seed)(deco(given(mod.strategy(tier))(one)))
        try:
            test()
        except _Abort:
            pass
        except Exception:
            if state["best"] is None:
                state["harness"] = traceback.format_exc()
    except Exception:
        state["harness"] = traceback.format_exc()
    stats["nontrivial"] = sorted(stats["nontrivial"])
    out.put((seed, stats, state["best"], state["harness"]))


def run_check(pid, mod, tier, seed):
    global PID
    PID = pid
    t0 = time.monotonic()
    best, harness, runs = None, None, []
    evaluations, nontrivial, labels, samples, foreign, capped = 0, set(), {}, [], 0, 0
    # committed regression corpus: shrunk cases of past failures, always replayed first
    corpus = list(getattr(mod, "CORPUS", ()))
    path = os.path.join(env.HOME, "vp", "corpus", pid + ".jsonl")
    if os.path.exists(path):
        corpus += [json.loads(line) for line in open(path) if line.strip()]
    for case in corpus:
        case = json.loads(dumps(case))
        evaluations += 1
        try:
            info = execute(mod, case) or {}
            if info.get("nontrivial"):
                nontrivial.add(hashlib.sha1(dumps(case).encode()).digest()[:10])
        except Foreign:
            foreign += 1
        except Violation as v:
            if v.props is None or pid in v.props:
                best = (dumps(case), v.message)
                break
            foreign += 1
        except Exception:
            harness = traceback.format_exc() + "\ncorpus case: " + dumps(case)[:4000]
            break
    if best is None and harness is None:
        workers = int(os.environ.get("VP_WORKERS", getattr(mod, "WORKERS", 8)))
        total = 2 * mod.QUICK if tier == "quick" else mod.THOROUGH
        total = int(total * float(os.environ.get("VP_SCALE", "1")))
        cap = (240 if tier == "quick" else 3000)
        q = mp.get_context("fork").Queue()
        procs = []
        for w in range(workers):
            s = int.from_bytes(hashlib.sha256(f"{pid}/{seed}/{w}/{tier}".encode()).digest()[:6], "big")
            p = mp.get_context("fork").Process(
                target=_worker, args=(mod, pid, tier, s, max(1, total // workers), cap, q), daemon=True)
            p.start()
            procs.append(p)
        got = 0
        deadline = time.monotonic() + cap + 90
        grace = None
        while got < workers and time.monotonic() < deadline and (grace is None or time.monotonic() < grace):
            try:
                _, stats, b, h = q.get(timeout=1)
            except Exception:
                if all(not p.is_alive() for p in procs) and q.empty():
                    break
                continue
            got += 1
            evaluations += stats["evaluations"]
            nontrivial.update(stats["nontrivial"])
            for k, v in stats["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += stats["samples"][: 2 if len(samples) < 4 else 0]
            foreign += stats["foreign"]
            capped += stats["capped"]
            if b and (best is None or len(b[0]) < len(best[0])):
                best = b
            if b and (grace is None or harness is not None):
                grace = time.monotonic() + 8 * ("VP_NOSHRINK" not in os.environ)  # other workers may still shrink further
            if h and harness is None:
                harness = h
                grace = min(grace or 1e18, time.monotonic() + 8)
        for p in procs:
            p.kill()
            p.join(5)
        if got < workers and best is None and harness is None:
            harness = f"{workers - got} of {workers} workers died or did not finish"
    wall = time.monotonic() - t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": int(best is not None),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": samples[:5] or [json.loads(best[0])] if (samples or best) else [],
            "labels": dict(sorted(labels.items())), "cases_about_other_properties": foreign,
            "workers_stopped_by_time_cap": capped, "corpus_cases": len(corpus),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(env.HOME, "evidence"), exist_ok=True)
    with open(os.path.join(env.HOME, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if best is not None:
        os.makedirs(os.path.join(env.HOME, "replays"), exist_ok=True)
        name = os.path.join(env.HOME, "replays", f"{pid}-{hashlib.sha1(best[0].encode()).hexdigest()[:10]}.json")
        with open(name, "w") as f:
            f.write(best[0] + "\n")
        print(f"{pid}: {best[1]}")
        print(f"case: {best[0][:3000]}")
        print(f"VIOLATION property={pid} replay={name}")
        return 1
    if harness is not None:
        print(f"{pid}: harness error (no verdict)\n{harness}", file=sys.stderr)
        return 3
    print(f"{pid}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), {wall:.1f} s")
    if os.environ.get("VP_LABELS"):
        for k, v in sorted(labels.items()):
            print(f"   {k}: {v}")
        print("   foreign:", foreign, "capped:", capped)
    return 0


def replay(pid, mod, path):
    global PID
    PID = pid
    case = json.loads(open(path).read())
    try:
        execute(mod, case)
    except Foreign:
        print(f"{pid}: the case now concerns another property")
        return 0
    except Violation as v:
        if v.props is not None and pid not in v.props:
            print(f"{pid}: the case concerns {v.props}: {v.message}")
            return 0
        print(f"{pid}: {v.message}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: held on {path}")
    return 0
