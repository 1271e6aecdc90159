"""python -m pbt.run <property> quick|thorough   |   python -m pbt.run <property> replay FILE"""
from __future__ import annotations
import importlib, json, os, sys
from . import env

NEEDS_BINDINGS = {"C02", "C09", "C18", "C19", "C24"}


def main() -> int:
    prop, mode = sys.argv[1], sys.argv[2]
    env.setup(fresh_bindings=prop in NEEDS_BINDINGS)
    import warnings
    warnings.filterwarnings("ignore")
    from . import core
    mod = importlib.import_module(f"pbt.{prop.lower()}")
    if mode == "replay":
        data = json.loads(open(sys.argv[3]).read())
        sub = {s.name: s for s in mod.SUBS}[data["sub"]]
        try:
            print("passes:", core.run_case(sub, data["case"]))
            return 0
        except core.Violation as v:
            print(f"{prop}/{sub.name}: {v}")
            print(f"VIOLATION property={prop} replay={sys.argv[3]}")
            return 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("PBT_BUDGET", "420" if mode == "quick" else "3000"))
    return core.Runner(prop, mod.SUBS, mode, seed, budget).run()


def guarded() -> int:
    """Run main() in a child, so that a crash or endless loop in native code is reported as a violation."""
    import hashlib, mmap, resource, signal, time
    from . import core
    mem = mmap.mmap(-1, core.Watch.SIZE)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        core.Watch.mem = mem
        # native code writes to the descriptors directly; keep only what the harness prints
        out, err = os.dup(1), os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1); os.dup2(null, 2)
        sys.stdout, sys.stderr = os.fdopen(out, "w", buffering=1), os.fdopen(err, "w", buffering=1)
        rc = 2
        try:
            limit = 16 << 30
            if sys.argv[1] != "C10":      # the address sanitizer reserves terabytes of address space
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
            rc = main()
        except SystemExit as e:
            print(f"harness: {e}", file=sys.stderr)
        except BaseException:
            import traceback
            traceback.print_exc()
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(rc)
    tick = os.sysconf("SC_CLK_TCK")
    why = None
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.2)
        if not int.from_bytes(mem[8:12], "little"):
            continue
        started = int.from_bytes(mem[0:8], "little") / 1000
        seq = mem[12:16]
        try:
            f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        cpu = (int(f[11]) + int(f[12])) / tick
        if cpu - started > 100 and seq == mem[12:16] and int.from_bytes(mem[8:12], "little"):
            why = "the operation did not finish within 100 s of CPU time (native code)"
            os.kill(pid, signal.SIGKILL)
            _, status = os.waitpid(pid, 0)
            break
    if os.WIFEXITED(status):
        return os.WEXITSTATUS(status)
    n = int.from_bytes(mem[8:12], "little")
    sig = os.WTERMSIG(status)
    if why is None:
        if sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT) or not n:
            return 2
        why = f"the process was ended by signal {signal.Signals(sig).name}"
    sub, case = mem[16:16 + n].decode().split("\0", 1)
    prop, mode = sys.argv[1], sys.argv[2]
    if mode == "replay":
        print(f"{prop}/{sub}: {why}\nVIOLATION property={prop} replay={sys.argv[3]}")
        return 1
    d = env.ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-{sub}-{hashlib.sha1(case.encode()).hexdigest()[:10]}.json"
    path.write_text(json.dumps({"property": prop, "sub": sub, "case": json.loads(case), "message": why}, indent=1))
    print(f"{prop}/{sub}: {why}\n  case: {case[:2000]}\nVIOLATION property={prop} replay={path.relative_to(env.ROOT)}")
    return 1


if __name__ == "__main__":
    rc = 2
    try:
        rc = guarded()
    except SystemExit as e:
        print(f"harness: {e}", file=sys.stderr)
        rc = 2
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    sys.exit(rc)
