"""Environment set-up: single-threaded BLAS, hypothesis on the path, /repo importable."""
from __future__ import annotations
import os, sys, pathlib, hashlib, subprocess, sysconfig, glob, importlib.util

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
BUILD = ROOT / ".build"

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

def _add_hypothesis() -> None:
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    cands = [ROOT / ".deps"] + [pathlib.Path(p) for p in glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages")]
    for c in cands:
        if (c / "hypothesis").is_dir():
            sys.path.append(str(c))
            return
    dst = ROOT / ".deps"
    subprocess.run([sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links", "/opt/veriftools/wheels",
                    "--target", str(dst), "hypothesis"], check=True)
    sys.path.append(str(dst))

_add_hypothesis()


def _sources_hash(paths, extra: str) -> str:
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(str(p).encode()); h.update(p.read_bytes())
    return h.hexdigest()[:20]


def cpp_sources():
    return [*REPO.glob("include/**/*.hpp"), *REPO.glob("include/**/*.h"), *REPO.glob("src/python/*.cpp"), *REPO.glob("src/python/*.hpp")]


def compile_cpp(out: pathlib.Path, cmd: list[str]) -> None:
    out.parent.mkdir(parents=True, exist_ok=True)
    tmp = out.with_name(f".tmp{os.getpid()}_{out.name}")
    r = subprocess.run([*cmd, "-o", str(tmp)], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit(f"compilation failed: {' '.join(cmd)}")
    os.replace(tmp, out)


def build_bindings() -> pathlib.Path:
    """Compile the DD engine binding from /repo's current tree (cached by content)."""
    import pybind11
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    cmd = ["g++", "-O1", "-DNDEBUG", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-w",
           f"-I{REPO}/include", f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}",
           f"{REPO}/src/python/bindings.cpp"]
    h = _sources_hash(cpp_sources(), " ".join(cmd) + pybind11.__version__)
    out = BUILD / f"bind-{h}" / f"_qudits{ext}"
    if not out.exists():
        compile_cpp(out, cmd)
    return out


def _load_bindings(path: pathlib.Path) -> None:
    import mqt.qudits  # noqa: F401
    spec = importlib.util.spec_from_file_location("mqt.qudits._qudits", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["mqt.qudits._qudits"] = mod
    spec.loader.exec_module(mod)
    sys.modules.setdefault("mqt.qudits._qudits.misim", mod.misim)
    mqt.qudits._qudits = mod


def setup(fresh_bindings: bool) -> None:
    """Make mqt.qudits importable from /repo/src; optionally with freshly built bindings."""
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    try:
        import mqt.qudits
    except ImportError:
        import types
        v = types.ModuleType("mqt.qudits._version"); v.version = v.__version__ = "0"; v.version_tuple = (0,)
        sys.modules["mqt.qudits._version"] = v
        import mqt.qudits
    if not fresh_bindings:
        try:
            import mqt.qudits._qudits.misim  # noqa: F401
            return
        except ImportError:
            pass
    _load_bindings(build_bindings())
