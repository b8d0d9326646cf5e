import os, sys, subprocess, shutil, tempfile, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from importlib.machinery import SourceFileLoader
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "tools"))
chk = SourceFileLoader("chk", os.path.join(ROOT, "check")).load_module() if sys.version_info < (3, 12) else None
if chk is None:
    spec = importlib.util.spec_from_loader("chk", SourceFileLoader("chk", os.path.join(ROOT, "check")))
    chk = importlib.util.module_from_spec(spec); spec.loader.exec_module(chk)
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    src = os.path.join(tmp, "harness"); shutil.copytree(os.path.join(ROOT, "harness"), src)
    r = subprocess.run(["go", "vet", "./..."], cwd=src, env=chk.goenv(tmp), capture_output=True, text=True)
    r = subprocess.run(["go", "build", "./..."], cwd=src, env=chk.goenv(tmp))
    sys.exit(r.returncode)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
