"""setup_cmd: nothing to build (Python); makes sure that what the checks import is there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vm.dom, vm.model, vm.emit, vm.ref, vm.hr  # noqa: E401,F401  (none of these imports rsm)

r = subprocess.run(["node", "--version"], capture_output=True, text=True)
print("python", sys.version.split()[0], "node", r.stdout.strip())
