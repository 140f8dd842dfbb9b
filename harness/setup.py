"""setup_cmd: everything is interpreted; check that the tools are there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402

for f in [core.PY, *core.JARS.split(":")]:
    assert os.path.exists(f), f
subprocess.run(["java", "-version"], check=True, capture_output=True)
os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("ok")
