"""setup_cmd: checks that the interpreters the two halves need are present (nothing has to be built)."""
import subprocess
import sys

subprocess.check_call(["/opt/venv/bin/python", "-c", "import torch, onnx; print('torch', torch.__version__)"])
subprocess.check_call(["python3-vt", "-c", "import z3; print('z3', z3.get_version_string())"])
