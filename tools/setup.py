"""Nothing to build: check that the tools answer."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3
import pyvc.engine, pyvc.verify, pyvc.par
os.makedirs(HERE + '/evidence', exist_ok=True)
print('z3', z3.get_version_string())
print(subprocess.run(['cvc5', '--version'], capture_output=True, text=True).stdout.splitlines()[0])
