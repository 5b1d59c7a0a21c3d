"""Nothing is built: check that the tools the checks use are there."""
import subprocess
subprocess.check_call(['python3-vt', '-c', 'import z3'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import django'])
