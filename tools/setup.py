"""Checks that the tools are there; parses the specification."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('java', 'cmake', 'ninja', 'g++'):
    subprocess.run(['which', t], check=True, stdout=subprocess.DEVNULL)
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    assert os.path.exists(f), f
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ok')
