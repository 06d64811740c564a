"""Checks that the tools are there."""
import subprocess, sys
for c in (['cargo', 'kani', '--version'], ['verus', '--version'], ['cargo', '--version']):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout.strip())
    if p.returncode:
        sys.exit(1)
