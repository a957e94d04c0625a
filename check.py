#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property against /repo's working tree"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONPATH'] = HERE + os.pathsep + os.environ.get('PYTHONPATH', '')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from vc.runner import run_property
    pid = sys.argv[1]
    rc = run_property(pid, 'contracts.' + pid.lower())
    sys.stdout.flush()
    os._exit(rc)
