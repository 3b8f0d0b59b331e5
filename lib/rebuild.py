"""Builds documents given as plans on standard input and prints digests of
their pages: run in a process of its own by checks/c25.py."""
import hashlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)


def main():
    from checks import c25
    from lib.harness import Violation
    out = []
    for plan in json.load(sys.stdin):
        try:
            s = c25.build_summary(c25.describe(plan))
            s['dests'] = sorted(s['dests'].items(), key=repr)
        except Violation as e:
            s = 'error: %s' % e
        out.append(hashlib.blake2b(repr(s).encode(), digest_size=12
                                   ).hexdigest())
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
