#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] [--repo DIR]"""
import argparse
import importlib
import os
import sys

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def go():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    from jfsa import check
    mod = importlib.import_module('props.' + a.pid)
    return check.main(a.pid, a.tier, mod.run, a.repo, getattr(mod, 'LEVEL', 'proof'))


if __name__ == '__main__':
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(go()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
