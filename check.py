#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property of /repo's current source statically"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        a = [x for x in a if x != tier]
    repo = os.environ.get('VERIF_REPO', '/repo')
    from sa.spec import registry
    return registry.run(a[0], repo, 'thorough' if tier == 'thorough' else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()), daemon=True)
    t.start()
    t.join(820 if os.environ.get('VERIF_TIER', 'quick') == 'quick' and 'thorough' not in sys.argv else None)
    if t.is_alive():
        from sa.spec import registry
        rc.append(registry.out_of_time(sys.argv[1]))
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
