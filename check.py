#!/usr/bin/env python3
"""Decide one property by deterministic simulation: check.py ID [quick|thorough]

Builds the simulator from /repo's working tree, searches seeded runs, writes
evidence/ID.json.  Exit 0: held on everything explored; 1: VIOLATION printed;
3: the check itself could not run."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/sim')
import build
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    if not seed.isdigit():
        seed = str(int.from_bytes(seed.encode(), 'little') & ((1 << 62) - 1))
    secs = os.environ.get('VERIF_SECONDS') or ('40' if tier == 'quick' else '600')
    ev = V + '/evidence/%s.json' % prop
    os.makedirs(V + '/evidence', exist_ok=True)
    rd = V + '/replays'
    os.makedirs(rd, exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    jobs = str(min(8, os.cpu_count() or 8))
    for full in (False, True):
        t = time.time()
        b = build.build(prop, full)
        if not b:
            print('check %s: the simulator did not build from %s' % (prop, build.REPO))
            return 3
        print('check %s: built in %.0f s' % (prop, time.time() - t), flush=True)
        r = subprocess.run([b, '--tier', tier, '--seed', seed, '--jobs', jobs, '--seconds', secs,
                            '--minimise', '30' if tier == 'quick' else '120', '--evidence', ev,
                            '--replay-dir', rd, '--known', V + '/known_findings.txt'],
                           stdout=subprocess.PIPE, text=True)
        if 'UNLINKED' in r.stdout and not full:
            print('check %s: the tree calls code outside the expected families; building all of it' % prop)
            continue
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1):
            print('check %s: simulator ended with %d' % (prop, r.returncode))
            return 3
        return r.returncode
if __name__ == '__main__':
    sys.exit(main())
