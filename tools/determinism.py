"""Self-test: run i of a check gives the same choices and the same event log in
a fresh process, after other runs in the same process, and under another
PYTHONHASHSEED.

    /opt/venv/bin/python tools/determinism.py C01 [runs]
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def child(prop, ids):
    from sim import driver
    r = driver.Runner(prop)
    for i in ids:
        ch = driver.choices_for(prop, 1, i)
        v, ctx = r.one(ch)
        print('HASH', i, driver.h64(repr(ch.log)), ' '.join(driver.events_hash(k) for k in ctx.kernels), v is not None)
    sys.stdout.flush()
    os._exit(0)


def go(prop, ids, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), LC_ALL='C.UTF-8', PYTHONUTF8='1')
    o = subprocess.run([sys.executable, '-B', '-W', 'ignore', __file__, '--child', prop] + list(map(str, ids)), env=env,
                       stdout=subprocess.PIPE, check=True).stdout.decode()
    return {ln.split()[1]: ln for ln in o.splitlines() if ln.startswith('HASH')}


if sys.argv[1] == '--child':
    child(sys.argv[2], [int(x) for x in sys.argv[3:]])
prop = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
ids = list(range(n))
a = go(prop, ids, 0)
b = go(prop, ids[::-1], 12345)
bad = [i for i in a if a[i] != b[i]]
for i in ids[:: max(1, n // 6)]:
    c = go(prop, [i], 7)
    if c[str(i)] != a[str(i)]:
        bad.append(str(i))
for i in bad[:5]:
    print(a[i])
    print(b[i])
print('%s: %d runs compared, %d differ' % (prop, n, len(bad)))
sys.exit(bool(bad))
