"""Is one seed one exactly repeatable execution?  Runs the same seeds in separate processes under different hash seeds and
worker counts (hence different real schedules of the worker processes) and compares the digests of verdict and trace."""
import os
import subprocess
import tempfile

from dst import boot

HERE = os.path.dirname(os.path.abspath(__file__))
ALL = sorted(f[:3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f[0] == 'c' and f[1:3].isdigit())
VARIANTS = [('0', '8'), ('0', '1'), ('1', '8'), ('4711', '3')]


def main(props, n):
    bad = 0
    for prop in props or ALL:
        results = []
        for hashseed, workers in VARIANTS:
            fd, out = tempfile.mkstemp(prefix='dst-selftest-')
            os.close(fd)
            env = dict(os.environ, DST_HASHSEED=hashseed, DST_WORKERS=workers)
            env.pop('PYTHONHASHSEED', None)
            env.pop('DST_REEXEC', None)
            p = subprocess.run([boot.PYTHON, '-B', '-W', 'ignore', os.path.join(HERE, '__main__.py'), 'digests', prop, str(n),
                                '--out', out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            with open(out) as f:
                results.append(f.read() if p.returncode == 0 else 'failed: ' + p.stdout[-500:])
            os.unlink(out)
        same = all(r == results[0] for r in results) and results[0].count('\n') == n
        print('%s: %d seeds x %d processes (hash seed, workers) %s: %s'
              % (prop, n, len(VARIANTS), VARIANTS, 'identical' if same else 'DIFFERENT'), flush=True)
        if not same:
            bad += 1
            lines = [r.split('\n') for r in results]
            for j in range(max(map(len, lines))):
                row = [x[j] if j < len(x) else '-' for x in lines]
                if len(set(row)) > 1:
                    print('   ', row)
    return 1 if bad else 0
