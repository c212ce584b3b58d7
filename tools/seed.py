"""Make a planted bug: ``seed.py SPEC.py``.

The spec defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python
source). Confirms in a scratch copy that the bug applies, that the stable
tests pass and that the demonstration tells the difference, then writes
/verif/seeded/<id>/ and runs the property's check against it (with --check).
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '9651e4a'
DEMO_SH = '''#!/bin/bash
# Run in the root of the repository. Exit status 0: the property holds here.
exec %s -s "$(dirname "$0")/demo.py"
''' % PY
DEMO_HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import io
import tempfile


class Std:

    def __init__(self):
        self.buffer = io.BytesIO()

    def write(self, s):
        self.buffer.write(s.encode('utf-8', 'backslashreplace'))

    def flush(self):
        pass


def cli(fmt, files, *opts, **kw):
    """Run the tool on these files (a list of names and contents)."""
    from httpolice import cli
    with tempfile.TemporaryDirectory() as d:
        paths = []
        for name, data in files:
            paths.append(os.path.join(d, name))
            with open(paths[-1], 'wb') as f:
                f.write(data)
        args = cli.parse_args(
            ['httpolice', '-i', fmt] + list(opts) +
            ([d] if kw.get('directory') else paths))
        (out, err) = (kw.get('stdout') or Std(), Std())
        status = cli.run_cli(args, out, err)
        return (status,
                out.buffer.getvalue().decode('utf-8').replace(d, '')
                if isinstance(out, Std) else None,
                err.buffer.getvalue().decode('utf-8').replace(d, ''))


def exchanges(fmt, files, directory=False):
    from httpolice import inputs
    with tempfile.TemporaryDirectory() as d:
        paths = []
        for name, data in files:
            paths.append(os.path.join(d, name))
            with open(paths[-1], 'wb') as f:
                f.write(data)
        return list(inputs.formats[fmt]([d] if directory else paths))


def ids(obj):
    return [c.id for c in obj.complaints]


def value(msg, name):
    return [e.value.decode('latin-1') if isinstance(e.value, bytes)
            else e.value for e in msg.header_entries if str(e.name) == name]


'''


def run(argv, **kw):
    return subprocess.run(argv, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def main(path, *opts):
    ident = os.path.basename(path)[:-3]
    spec = {}
    exec(compile(open(path).read(), path, 'exec'), spec)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        d = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
        # Which lines are original?
        for f, old, new in spec['EDITS']:
            p = os.path.join(d, f)
            text = open(p).read()
            if text.count(old) != 1:
                print('%s: %d matches in %s' % (ident, text.count(old), f))
                return 1
            open(p, 'w').write(text.replace(old, new))
        diff = run(['git', 'diff'], cwd=d).stdout.decode()
        # Lines removed must come from the original.
        for f in set(e[0] for e in spec['EDITS']):
            blame = run(['git', 'blame', '-s', 'HEAD', '--', f],
                        cwd=d).stdout.decode().splitlines()
            hunks = run(['git', 'diff', '-U0', '--', f],
                        cwd=d).stdout.decode()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    sha = blame[k - 1].split()[0].lstrip('^')
                    own = run(['git', 'log', '--format=%h', BASE + '..HEAD'],
                              cwd=d).stdout.decode().split()
                    if any(o.startswith(sha[:7]) or sha.startswith(o)
                           for o in own):
                        print('%s: touches own line: %s' % (
                            ident, blame[k - 1]))
                        return 1
        t = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                 '--no-cov'], cwd=d,
                env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                         PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8',
                         PYTHONPATH=d))
        last = t.stdout.decode().strip().splitlines()[-1]
        if t.returncode != 0:
            print('%s: tests fail: %s' % (
                ident, t.stdout.decode()[-1500:]))
            return 1
        demo = os.path.join(tmp, 'demo')
        os.mkdir(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(DEMO_HEAD + spec['DEMO'])
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        good = run(['bash', os.path.join(demo, 'demo.sh')], cwd='/repo')
        bad = run(['bash', os.path.join(demo, 'demo.sh')], cwd=d)
        print('%s: %s; demo %d -> %d' % (ident, last, good.returncode,
                                        bad.returncode))
        if good.returncode != 0 or bad.returncode == 0:
            print(good.stdout.decode()[-800:])
            print(bad.stdout.decode()[-800:])
            return 1
        out = os.path.join(VERIF, 'seeded', ident)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'],
                       'what_it_breaks': spec['BREAKS']}, f, indent=1)
        if '--check' in opts:
            props = [o for o in opts if o[0] == 'C'] or [spec['PROP']]
            for prop in props:
                c = run([PY, '-s', 'check.py', prop], cwd=VERIF,
                        env=dict(os.environ, VERIF_REPO=d))
                lines = c.stdout.decode().splitlines()
                print('   %s exit %d: %s' % (prop, c.returncode, ' | '.join(
                    x[:200] for x in lines[:2] + [
                        x for x in lines if x.startswith('VIOLATION')])))
    finally:
        shutil.rmtree(tmp)
    return 0


if __name__ == '__main__':
    sys.exit(max(main(a, *[o for o in sys.argv[1:]
                           if not o.endswith('.py')])
                 for a in sys.argv[1:] if a.endswith('.py')))
