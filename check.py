#!/usr/bin/env python3
"""Run one check: ``check.py C01 [--tier quick|thorough]``.

Other modes::

    check.py --replay FILE        reproduce a recorded violation
    check.py --selftest [C01...]  prove that runs are deterministic
    check.py C01 --index 17       run just one simulated run, verbosely

The whole thing runs in one interpreter with a fixed environment, so we start
by replacing ourselves with that.
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
ENV = {
    'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
    'PYTHONDONTWRITEBYTECODE': '1',
    'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8',
}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) or \
            os.environ.get('VERIF_REEXEC') != '1':
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('PYTHON')}
        env.update(ENV)
        env['VERIF_REEXEC'] = '1'
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(python, [python, '-s', os.path.join(HERE, 'check.py')] +
                  sys.argv[1:], env)
    # Never read bytecode that may be stale with respect to the sources.
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'
    sys.path.insert(0, HERE)
    from sim import runner
    return runner.main(sys.argv[1:])


if __name__ == '__main__':
    sys.exit(main())
