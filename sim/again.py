"""One more run of the tool, in a new process with another environment.

Run as a script: reads a job (JSON) on standard input, writes what came out
(pickled) to standard output. `launch` is how to start it.
"""

import ctypes
import json
import os
import pickle
import subprocess
import sys
import tempfile


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCALES = ['de_DE.ISO-8859-1', 'tr_TR.UTF-8', 'ja_JP.EUC-JP']
ADDR_NO_RANDOMIZE = 0x0040000
TIMEOUT = 300

scratch = None      # directory for bytecode and compiled locales


def prepare():
    """Once per check: a private bytecode cache, and some real locales."""
    global scratch
    if scratch is not None:
        return
    import atexit
    import shutil
    scratch = tempfile.mkdtemp(prefix='verif-again-')
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    os.mkdir(os.path.join(scratch, 'locale'))
    procs = []
    for name in LOCALES:
        (lang, charset) = name.split('.')
        try:
            procs.append(subprocess.Popen(
                ['localedef', '-i', lang, '-f', charset,
                 os.path.join(scratch, 'locale', name)],
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL))
        except OSError:
            break
    for p in procs:
        p.wait()
    launch({}, [])      # fill the bytecode cache


def locales():
    return [x for x in LOCALES
            if os.path.isdir(os.path.join(scratch, 'locale', x))]


def _no_aslr():
    ctypes.CDLL(None).personality(ADDR_NO_RANDOMIZE)


def launch(conf, inputs):
    env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent',
           'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'bytecode'),
           'VERIF_REPO': os.environ.get('VERIF_REPO', '/repo'),
           'LOCPATH': os.path.join(scratch, 'locale')}
    env.update(conf.get('env', {}))
    if conf.get('stack'):
        env['PADDING'] = 'x' * conf['stack']
    from sim import runner
    with runner.waiting():
        p = subprocess.run(
            [sys.executable, '-s', '-m', 'sim.again'], cwd=HERE, env=env,
            input=json.dumps({'conf': conf, 'inputs': inputs}).encode(),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            preexec_fn=_no_aslr, timeout=TIMEOUT)
    if p.returncode != 0 or b'Traceback' in p.stderr:
        raise RuntimeError('%r: %s' % (p.returncode,
                                       p.stderr.decode()[-2000:]))
    return pickle.loads(p.stdout)


###############################################################################
# In the new process.


def run_cli(plan, conf):
    """The whole program, with nothing but its input simulated."""
    import io
    from httpolice import cli
    from sim import capture, runner
    from sim.props import c07
    io_ = dict(plan.get('io', {}))
    io_['order'] = conf.get('order', io_.get('order'))
    capture.reset(plan, io_)
    if 'merge' in plan:
        (paths, _, _) = c07.place(plan['merge'], runner.Ctx())
    else:
        paths = capture.place(plan, runner.Ctx())
    argv = ['httpolice', '-i', plan['format'], '-o', plan['output']]
    if plan.get('fail_on'):
        argv += ['--fail-on', plan['fail_on']]
    saved = (sys.argv, sys.stdout, sys.stderr)
    (out, err) = (io.BytesIO(), io.BytesIO())
    exc = None
    status = None
    try:
        sys.argv = argv + paths
        sys.stdout = io.TextIOWrapper(out, encoding=saved[1].encoding,
                                      errors=saved[1].errors)
        sys.stderr = io.TextIOWrapper(err, encoding=saved[2].encoding,
                                      errors=saved[2].errors)
        try:
            cli.main()
        except SystemExit as e:
            status = e.code
        except Exception as e:
            exc = '%s: %s' % (type(e).__name__, e)
        wrappers = (sys.stdout, sys.stderr)
        for w in wrappers:
            w.flush()
    finally:
        (sys.argv, sys.stdout, sys.stderr) = saved
    return {'out': out.getvalue(), 'err': err.getvalue(), 'status': status,
            'exc': exc, 'encoding': sys.stderr.encoding}


def run_api(plan, conf):
    import io
    import httpolice
    from sim import observe, traffic
    from sim.clock import CLOCK
    CLOCK.reset(plan.get('now', 1500000000.0))
    exchs = [traffic.to_api(e)
             for e in [plan['exchange']] + plan.get('more', [])]
    for exch in exchs:
        httpolice.check_exchange(exch)
    res = {'ids': [observe.notice_ids(exch) for exch in exchs]}
    for kind in plan['reports']:
        buf = io.BytesIO()
        getattr(httpolice, kind + '_report')(exchs, buf)
        res[kind] = buf.getvalue()
    return res


def main():
    job = json.load(sys.stdin)
    conf = job['conf']
    padding = [bytearray(n) for n in conf.get('heap', [])]
    from sim import capture, clock, runner, sut
    sut.load()
    padding.extend(object() for _ in range(conf.get('objects', 0)))
    import gc
    import locale
    import time
    if conf.get('setlocale'):
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    now = clock.CLOCK.now
    clock.LOCAL_OFFSET[0] = time.localtime(now).tm_gmtoff
    if job['inputs']:
        capture.setup()
    if 'gc' in conf:
        if conf['gc'] is None:
            gc.disable()
        else:
            gc.set_threshold(*conf['gc'])
    threshold = gc.get_threshold()
    results = []
    for plan in job['inputs']:
        func = run_api if 'exchange' in plan else run_cli

        def child():
            if conf.get('gc', 0) is None:
                gc.disable()
            gc.set_threshold(*threshold)
            return func(plan, conf)
        results.append(runner.forked(child, wall=TIMEOUT))
    pickle.dump(results, sys.stdout.buffer)
    sys.stdout.buffer.flush()
    os._exit(0)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    main()
