"""A second interpreter with another hash seed: what a function of the code under test gives must not depend on it.

ask(module, function, argument) evaluates pbt.props.<module>.<function>(argument) there; argument and result are JSON.
"""
import importlib
import json
import logging
import os
import subprocess
import sys
import tempfile

_peers = {}


def ask(module, function, arg):
    pid = os.getpid()
    if pid not in _peers:
        from pbt import core
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str((int(env.get('PYTHONHASHSEED') or 0) * 7 + 4242) % 4294967291)
        d = tempfile.mkdtemp(prefix='peer-', dir=core.SCRATCH)
        for k in ('XDG_CACHE_HOME', 'XDG_DATA_HOME', 'HOME'):
            env[k] = os.path.join(d, k)
            os.makedirs(env[k])
        env['IEML_PBT_WORK'] = d
        _peers.clear()
        _peers[pid] = subprocess.Popen([sys.executable, '-m', 'pbt.peer'], env=env, cwd=core.VERIF, stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    p = _peers[pid]
    try:
        p.stdin.write(json.dumps([module, function, arg]) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError:
        line = ''
    if not line:
        from pbt import core
        del _peers[pid]
        raise core.HarnessError('the second interpreter died')
    return json.loads(line)


def main():
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)                       # whatever the code prints goes elsewhere
    for line in sys.stdin:
        module, function, arg = json.loads(line)
        f = getattr(importlib.import_module('pbt.props.' + module), function)
        try:
            r = ['ok', f(arg)]
        except Exception as e:
            r = ['error', type(e).__name__]
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
