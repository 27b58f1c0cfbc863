"""Process environment of simulated runs: fixed hash seeds, no address randomisation, no bytecode in /repo."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
HASH_SEEDS = ['0', '1', '2', '12345']
OTHER_SEEDS = ['77', '4242', '31337', '9']


def python():
    for p in ('/opt/venv/bin/python', sys.executable):
        if p and os.path.exists(p):
            return p
    return 'python3'


def child_env(hashseed):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER', 'DST_REPO',
                                                      'DST_LIMIT', 'DST_ONLY')}
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = VERIF
    e['PYTHONUTF8'] = '1'
    e['LC_ALL'] = 'C.UTF-8'
    return e


def no_aslr():
    """called in the child before exec; harmless where it is not permitted"""
    try:
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)
    except Exception:
        pass


def boot():
    """prepare this process for simulated runs and import the code under test"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from dst import sched
    sched.set_prefix(os.path.join(REPO, 'records') + os.sep)
    import asyncio, copy, pickle, json, fractions, ast, decimal  # noqa: loaded before locks and clocks are replaced
    sched.install()
    from dst import world
    world.load()
    assert os.path.realpath(world.R.__file__).startswith(os.path.realpath(REPO)), world.R.__file__
    world.setup_process()
