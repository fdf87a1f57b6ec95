"""Fixes everything about the process that could differ between two runs of one seed, and finds the interpreter."""
import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.path.join(REPO, 'src')


def child_env(hashseed):
    e = dict(os.environ)
    e.update({'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': SRC, 'MPLBACKEND': 'Agg',
              'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'VERIF_CHILD': '1',
              'PYTHONPYCACHEPREFIX': os.path.join(tempfile.gettempdir(), 'verif_no_pycache')})
    cfg = os.environ.get('MPLCONFIGDIR') or '/opt/vp/mplconfig'
    if not os.path.isdir(cfg):
        cfg = os.path.join(tempfile.gettempdir(), 'verif_mplconfig_%d' % os.getuid())
        os.makedirs(cfg, exist_ok=True)
    e['MPLCONFIGDIR'] = cfg
    e.pop('PYTHONSTARTUP', None)
    return e


def python():
    return PY if os.path.exists(PY) else sys.executable
