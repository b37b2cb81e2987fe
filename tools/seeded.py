"""Runs checks against the planted bugs in scratch copies (not a check). usage: seeded.py [--all] [id ...]   own property only, or all checks with --all"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all' in args
ids = [a for a in args if a != '--all'] or sorted(os.listdir(f'{ROOT}/seeded'))
ALL = [f'C{i:02d}' for i in range(1, 40) if os.path.exists(f'{ROOT}/mc/props/c{i:02d}.py')]


def one(sid):
    prop = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))['property']
    w = f'/tmp/seedrun/{sid}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    subprocess.run(['git', 'apply', f'{ROOT}/seeded/{sid}/patch.diff'], cwd=w, check=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MC_REPO_SRC=f'{w}/src', MC_FIRST='1', MC_PROCS='1' if every else '4', MC_SCRATCH=f'{w}/scratch')
    caught = []
    for c in (ALL if every else [prop]):
        try:
            r = subprocess.run(['python3', '-m', 'mc.core', c, 'quick'], cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
            if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                caught.append(c)
            elif r.returncode:
                caught.append(f'{c}:exit{r.returncode}')
        except subprocess.TimeoutExpired:
            caught.append(f'{c}:timeout')
    shutil.rmtree(w, ignore_errors=True)
    return sid, prop, caught


with ThreadPoolExecutor(8 if every else 2) as ex:
    for sid, prop, caught in ex.map(one, ids):
        print(f'{sid:28} {prop} {"caught" if prop in caught else "MISSED"} {" ".join(caught)}', flush=True)
