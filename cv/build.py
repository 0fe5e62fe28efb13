"""Build the real package from /repo's current working tree into a scratch directory."""
import os, shutil, subprocess, tempfile
from .ctx import REPO
class BuildError(Exception): pass
def flags():
    return ['-O3','-mavx','-ffast-math','-DNDEBUG']
def build(dest=None,extra=()):
    d=dest or tempfile.mkdtemp(prefix='vp_build_')
    src=os.path.join(REPO,'traceon')
    shutil.copytree(src,os.path.join(d,'traceon'),ignore=shutil.ignore_patterns('__pycache__','*.so','*.o'))
    so=os.path.join(d,'traceon','backend','traceon_backend.so')
    r=subprocess.run(['gcc']+flags()+list(extra)+['-fPIC','-shared','-w','-o',so,os.path.join(d,'traceon','backend','traceon-backend.c'),'-lm'],capture_output=True,text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return d
