"""Build and confirm the planted bugs: python tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts with id, property, needs, breaks, edits
[(file, old, new), ...] and demo (Python source).  Everything happens in scratch
copies of /repo; the result is written to /verif/seeded/<id>/.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

BASE = '50c6abf'
PY = '/opt/venv/bin/python'
OUT = '/verif/seeded'
SH = '''#!/bin/sh
# Run with cwd = the repository; exits 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import atexit, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
import datetime, json, subprocess, threading
import numpy as np
import dsch
from dsch import schema, exceptions
from dsch.frontend import PseudoStorage
DIR = tempfile.mkdtemp(prefix='demo')
def path(name):
    return os.path.join(DIR, name)
atexit.register(shutil.rmtree, DIR, True)
%s
'''


def passed(tree):
    work = tempfile.mkdtemp()
    xml = work + '/j.xml'
    subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-x' if 0 else '-q',
                    '--basetemp', work + '/tmp', '-o', 'junit_family=xunit2', '--junitxml', xml],
                   cwd=tree, env=dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(xml).getroot().iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    shutil.rmtree(work)
    return ok


def demo(tree, d):
    r = subprocess.run(['sh', d + '/demo.sh'], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout[-400:]


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix='plant')
    good = scratch + '/good'
    subprocess.run(['git', 'clone', '-q', '/repo', good], check=True)
    base = None
    for b in bugs:
        if want and b['id'] not in want:
            continue
        tree = scratch + '/' + b['id']
        shutil.copytree(good, tree)
        for f, old, new in b['edits']:
            p = tree + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, stdout=subprocess.PIPE, text=True, check=True).stdout
        removed = [(f, l[1:]) for f, l in lines(diff)]
        orig = 0
        for f, l in removed:
            o = subprocess.run(['git', 'show', BASE + ':' + f], cwd=good, stdout=subprocess.PIPE, text=True).stdout.split('\n')
            orig += l in o and bool(l.strip())
        d = scratch + '/d-' + b['id']
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        src = b['demo'].strip('\n').split('\n')
        open(d + '/demo.py', 'w').write(HEAD % '\n'.join(src))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        g, gm = demo(good, d)
        w, wm = demo(tree, d)
        if base is None:
            base = passed(good)
        t = passed(tree)
        lost = sorted(base - t)
        ok = g == 0 and w != 0 and not lost and orig
        print('%-6s %s good=%d bad=%d lost=%d orig-lines=%d/%d' % (b['id'], 'ok ' if ok else 'BAD', g, w, len(lost), orig, len(removed)))
        if not ok:
            print('   ', lost[:3], gm if g else '', '' if w else wm)
        else:
            print('   ', wm.strip().split('\n')[-1][:150])
            dst = OUT + '/' + b['id']
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        shutil.rmtree(tree)
    shutil.rmtree(scratch)


def lines(diff):
    f = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('-') and not l.startswith('---'):
            yield f, l


main()
