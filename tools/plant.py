#!/usr/bin/env python3
"""Writes planted bugs into seeded/ from the definitions in tools/plants*.py and confirms each demonstration.
usage: plant.py [ID ...]   (default: all that are not in seeded/ yet)"""
import sys, os, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
def bug(id, prop, edits, needs, breaks, demo, flags='', libs='', np=0):
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, libs=libs, np=np)
for f in sorted(glob.glob(V + '/tools/plants*.py')): exec(open(f).read())
HEAD = '''#include <iostream>
#include <vector>
#include <complex>
#include <cmath>
#include <random>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::cerr << "FAILED line " << __LINE__ << ": " #c << std::endl; bad = 1; } } while (0)
'''
DEMO = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=gnu++20 -O0 -w -DHAVE_CONFIG_H=0 -DENABLE_MPI=1 -DHAVE_MPI=1 -DMPICH_SKIP_MPICXX=1 -DMPI_NO_CPPBIND=1 -DOMPI_SKIP_MPICXX=1 %s -I"$d/inc" -I"$PWD" -isystem /opt/dune/prefix/include -isystem /usr/include/superlu -isystem /usr/include/suitesparse -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/arpack++ "$d/demo.cc" -o "$t/demo" /opt/dune/prefix/lib/libdunecommon.a -L/usr/lib/x86_64-linux-gnu %s -lmpi || { rm -rf "$t"; exit 3; }
(cd "$t" && timeout 120 %s./demo); rc=$?
rm -rf "$t"
exit $rc
'''
W = '/tmp/plant_wt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[1:] or [i for i in B if not os.path.exists(V + '/seeded/' + i)]
for i in ids:
    b = B[i]
    shutil.rmtree(W, ignore_errors=True)
    sh('git clone -q /repo ' + W)
    ok = True
    for f, old, new in b['edits']:
        p = W + '/dune/istl/' + f; s = open(p).read()
        if s.count(old) != 1: print(i, 'EDIT matches', s.count(old), 'times in', f); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    patch = sh('git -C %s diff' % W).stdout
    d = V + '/seeded/' + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/inc')
    open(d + '/patch.diff', 'w').write(patch)
    shutil.copy(V + '/common/include/dune-istl-config.hh', d + '/inc/')
    open(d + '/demo.cc', 'w').write(HEAD + b['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % (b['flags'], b['libs'], 'env OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 mpirun --oversubscribe -np %d ' % b['np'] if b['np'] else '')); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo'); r1 = sh('bash %s/demo.sh' % d, cwd=W)
    print(i, b['prop'], 'unchanged', r0.returncode, 'patched', r1.returncode, 'OK' if r0.returncode == 0 and r1.returncode not in (0, 3) else 'BAD\n' + r0.stdout[-1500:] + '\n----\n' + r1.stdout[-1500:])
shutil.rmtree(W, ignore_errors=True)
