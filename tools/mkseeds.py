#!/usr/bin/env python3
"""mkseeds.py SCRATCH [id...]: writes seeded/<id>/ from the list in tools/seeds/*.py and confirms each in SCRATCH/repo
(a built copy of /repo; SCRATCH/build.sh and SCRATCH/test.sh work on it): the patch applies and builds, the stable tests
pass with it, the demonstration passes without it and fails with it. Seeds that do not confirm are removed again."""
import glob, json, os, re, shutil, subprocess, sys, difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include <unistd.h>
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include <snn/data/Data.hpp>
#include <snn/tools/Tools.hpp>
#include <snn/neural_network/layer/Convolution1D.hpp>
#include <snn/neural_network/layer/Convolution2D.hpp>
#include <snn/neural_network/layer/LocallyConnected1D.hpp>
#include <snn/neural_network/layer/LocallyConnected2D.hpp>
#include <snn/neural_network/layer/MaxPooling1D.hpp>
#include <snn/neural_network/layer/MaxPooling2D.hpp>
#include <snn/neural_network/layer/FullyConnected.hpp>
#include <snn/neural_network/layer/Recurrence.hpp>
#include <snn/neural_network/layer/GruLayer.hpp>
#include <snn/neural_network/optimizer/Dropout.hpp>
#include <snn/neural_network/optimizer/Softmax.hpp>
#include <snn/neural_network/optimizer/L1Regularization.hpp>
#include <snn/neural_network/optimizer/L2Regularization.hpp>
#include <snn/neural_network/optimizer/ErrorMultiplier.hpp>
#include <snn/neural_network/optimizer/StochasticGradientDescent.hpp>
namespace si = snn::internal;
using V = std::vector<float>;
using VV = std::vector<V>;
using Net = snn::StraightforwardNeuralNetwork;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAIL line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
inline bool near(double a, double b, double t = 1e-4) { return std::abs(a - b) <= t * (1 + std::abs(a) + std::abs(b)); }
inline si::SimpleNeuron& sn(Net& n, int l, int i) { return *static_cast<si::SimpleNeuron*>(n.layers[l]->getNeuron(i)); }
inline si::RecurrentNeuron& rn(Net& n, int l, int i) { return *static_cast<si::RecurrentNeuron*>(n.layers[l]->getNeuron(i)); }
inline V ramp(int n, float a = 1, float d = 1) { V v(n); for (int i = 0; i < n; ++i) v[i] = a + d * i; return v; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
'''
SH = r'''#!/bin/bash
# builds the demonstration against the tree in the current directory (built by build.sh) and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
I=""; for x in include/snn/data include/snn/neural_network include/snn/neural_network/layer include/snn/neural_network/layer/neuron include/snn/neural_network/layer/neuron/activation_function include/snn/neural_network/optimizer include/snn/tools include src/external_library/boost_1_80_0_minimal src/external_library/bitmap src/external_library/cpp-static-block; do I="$I -I$PWD/$x"; done
B=$PWD/_build/src
g++ -std=c++20 -O1 -w -fopenmp -fno-access-control $I "$here/demo.cpp" "$B/libStraightforwardNeuralNetwork.a" "$B/external_library/boost_1_80_0_minimal/libs/serialization/libBoost.a" "$B/external_library/bitmap/libBitmap.a" "$B/external_library/cpp-static-block/libcpp-static-block.a" -lpthread -o "$d/demo" || exit 2
cd "$d" && timeout 120 ./demo
'''
def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout
def orig_lines(repo, f, lines):
    """the lines a patch changes must be lines of the original repository"""
    rc, o = sh('git blame -s --line-porcelain %s | grep -E "^[0-9a-f]{40} "' % f, repo)
    return None
def main():
    scratch = sys.argv[1]; want = set(sys.argv[2:]); repo = scratch + '/repo'
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools/seeds/*.py'))):
        g = {}; exec(open(f).read(), g); seeds += g['SEEDS']
    base = sh('git rev-list --max-parents=0 HEAD', repo)[1].strip()
    for s in seeds:
        if want and s['id'] not in want: continue
        d = os.path.join(HERE, 'seeded', s['id'])
        if not want and os.path.exists(d): continue
        sh('git checkout -- .', repo)
        ok = True
        for (f, old, new) in s['edits']:
            p = os.path.join(repo, f); t = open(p, encoding='utf-8', newline='').read()
            if '\r\n' in t: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
            if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), 'times in', f); ok = False; break
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        if not ok: continue
        rc, diff = sh('git diff', repo)
        # every removed line must come from the original tree
        for f in {e[0] for e in s['edits']}:
            removed = [l[1:] for l in sh('git diff -U0 -- ' + f, repo)[1].splitlines() if l.startswith('-') and not l.startswith('---')]
            orig = sh('git show %s:%s' % (base, f), repo)[1].splitlines()
            if any(r.rstrip('\r') not in [o.rstrip('\r') for o in orig] for r in removed): print(s['id'], 'changes lines that are not original in', f)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w', newline='').write(diff)
        open(d + '/demo.cpp', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh('bash %s/build.sh' % scratch)
        if rc: print(s['id'], 'does not build', o[-2000:]); ok = False
        if ok:
            rc, o = sh('bash %s/demo.sh' % d, repo)
            if rc in (0, 2): print(s['id'], 'demo does not fail with the patch:', rc, o[-600:]); ok = False
            else: print(s['id'], 'with patch:', rc, o.strip()[:160])
        if ok:
            rc, o = sh('bash %s/test.sh /tmp/seedw/out.json' % scratch)
            r = json.load(open('/tmp/seedw/out.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = st - set(r['passed'])
            if miss: print(s['id'], 'tests fail', sorted(miss)); ok = False
        sh('git checkout -- .', repo)
        if ok:
            # the unpatched tree: /repo itself, built
            rc, o = sh('bash %s/demo.sh' % d, '/repo')
            if rc: print(s['id'], 'demo fails on the unchanged tree:', rc, o[-800:]); ok = False
        if not ok: shutil.rmtree(d, ignore_errors=True)
        else: print(s['id'], 'CONFIRMED', flush=True)
main()
