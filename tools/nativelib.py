"""Builds the real library from /repo's current tree with sanitizers, and the native harness of a property."""
import os, subprocess, glob, concurrent.futures as cf, shutil
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOOST = 'src/external_library/boost_1_80_0_minimal'
BASE = ['-std=c++20', '-O1', '-g0', '-w', '-fopenmp']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control']

def incs():
    d = ['include/snn/data', 'include/snn/neural_network', 'include/snn/neural_network/layer', 'include/snn/neural_network/layer/neuron',
         'include/snn/neural_network/layer/neuron/activation_function', 'include/snn/neural_network/optimizer', 'include/snn/tools', 'include',
         BOOST, 'src/external_library/bitmap', 'src/external_library/cpp-static-block']
    return ['-I' + os.path.join(REPO, x) for x in d]

def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        if 'external_library' in root: continue
        out += [os.path.join(root, f) for f in files if f.endswith('.cpp')]
    return sorted(out)

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def build(out, harness, jobs=8):
    """returns (executable or None, log)"""
    os.makedirs(out, exist_ok=True)
    tasks = []
    objs = []
    for i, s in enumerate(sources()):
        o = os.path.join(out, 'l%d.o' % i); objs.append(o)
        tasks.append(['g++'] + BASE + SAN + incs() + ['-c', s, '-o', o])
    bs = sorted(glob.glob(os.path.join(REPO, BOOST, 'libs/serialization/src/*.cpp')))
    bs = [b for b in bs if 'xml' not in b and '_w' not in os.path.basename(b) and 'codecvt' not in b and 'binary' not in b and 'polymorphic' not in b]
    for i, s in enumerate(bs):
        o = os.path.join(out, 'b%d.o' % i); objs.append(o)
        tasks.append(['g++', '-std=c++20', '-O0', '-w', '-I' + os.path.join(REPO, BOOST), '-c', s, '-o', o])
    for i, s in enumerate(glob.glob(os.path.join(REPO, 'src/external_library/bitmap/*.cpp')) + glob.glob(os.path.join(REPO, 'src/external_library/cpp-static-block/*.cpp'))):
        o = os.path.join(out, 'e%d.o' % i); objs.append(o)
        tasks.append(['g++', '-std=c++20', '-O0', '-w'] + incs() + ['-c', s, '-o', o])
    ho = os.path.join(out, 'h.o'); objs.append(ho)
    tasks.insert(0, ['g++'] + BASE + SAN + incs() + ['-I' + os.path.join(HERE, 'native'), '-c', harness, '-o', ho])
    log = ''
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, o in ex.map(run, tasks):
            if rc: log += o
    if log: return None, log
    exe = os.path.join(out, 'run')
    rc, o = run(['g++', '-fopenmp', '-fsanitize=address,undefined'] + objs + ['-o', exe, '-lpthread'])
    if rc: return None, o
    return exe, ''
if __name__ == '__main__':
    import sys, time
    t = time.time()
    exe, log = build(sys.argv[2], os.path.join(HERE, 'native', sys.argv[1] + '.cpp'))
    print(exe, log[-3000:], time.time() - t)
