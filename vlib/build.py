"""Builds a harness from /repo's working tree: a generated ninja file in /verif/.build."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FERN_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
BUILD = os.environ.get('FERN_SIM_BUILD', os.path.join(VERIF, '.build'))
CXX = '/usr/bin/g++'

# Instrumented: calls of the race detector's interface, which the simulator
# implements.  Assertions stay on, as in the project's Debug build.
INST = '-std=c++17 -O1 -g1 -fsanitize=thread -Wno-deprecated-declarations -w'
PLAIN = '-std=c++17 -O2 -g1 -fno-threadsafe-statics -w'


def configure_h(gen):
    """What the project's CMake file generates from configure.h.in."""
    with open(os.path.join(SRC, 'fern', 'configure.h.in')) as f:
        text = f.read()
    values = {
        '${${PROJECT_NAME}_MAJOR_VERSION}': '0', '${${PROJECT_NAME}_MINOR_VERSION}': '0',
        '${${PROJECT_NAME}_PATCH_VERSION}': '0', '${${PROJECT_NAME}_PRE_RELEASE_VERSION}': '-rc.1',
        '${${PROJECT_NAME}_VERSION}': '0.0.0-rc.1', '${${PROJECT_NAME}_COPYRIGHT}': '2010-now Geoneric',
        '${CMAKE_BUILD_TYPE}': 'Debug', '${CMAKE_SYSTEM}': 'Linux', '${CMAKE_CXX_COMPILER}': CXX}
    for k, v in values.items():
        text = text.replace(k, v)
    text = re.sub(r'\$\{[^}]*\}', '', text)
    path = os.path.join(gen, 'fern', 'configure.h')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def repo_sources(spec):
    """'core -stopwatch.cc' -> the .cc files of source/fern/core but one."""
    parts = spec.split()
    drop = {p[1:] for p in parts[1:]}
    files = sorted(glob.glob(os.path.join(SRC, 'fern', parts[0], '*.cc')))
    return [f for f in files if os.path.basename(f) not in drop]


def forget_stale(d):
    """ninja only compares times: a file that was put back with its old time would be missed."""
    now = {}
    for root in (SRC, os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'sim')):
        for base, _, files in os.walk(root):
            for f in files:
                p = os.path.join(base, f)
                st = os.stat(p)
                now[p] = [st.st_mtime_ns, st.st_size]
    stamp = os.path.join(d, 'stamp.json')
    try:
        old = json.load(open(stamp))
    except (OSError, ValueError):
        old = None
    if old is None or any(k not in now or now[k][0] < v[0] for k, v in old.items()) \
            or any(k not in old and now[k][0] < os.stat(stamp).st_mtime_ns for k in now):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    with open(stamp, 'w') as f:
        json.dump(now, f)


class Ninja:
    def __init__(self, directory):
        self.dir = directory
        self.lines = [
            'ninja_required_version = 1.5',
            'rule cc', '  command = %s $flags -MD -MF $out.d -c $in -o $out' % CXX, '  depfile = $out.d', '  deps = gcc',
            '  description = $out',
            # The simulator's own memory functions are not intercepted.
            'rule ccsim', '  command = %s $flags -MD -MF $out.d -c $in -o $out && objcopy --redefine-sym memset=__real_memset '
            '--redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove $out' % CXX,
            '  depfile = $out.d', '  deps = gcc', '  description = $out',
            'rule link', '  command = %s $in -o $out $libs' % CXX, '  description = $out',
            'rule run', '  command = $cmd', '  description = $out', '  restat = 1',
        ]
        self.objs = []
        self.generated = []

    def cc(self, src, flags, rule='cc', order=(), tag=''):
        name = src
        for root in (SRC, VERIF, self.dir):
            if src.startswith(root + '/'):
                name = src[len(root) + 1:]
        obj = 'o/' + tag + name.replace('/', '_') + '.o'
        self.lines.append('build %s: %s %s%s' % (obj, rule, src, ' || ' + ' '.join(order) if order else ''))
        self.lines.append('  flags = ' + flags)
        self.objs.append(obj)
        return obj

    def run(self, outs, ins, cmd):
        self.lines.append('build %s: run %s' % (' '.join(outs), ' '.join(ins)))
        self.lines.append('  cmd = ' + cmd)

    def link(self, exe, libs):
        self.lines.append('build %s: link %s' % (exe, ' '.join(self.objs)))
        self.lines.append('  libs = ' + libs)
        self.lines.append('default ' + exe)


def build(harness):
    """harness: dict with name, sources, repo, and optionally flags, libs, generate, io."""
    d = os.path.join(BUILD, harness['name'])
    os.makedirs(d, exist_ok=True)
    forget_stale(d)
    os.makedirs(os.path.join(d, 'o'), exist_ok=True)
    gen = os.path.join(d, 'gen')
    configure_h(gen)
    inc = '-I%s -I%s -I%s/sim -I%s/harness' % (SRC, gen, VERIF, VERIF)
    n = Ninja(d)
    extra = harness.get('flags', '')
    order = []
    if 'generate' in harness:
        order = harness['generate'](n, d, gen, inc)
    # The longest compilations first.
    for s in harness['sources']:
        if isinstance(s, tuple):
            s, tag, fl = s
            n.cc(os.path.join(VERIF, 'harness', s), ' '.join([INST, inc, extra, fl]), order=order, tag=tag)
        else:
            n.cc(os.path.join(VERIF, 'harness', s), ' '.join([INST, inc, extra]), order=order)
    for spec in harness['repo']:
        spec, fl = spec if isinstance(spec, tuple) else (spec, '')
        for s in repo_sources(spec):
            n.cc(s, ' '.join([INST, inc, extra, fl]), order=order)
    for s in n.generated:
        n.cc(s, ' '.join([INST, inc, extra]), order=order)
    for s in ['rt.cc', 'driver.cc'] + harness.get('sim', []):
        n.cc(os.path.join(VERIF, 'sim', s), ' '.join([PLAIN, inc, extra]), rule='ccsim', order=order)
    exe = harness['name']
    n.link(exe, '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset ' + harness.get('libs', '') + ' -ldl -lpthread')
    path = os.path.join(d, 'build.ninja')
    text = '\n'.join(n.lines) + '\n'
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)
    r = subprocess.run(['ninja', '-C', d, '-j', str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        sys.stdout.write('BUILD-ERROR harness %s does not build from %s\n' % (harness['name'], REPO))
        sys.exit(3)
    return os.path.join(d, exe)
