#!/usr/bin/env python3
"""Builds /repo's current sources, instrumented, outside /repo.

usage: build.py FLAVOR [harness ...]

Every flavour compiles the C++ sources that /repo/src/Makefile.inc lists (so a
source added to or removed from the library is followed) with the same feature
macros the project's own configure produced for this machine (cfg/tensor/config.h:
OpenBLAS, FFTW3, 64 bits, assertions on), plus the sanitizers of the flavour.
Harnesses are harness/<name>.cc.  Objects go to build/<flavor>/ (git-ignored).
"""
import hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TENSOR_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

SAN = '-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined -fsanitize-address-use-after-scope'
FLAVORS = {
    # name: (cxx, compile flags, link flags)
    'asan': ('g++', '-O1 -g1 -fno-omit-frame-pointer ' + SAN + ' -D_GLIBCXX_ASSERTIONS', SAN,
             '-g1 -fsanitize=address'),
    'plain': ('g++', '-O1 -g1 -fno-omit-frame-pointer', '-rdynamic', ''),
    'cov': ('g++', '-O0 -g1 --coverage', '--coverage', ''),
}
COMMON = '-w -DHAVE_CONFIG_H'
READER = '-DVERIF_READER=\'"%s"\'' % os.path.join(VERIF, 'harness', 'reader.py')


def makefile_vars(path):
    text = open(path).read().replace('\\\n', ' ')
    out = {}
    for line in text.splitlines():
        m = re.match(r'\s*(\w+)\s*(\+?=)\s*(.*)', line)
        if m:
            vals = m.group(3).split('#')[0].split()
            out[m.group(1)] = (out.get(m.group(1), []) if m.group(2) == '+=' else []) + vals
    return out


def sources():
    v = makefile_vars(os.path.join(REPO, 'src', 'Makefile.inc'))
    cxx = []
    for name in ('basic_SOURCES', 'fftw_SOURCES', 'arpack_cpp_SOURCES', 'rand64_SOURCES'):
        for s in v.get(name, []):
            if s.endswith('.cc') and s not in cxx:
                cxx.append(s)
    f77 = [s for s in v.get('arpack_SOURCES', [])
           if s.endswith('.f') and not re.match(r'arpack-ng/[sc](?!econd)', s)]
    return cxx, f77


def obj_name(src):
    return 'lib/' + re.sub(r'[^A-Za-z0-9_.-]', '__', src) + '.o'


def write_ninja(flavor, harnesses):
    cxx, cflags, ldflags, fflags = FLAVORS[flavor]
    d = os.path.join(OUT, flavor)
    os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
    cc, f77 = sources()
    esc = lambda s: s.replace(' ', '$ ').replace(':', '$:')
    L = ['cxxflags = %s %s -I%s/cfg -I%s -I%s/include -I%s/src -I%s/harness' %
         (COMMON + ' ' + READER, cflags, VERIF, REPO, REPO, REPO, VERIF),
         'rule cxx', '  command = %s $cxxflags $extra -MMD -MF $out.d -c $in -o $out' % cxx,
         '  depfile = $out.d', '  deps = gcc',
         'rule f77', '  command = gfortran -O2 -fallow-argument-mismatch -w %s -c $in -o $out' % fflags,
         'rule ar', '  command = rm -f $out && ar crs $out $in',
         'rule link',
         '  command = %s %s $in -o $out -lgfortran -lopenblas -lfftw3 -lpthread -ldl' % (cxx, ldflags)]
    objs = []
    for s in cc:
        o = obj_name(s)
        objs.append(o)
        L.append('build %s: cxx %s' % (o, esc(os.path.join(REPO, 'src', s))))
    for s in f77:
        o = obj_name(s)
        objs.append(o)
        L.append('build %s: f77 %s' % (o, esc(os.path.join(REPO, 'src', s))))
    L.append('build libtensor.a: ar ' + ' '.join(objs))
    L.append('build lib: phony libtensor.a')
    extra = ''
    if flavor == 'asan':
        L.append('build guard.o: cxx %s' % esc(os.path.join(VERIF, 'harness', 'guard', 'guard.cc')))
        extra = ' guard.o'
    for h in harnesses:
        L.append('build h_%s.o: cxx %s' % (h, esc(os.path.join(VERIF, 'harness', h + '.cc'))))
        L.append('build %s: link h_%s.o%s libtensor.a' % (h, h, extra))
    text = '\n'.join(L) + '\n'
    p = os.path.join(d, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return d


def drop_stale(d):
    """ninja goes by time stamps; a copied tree may carry old ones, so objects of
    sources whose contents changed since the last build are removed first."""
    now = {}
    for base, ext in ((os.path.join(REPO, 'src'), ('.cc', '.f', '.h', '.hpp', '.c', '.cpp')),
                      (os.path.join(REPO, 'include'), ('.h', '.hpp')),
                      (os.path.join(VERIF, 'cfg'), ('.h',))):
        for root, dirs, files in os.walk(base):
            for f in files:
                if f.endswith(ext):
                    p = os.path.join(root, f)
                    now[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    rec = os.path.join(d, 'hashes.json')
    try:
        old = json.load(open(rec))
    except (OSError, ValueError):
        old = {}
    changed = [p for p in set(now) | set(old) if now.get(p) != old.get(p)]
    if old and changed:
        heads = any(not p.endswith(('.cc', '.f')) or os.sep + 'src' + os.sep not in p for p in changed)
        names = {'lib/' + re.sub(r'[^A-Za-z0-9_.-]', '__', os.path.relpath(p, os.path.join(REPO, 'src'))) + '.o' for p in changed}
        for root, dirs, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                if f.endswith('.o') and (heads or os.path.relpath(p, d) in names):
                    os.unlink(p)
    return rec, now


def build(flavor, harnesses, lib=True, quiet=True):
    all_h = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'harness')) if f.endswith('.cc'))
    d = write_ninja(flavor, all_h)
    targets = list(harnesses) or ['lib']
    rec, now = drop_stale(d)
    json.dump(now, open(rec, 'w'))
    r = subprocess.run(['ninja', '-C', d, '-j', str(os.cpu_count() or 8)] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        lines = [l[:400] for l in r.stdout.split('\n')]
        bad = [l for l in lines if re.search(r'error:|FAILED|undefined reference|multiple definition', l)]
        sys.stderr.write('\n'.join(bad[:30] or lines[-20:]) + '\n')
        raise SystemExit('build of %s failed' % flavor)
    if not quiet:
        print(r.stdout[-300:])
    return d


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:], quiet=False))
