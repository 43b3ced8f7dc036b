#!/usr/bin/env python3
"""Builds harness binaries against the current tree of /repo (ASan + UBSan) into /verif/build. Usage: build.py [ID...]"""
import os, subprocess, sys, glob, fcntl, hashlib, json
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VT_REPO', '/repo')
B = os.environ.get('VT_BUILD', os.path.join(V, 'build'))
CXX = 'clang++'
COMMON = '-std=c++17 -O1 -g1 -fno-omit-frame-pointer -pthread'
SAN = f'-fsanitize=address,undefined -fno-sanitize=shift-base -fsanitize-ignorelist={V}/harness/ubsan_ignore.txt -fno-sanitize-recover=undefined'
DEFS = '-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC'
EXTRA = os.environ.get('VT_CXXFLAGS', '')

def forget_stale(libsrc, common, checks):
    # do not rely on modification times: objects whose source (or any header) has different content are removed
    def digest(p):
        with open(p, 'rb') as f:
            return hashlib.sha1(f.read()).hexdigest()
    headers = hashlib.sha1()
    for p in sorted(glob.glob(R + '/**/*.h', recursive=True) + glob.glob(V + '/harness/**/*.h', recursive=True)):
        if '/_build/' not in p:
            headers.update(p.encode() + digest(p).encode())
    now = {'headers': headers.hexdigest(), 'files': {p: digest(p) for p in libsrc + common + checks}}
    record = os.path.join(B, 'sources.json')
    try:
        with open(record) as f:
            before = json.load(f)
    except (OSError, ValueError):
        before = {'headers': '', 'files': {}}
    def obj(p):
        if p in common: return f'{B}/obj/harness/{os.path.basename(p)}.o'
        if p in checks: return f'{B}/obj/checks/{os.path.splitext(os.path.basename(p))[0]}.o'
        return f'{B}/obj/lib/{os.path.relpath(p, R)}.o'
    for p in now['files']:
        # a changed header is left to ninja's dependency tracking unless the clock went backwards
        if before['files'].get(p) != now['files'][p]:
            try: os.unlink(obj(p))
            except FileNotFoundError: pass
    if before['headers'] != now['headers']:
        built = os.path.getmtime(record) if os.path.exists(record) else 0
        if any(os.path.getmtime(p) < built for p in changed_headers(before.get('hfiles', {}), digest)):
            for p in now['files']:
                try: os.unlink(obj(p))
                except FileNotFoundError: pass
    now['hfiles'] = {p: digest(p) for p in all_headers()}
    with open(record, 'w') as f:
        json.dump(now, f)

def all_headers():
    return [p for p in glob.glob(R + '/**/*.h', recursive=True) + glob.glob(V + '/harness/**/*.h', recursive=True) if '/_build/' not in p]

def changed_headers(before, digest):
    return [p for p in all_headers() if before.get(p) != digest(p)]

def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = os.path.join(B, 'inc')
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, 'tagparser')
    if os.path.islink(link):
        if os.readlink(link) != R:
            os.unlink(link)
    if not os.path.islink(link):
        os.symlink(R, link)
    libsrc = sorted(s for s in glob.glob(R + '/*.cpp') + glob.glob(R + '/*/*.cpp')
                    if os.path.relpath(s, R).split('/')[0] not in ('tests', 'doc', '_build', 'cmake', 'scripts', 'testfiles'))
    common = sorted(glob.glob(V + '/harness/*.cpp'))
    checks = sorted(glob.glob(V + '/harness/checks/*.cpp'))
    forget_stale(libsrc, common, checks)
    n = ['ninja_required_version = 1.5', f'builddir = {B}',
         f'cflags = {COMMON} {SAN} {DEFS} {EXTRA} -I{V}/harness/gen -I{inc} -isystem /usr/include/martchus-c++utilities',
         'rule cxx', f'  command = {CXX} $cflags $extra -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc', '  description = CXX $in',
         'rule ar', '  command = rm -f $out && llvm-ar-18 rcs $out $in || (rm -f $out && ar rcs $out $in)', '  description = AR $out',
         'rule link', f'  command = {CXX} {COMMON} {SAN} {EXTRA} -rdynamic $in -o $out $libs', '  description = LINK $out']
    # order: big harness files first so that they do not end up as stragglers
    objs = []
    for s in common:
        o = f'{B}/obj/harness/{os.path.basename(s)}.o'
        n.append(f'build {o}: cxx {s}\n  extra = -Wall -Wextra -I{V}/harness')
        objs.append(o)
    lib = []
    for s in libsrc:
        o = f'{B}/obj/lib/{os.path.relpath(s, R)}.o'
        n.append(f'build {o}: cxx {s}\n  extra = -w -I{R}')
        lib.append(o)
    n.append(f'build {B}/libtp.a: ar ' + ' '.join(lib))
    n.append(f'build {B}/libharness.a: ar ' + ' '.join(objs))
    targets = []
    for s in checks:
        i = os.path.splitext(os.path.basename(s))[0]
        o = f'{B}/obj/checks/{i}.o'
        n.append(f'build {o}: cxx {s}\n  extra = -Wall -Wextra -I{V}/harness')
        n.append(f'build {B}/check_{i}: link {o} {B}/libharness.a {B}/libtp.a\n  libs = -lmartchus-c++utilities -lz -lrt')
        if not ids or i in ids:
            targets.append(f'{B}/check_{i}')
    text = '\n'.join(n) + '\n'
    f = os.path.join(B, 'build.ninja')
    if not os.path.exists(f) or open(f).read() != text:
        open(f, 'w').write(text)
    r = subprocess.run(['ninja', '-f', f, '-j8'] + (['--quiet'] if '-v' not in sys.argv else []) + targets, stdout=sys.stderr)
    sys.exit(r.returncode)

main()
