#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not used by any check).
Usage: mutate.py WORKER COUNT SEED [FILE...]: mutates a scratch copy of /repo, builds the checks and runs them; prints the mutants nothing noticed."""
import os, random, re, shutil, subprocess, sys, time
w, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
S = f'/tmp/mut{w}'
R, B = S + '/repo', S + '/build'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(seed)
files = sys.argv[4:] or '''id3/id3v1tag.cpp id3/id3v2tag.cpp id3/id3v2frame.cpp id3/id3v2frameids.cpp vorbis/vorbiscomment.cpp vorbis/vorbiscommentfield.cpp
 flac/flacstream.cpp flac/flacmetadata.cpp ogg/oggcontainer.cpp ogg/oggstream.cpp ogg/oggpage.cpp ogg/oggiterator.cpp mp4/mp4tag.cpp mp4/mp4tagfield.cpp mp4/mp4container.cpp
 mp4/mp4track.cpp mp4/mp4atom.cpp matroska/matroskacontainer.cpp matroska/ebmlelement.cpp matroska/matroskatag.cpp matroska/matroskatagfield.cpp matroska/matroskatrack.cpp
 matroska/matroskacues.cpp matroska/matroskaseekinfo.cpp matroska/matroskaattachment.cpp matroska/matroskachapter.cpp matroska/matroskaeditionentry.cpp mediafileinfo.cpp
 tagvalue.cpp tag.cpp tagtarget.cpp backuphelper.cpp basicfileinfo.cpp signature.cpp abstractcontainer.cpp abstracttrack.cpp abstractattachment.cpp abstractchapter.cpp
 localehelper.cpp mpegaudio/mpegaudioframe.cpp mpegaudio/mpegaudioframestream.cpp wav/waveaudiostream.cpp ivf/ivfstream.cpp ivf/ivfframe.cpp adts/adtsstream.cpp adts/adtsframe.cpp opus/opusidentificationheader.cpp
 vorbis/vorbisidentificationheader.cpp avc/avcconfiguration.cpp avc/avcinfo.cpp genericfileelement.h genericcontainer.h fieldbasedtag.h generictagfield.h'''.split()
order = {'id3': 'C02 C01 C17 C19 C18 C08 C07 C12 C21', 'vorbis': 'C03 C18 C20 C08 C07 C17', 'flac': 'C03 C06 C07 C08 C09 C20 C12', 'ogg': 'C03 C06 C07 C08 C20 C12',
         'mp4': 'C04 C06 C07 C08 C09 C20 C12 C18 C23', 'matroska': 'C05 C06 C07 C08 C09 C20 C12 C18 C23', 'mpegaudio': 'C20 C21 C06', 'wav': 'C20 C21 C06', 'ivf': 'C20 C21', 'adts': 'C20 C21',
         'opus': 'C20', 'avc': 'C20', '.': 'C19 C21 C15 C16 C17 C18 C22 C20 C06 C09 C12'}
every = ['C%02d' % i for i in range(1, 24)]
if not os.path.isdir(R):
    os.makedirs(S, exist_ok=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.copytree('/repo', R, symlinks=True, ignore=shutil.ignore_patterns('.git', 'testfiles'))
def mutants(path):
    out = []
    lines = open(path).read().split('\n')
    depth_comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): depth_comment = True
        if depth_comment:
            if '*/' in s: depth_comment = False
            continue
        if not l.startswith('    ') or s.startswith('//') or 'diag.emplace' in l or 'progress' in l or 'UNUSED' in l or 'context' in l or 'Critical' in l or 'static_assert' in l or s.startswith('case ') or '"' in l and 'static' in l:
            continue
        code = l.split('//')[0]
        def add(new, kind):
            if new != l: out.append((n, new, kind))
        if re.search(r';\s*$', code) and not re.match(r'\s*(return|const auto|auto|throw|using|for|std::\w+ \w+|if|while|else|case|default|goto|static|const|\w+ \w+;|break|continue)', code) and re.search(r'=|\(|\+\+|--', code) and not code.strip().startswith(('}', '.', ':', '"', '&&', '||', '%')):
            prev = lines[n - 1].rstrip()
            if prev.endswith((';', '{', '}', ':')) or prev.strip().startswith('//') or not prev.strip():
                add(re.match(r'\s*', l).group(0) + ';', 'delete')
        if s == 'break;' and 'case' in ' '.join(lines[n + 1:n + 2]): add(l.replace('break;', ';'), 'fallthrough')
        for m in re.finditer(r'(?<=[\w\)\]] )(<=|>=|==|!=|<|>|&&|\|\||\+|-)(?= [\w\(!])', code):
            o = m.group(1)
            for r in {'<': ['<='], '>': ['>='], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+']}[o]:
                add(l[:m.start()] + r + l[m.end():], o + '→' + r)
        for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?=u?[\s;,\)\]])', code):
            v = int(m.group(1), 0)
            add(l[:m.start()] + str(v + 1) + l[m.end(1):], f'{v}→{v + 1}')
        m = re.match(r'(\s*(?:\} else )?if )\((.*)\) \{$', code.rstrip())
        if m and '=' not in m.group(2).replace('==', '').replace('!=', '').replace('<=', '').replace('>=', ''):
            add(f'{m.group(1)}(!({m.group(2)})) {{', 'negate')
            add(f'{m.group(1)}(({m.group(2)}) && false) {{', 'never')
    return out
env = dict(os.environ, VT_REPO=R, VT_BUILD=B, LC_ALL='C.UTF-8', TZ='UTC', PBT_SHRINK='0', VERIF_SEED='1', VERIF_TIER='quick')
for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
    env[k] = re.search(rf'export {k}=(\S+)', open(V + '/check.sh').read()).group(1)
def build(ids):
    return subprocess.run(['python3', V + '/build.py', *ids], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
assert build(every).returncode == 0
pool = []
for f in files:
    c = mutants(f'{R}/{f}')
    rnd.shuffle(c)
    pool += [(f, *m) for m in c[:max(8, len(c) // 3)]]
rnd.shuffle(pool)
survivors = killed = broken = 0
for f, n, new, kind in pool:
    if killed + survivors >= count: break
    path = f'{R}/{f}'
    original = open(path).read()
    lines = original.split('\n')
    old = lines[n]
    lines[n] = new
    open(path, 'w').write('\n'.join(lines))
    first = order[os.path.dirname(f) or '.'].split()
    sequence = first + [i for i in every if i not in first]
    killer = ''
    t = time.time()
    for group in ([sequence[:3], sequence[3:9], sequence[9:]]):
        if build(group).returncode:
            killer = 'build'
            break
        for i in group:
            try:
                r = subprocess.run([f'{B}/check_{i}', '--scale', '0.6', '--workers', '4'], env=env, cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = 1
            if code:
                killer = i
                break
        if killer: break
    open(path, 'w').write(original)
    if killer == 'build': broken += 1; continue
    if killer: killed += 1
    else: survivors += 1
    print(f'{"SURVIVED" if not killer else "killed by " + killer} {f}:{n + 1} [{kind}] {time.time() - t:.0f}s\n    - {old.strip()}\n    + {new.strip()}', flush=True)
build([])
print(f'{killed} killed, {survivors} survived, {broken} did not build')
