"""Front end: compile /repo's current sources (and generated call wrappers) to LLVM IR; nothing is executed."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from .spec import ACLE, spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSA_REPO', '/repo')
# -O1 without any pass: the front end's own IR, with the lifetime markers of local objects
CXXFLAGS = ['', '-O1', '-Xclang', '-disable-llvm-passes', '-U__OPTIMIZE__', '-g', '-fno-discard-value-names', '-ffp-contract=off', '-w', '-fPIC',
            # versions of a function for several processors: one version, that remembers what the others are for
            '-Dtarget_clones(...)=section("nsaclones:" #__VA_ARGS__)', '-D__target_clones__(...)=section("nsaclones:" #__VA_ARGS__)']


class Broken(Exception):
    """the analysis cannot run (does not compile, anchors vanished): an error exit, never a verdict"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tool(n):
    for c in (n + '-18', n, '/usr/lib/llvm-18/bin/' + n):
        p = shutil.which(c)
        if p:
            return p
    raise Broken('no %s' % n)


_target = None


def target():
    """(sources relative to the repository, compile options) of the library target"""
    global _target
    if _target is None:
        cm = re.sub(r'#.*', '', open(os.path.join(REPO, 'CMakeLists.txt')).read())
        srcs = None
        m = re.findall(r'add_library\s*\(\s*neon_sim\b([^)]*)\)', cm)
        plain = not re.search(r'target_sources|add_definitions|add_compile|target_compile|_FLAGS|include\s*\(|add_subdirectory|include_directories\s*\(\s*(?!neon_sim PUBLIC \$\{CMAKE_CURRENT_SOURCE_DIR\}\s*\))', cm)
        if len(m) == 1 and plain:
            srcs = [t.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '').strip('"') for t in m[0].split()]
            srcs = [t for t in srcs if t not in ('STATIC', 'SHARED', 'OBJECT') and not t.endswith(('.h', '.hpp'))]
            if not srcs or any('$' in t or not os.path.isfile(os.path.join(REPO, t)) for t in srcs):
                srcs = None
        if srcs is not None:
            m = re.search(r'CMAKE_CXX_STANDARD\s+(\d+)', cm)
            _target = srcs, ['-std=gnu++%s' % (m.group(1) if m else '17')]
        else:
            _target = _cmake() or (['neon_sim.cpp'], ['-std=gnu++11'])
        for t in _target[0]:
            if not os.path.exists(os.path.join(REPO, t)):
                raise Broken('library source %s not found' % t)
    return _target


def _cmake():
    """ask cmake (configure only, in a scratch directory) for the sources and options of the target"""
    d = tempfile.mkdtemp(prefix='nsa_cmake_')
    try:
        q = os.path.join(d, '.cmake/api/v1/query')
        os.makedirs(q)
        open(os.path.join(q, 'codemodel-v2'), 'w').close()
        r = sh(['cmake', '-S', REPO, '-B', d, '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=',
                '-DNEON_SIM_BUILD_TEST=OFF'], env=dict(os.environ, CC='gcc', CXX='g++'))
        if r.returncode:
            raise Broken('cmake: ' + r.stderr[-1500:])
        a = os.path.join(d, '.cmake/api/v1/reply')
        srcs, opts = [], []
        for f in sorted(os.listdir(a)):
            if not f.startswith('target-'):
                continue
            t = json.load(open(os.path.join(a, f)))
            # what ends up in the library: the target itself and the object libraries it is made of
            if t['name'] != 'neon_sim' and t['type'] not in ('OBJECT_LIBRARY', 'STATIC_LIBRARY'):
                continue
            for g in t.get('compileGroups', []):
                for k in g['sourceIndexes']:
                    p = t['sources'][k]['path']
                    p = os.path.relpath(os.path.join(REPO, p), REPO)
                    if p not in srcs and p.endswith(('.cpp', '.cc', '.cxx', '.c', '.C')) and os.path.exists(os.path.join(REPO, p)):
                        srcs.append(p)
                if g.get('language') != 'CXX':
                    continue
                o = ['-D' + x['define'] for x in g.get('defines', [])] + ['-I' + x['path'] for x in g.get('includes', [])]
                for x in g.get('compileCommandFragments', []):
                    o += [y for y in x['fragment'].split() if re.match(r'-(std|D|U|f(no-)?(exceptions|rtti|unsigned-char|signed-char|short-enums|wrapv|fast-math|ffinite-math))', y)]
                opts += [x for x in o if x not in opts]
        if not any(o.startswith('-std') for o in opts):
            opts.append('-std=gnu++17')
        return (srcs, opts) if srcs else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sources():
    return target()[0]


class Built:
    pass


# build configurations a user may choose; those whose preprocessed source differs are analysed separately.
# '@gcc': the text as gcc's own preprocessor expands it
CONFIGS = [('default', [])]
TEXT = [
    ('gcc -O2', ['@gcc', '-O2']),
    ('NDEBUG', ['-DNDEBUG']),
    ('gcc NDEBUG', ['@gcc', '-O2', '-DNDEBUG']),
    ('C++11', ['-std=gnu++11']),
    ('C++17', ['-std=gnu++17']),
    ('C++20', ['-std=gnu++20']),
    ('C++23', ['-std=gnu++23']),
    ('strict C++17', ['-std=c++17']),
    ('AVX2 and FMA target', ['-mavx2', '-mfma']),
    ('AVX-512 target', ['-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl', '-mfma', '-mf16c', '-mbmi2', '-mlzcnt', '-mpopcnt']),
    ('clang -O2', ['-D__OPTIMIZE__=1']),
    ('unsigned char', ['-funsigned-char']),
    ('no exceptions', ['-fno-exceptions', '-fno-rtti']),
    ('libstdc++ assertions', ['-D_GLIBCXX_ASSERTIONS']),
    ('fortified', ['-D_FORTIFY_SOURCE=2', '-D__OPTIMIZE__=1']),
    ('address sanitizer', ['@gcc', '-O1', '-fsanitize=address']),
    ('thread sanitizer', ['@gcc', '-O1', '-fsanitize=thread']),
    ('OpenMP', ['@gcc', '-O2', '-fopenmp']),
    ('gcc -O0', ['@gcc', '-O0']),
    ('gcc -Os', ['@gcc', '-Os']),
    ('gcc -O3, AVX2 and FMA target', ['@gcc', '-O3', '-mavx2', '-mfma']),
    ('gcc C++11', ['@gcc', '-O2', '-std=c++11']),
    ('gcc C++17', ['@gcc', '-O2', '-std=gnu++17']),
    ('gcc C++20', ['@gcc', '-O2', '-std=gnu++20']),
    ('gcc C++23', ['@gcc', '-O2', '-std=gnu++23']),
    ('gcc unsigned char', ['@gcc', '-O2', '-funsigned-char']),
]
# analysed even when the text is the same (thorough)
MORE = [
    ('C++14', ['-std=gnu++14']),
    ('C++17', ['-std=gnu++17']),
    ('C++20', ['-std=gnu++20']),
    ('unsigned char', ['-funsigned-char']),
    ('gcc C++17', ['@gcc', '-O2', '-std=gnu++17']),
    ('gcc NDEBUG', ['@gcc', '-O2', '-DNDEBUG']),
    ('-O1 IR', ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin']),
]
SEMANTIC = ('-std=', '-funsigned-char', '-fsigned-char', '-m')


def cross(triple):
    """options that make clang use the installed C and C++ headers for another target"""
    global _cross
    if _cross is None:
        r = sh([tool('clang++'), '-E', '-x', 'c++', '-v', '/dev/null'])
        m = re.search(r'search starts here:\n(.*?)End of search', r.stderr, re.S)
        _cross = [os.path.realpath(x.strip()) for x in m.group(1).split('\n') if x.strip()] if m else []
    inc = []
    for x in [os.path.join(HERE, 'data', 'cross')] + _cross:
        inc += ['-isystem', x]
    return ['--target=' + triple, '-nostdinc', '-nostdinc++'] + inc


_cross = None


def driver(s, flags):
    cxx, cc = tool('clang++'), tool('clang')
    c = s.endswith('.c')
    opt = [x for x in target()[1] if not (c and x.startswith('-std')) and (x.startswith('-std') or not os.path.isabs(s))]
    if any(f.startswith('-std=') for f in flags):
        opt = [x for x in opt if not x.startswith('-std')]
    return [cc if c else cxx] + (['-std=gnu11'] if c else []) + opt + CXXFLAGS[1:] + [f for f in flags if not (c and f.startswith('-std='))] + ['-I', REPO]


def gcc_text(s, flags, keep=True):
    """s as gcc's preprocessor sees it: the repository's own text expanded, the inclusions of other headers left as they are"""
    cc = shutil.which('gcc' if s.endswith('.c') else 'g++')
    if cc is None:
        return None
    c = s.endswith('.c')
    opt = [x for x in target()[1] if not (c and x.startswith('-std')) and (x.startswith('-std') or not os.path.isabs(s))]
    if any(f.startswith('-std=') for f in flags):
        opt = [x for x in opt if not x.startswith('-std')]
    r = sh([cc] + opt + ['-fPIC', '-w'] + [f for f in flags if not (c and f.startswith('-std='))] + ['-I', REPO, '-E', os.path.join(REPO, s)])
    if r.returncode:
        return None
    root = os.path.realpath(REPO) + os.sep
    this = os.path.realpath(s) if os.path.isabs(s) and keep else None
    out, own, depth = [], False, 0
    for l in gnu(r.stdout).split('\n'):
        m = re.match(r'# (\d+) "(.*?)"(.*)', l)
        if m:
            fl = m.group(3).split()
            mine = os.path.realpath(m.group(2)).startswith(root) or os.path.realpath(m.group(2)) == this
            if '1' in fl and not mine:
                if own and keep and not m.group(2).startswith('<'):
                    mm = re.search(r'/lib/gcc/[^/]+/[^/]+/include/(.*)', m.group(2))
                    out.append('#include <%s>' % mm.group(1) if mm else '#include "%s"' % m.group(2))
                own = False
            elif mine:
                own = True
                if keep:
                    out.append('# %s "%s"' % (m.group(1), m.group(2)))
            elif '2' not in fl and m.group(2).startswith('<'):
                own = False
            continue
        if own and (keep or l.strip()):
            out.append(l if keep else l.strip())
    return '\n'.join(out) + '\n'


RELAXED = re.compile(r'(?<!no-)(fast-math|Ofast|fast\b|unsafe-math|finite-math|associative-math|reciprocal-math|no-signed-zeros|fp-contract=fast|fp-contract=on|single-precision-constant|'
                     r'cx-limited)')


def gnu(t):
    """options of single functions that only gcc understands, in a form clang's IR shows: relaxed floating point becomes the section
    nsafast, a target the target attribute of clang"""
    if '#pragma GCC' not in t and 'optimize' not in t and 'assume' not in t:
        return t
    t = assumed(t)
    t = re.sub(r'\b(?:__)?optimize(?:__)?\s*\(((?:\s*"[^"]*"\s*,?)+)\)(?=\s*(?:,|\)\s*\)|\]\s*\]))',
               lambda m: 'section("nsafast")' if RELAXED.search(m.group(1)) else 'used', t)
    t = re.sub(r'(?<=\[)(\s*)gnu\s*::\s*(section\("nsafast"\)|used\b)', r'\1gnu::\2', t)
    out, stack, depth = [], [], 0

    def down(to):
        return ['#pragma clang attribute pop'] * (depth - to)
    for l in t.split('\n'):
        m = re.match(r'\s*#\s*pragma\s+GCC\s+(optimize|target|push_options|pop_options|reset_options)\b(.*)', l)
        if not m:
            out.append(l)
            continue
        k, a = m.groups()
        n = 0
        if k == 'push_options':
            stack.append(depth)
        elif k == 'pop_options':
            to = stack.pop() if stack else 0
            out += down(to)
            depth = to
        elif k == 'reset_options' or k == 'optimize' and 'no-fast-math' in a:
            out += down(0)
            depth = 0
        elif k == 'optimize' and RELAXED.search(a):
            out.append('#pragma clang attribute push (__attribute__((section("nsafast"))), apply_to = function)')
            depth += 1
        elif k == 'target':
            out.append('#pragma clang attribute push (__attribute__((target(%s))), apply_to = function)' % ','.join(re.findall(r'"[^"]*"', a)))
            depth += 1
    return '\n'.join(out + down(0))


def assumed(t):
    """the assumptions only gcc understands, as those clang does"""
    out, at = [], 0
    for m in re.finditer(r'(?:__attribute__\s*\(\(|\[\[)\s*(?:gnu\s*::\s*)?(?:assume|__assume__)\s*\(', t):
        k, d = m.end(), 1
        while k < len(t) and d:
            d += {'(': 1, ')': -1}.get(t[k], 0)
            k += 1
        e = re.compile(r'\s*(?:\)\s*\)|\]\s*\])').match(t, k)
        if e and m.start() >= at:
            out += [t[at:m.start()], '__builtin_assume(', t[m.end():k]]
            at = e.end()
    return ''.join(out) + t[at:]


def own_text(s, flags):
    """the preprocessed text of s that comes from the repository itself"""
    if flags and flags[0] == '@gcc':
        return gcc_text(s, flags[1:], False)
    r = sh([x for x in driver(s, flags) if x != '-g'] + ['-E', os.path.join(REPO, s)])
    if r.returncode:
        return None
    out, on = [], False
    for l in r.stdout.split('\n'):
        if l.startswith('# '):
            m = re.match(r'# \d+ "(.*?)"', l)
            if m:
                on = os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + os.sep)
            continue
        if on and l.strip():
            out.append(l.strip())
    return '\n'.join(out)


def switches():
    """reserved macros the library's conditional directives ask about: [(name, flags)], each flipped"""
    names, own = set(), set()
    for s in sources():
        r = sh([x for x in driver(s, []) if x != '-g'] + ['-E', os.path.join(REPO, s)])
        files = {os.path.realpath(m) for m in re.findall(r'^# \d+ "(.*?)"', r.stdout, re.M)}
        for f in sorted(files):
            if not f.startswith(os.path.realpath(REPO) + os.sep) or not os.path.isfile(f):
                continue
            t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(f, errors='replace').read().replace('\\\n', ' '), flags=re.S)
            own |= set(re.findall(r'^\s*#\s*define\s+(\w+)', t, re.M))
            for d in re.findall(r'^\s*#\s*(?:el)?if(?:n?def)?\b(.*)$', t, re.M):
                names |= set(re.findall(r'(?<![\w"<])_[A-Z_]\w*', re.sub(r'__has_\w+\s*\([^)]*\)', '', d)))
    names = {n for n in names - own if n == '__SIZEOF_INT128__' or not re.search(r'ENDIAN|ORDER|SIZEOF|WIDTH|MAX|_MIN(_|$)|LP64|ILP32|CHAR|cplusplus|STDC|__has_|FAST_MATH|FINITE|SSE|AVX|FMA|F16C|BMI|fp16|float', n)}
    if not names:
        return []
    r = sh([x for x in driver('x.cpp', []) if x != '-g'] + ['-dM', '-E', '-x', 'c++', '/dev/null'])
    pre = set(re.findall(r'^#define (\w+)', r.stdout, re.M))
    return [('-%s %s' % ('U' if n in pre else 'D', n), ['-U' + n] if n in pre else ['-D%s=1' % n]) for n in sorted(names)][:16]


def configs(thorough):
    """[(name, flags)] to analyse; the first is the default"""
    from concurrent.futures import ThreadPoolExecutor
    ss = sources()
    out = [CONFIGS[0]]
    rest = (MORE if thorough else []) + [c for c in TEXT + switches() if not thorough or c not in MORE]
    d = tempfile.mkdtemp(prefix='nsa_')
    try:
        # the header as a caller sees it, in C and in C++
        for x in ('c', 'cpp'):
            ss = ss + [os.path.join(d, 'caller.' + x)]
            with open(ss[-1], 'w') as f:
                f.write('#include "neon_sim.h"\n')
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda c: [re.sub(r'\s+', '', own_text(s, c[1]) or '') for s in ss], [CONFIGS[0]] + rest))
        seen = [texts[0]]
        for c, t in zip(rest, texts[1:]):
            if '' in t:
                continue
            if thorough and c in MORE:
                out.append(c)
                seen.append(t)
            elif t not in seen:
                seen.append(t)
                out.append(c)
        # what a C++ caller gets from the header where it is not what a C caller gets
        with ThreadPoolExecutor(8) as ex:
            diff = list(ex.map(lambda c: unlike(d, c[1]), out))
        out += [(n + ', C++ caller' if n != 'default' else 'C++ caller', ['@cxx'] + sorted(u) + ['@'] + list(f)) for (n, f), u in zip(list(out), diff) if u]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out, len(rest) + 2


def caller(w, o, flags, extra, gcc):
    """compile the call wrappers w to o -> process result"""
    c = w.endswith('.c')
    if gcc:
        t = gcc_text(w, gcc[1:])
        if t is not None:
            w = w.replace('wrap.', 'gcc_wrap.')
            with open(w, 'w') as f:
                f.write(t)
    std = [f for f in flags if f.startswith('-std=')] or [x for x in target()[1] if x.startswith('-std')]
    return sh([tool('clang' if c else 'clang++')] + (['-std=gnu11'] if c else std) + ['-g', '-w', '-fPIC', '-ferror-limit=0', '-fno-discard-value-names'] + extra +
              own(flags) + ['-I', REPO, w, '-o', o])


def own(flags):
    return [f for f in flags if not re.match(r'-std=|-O|-fsan|-fopenmp', f)]


def split(flags):
    """-> (functions of the C++ caller or None, gcc flags or (), clang flags)"""
    flags, cxx = list(flags), None
    if flags and flags[0] == '@cxx':
        k = flags.index('@')
        cxx, flags = flags[1:k], flags[k + 1:]
    gcc = ()
    if flags and flags[0] == '@gcc':
        gcc, flags = flags, [f for f in flags if f.startswith(SEMANTIC)]
    return cxx, gcc, flags


def unlike(d, flags):
    """intrinsics a C++ caller reaches in another way than a C caller does: the wrappers as the C preprocessor expands them and
    as the C++ one does, both compiled as C++, are not the same"""
    d = tempfile.mkdtemp(prefix='c', dir=d)
    _, gcc, flags = split(flags)
    got = []
    w = os.path.join(d, 'wrap.c')
    names, bad = set(wrappers(w, None)), {}
    for turn in (1, 2):
        t = gcc_text(w, gcc[1:]) if gcc else None
        if t is None:
            r = sh([tool('clang'), '-std=gnu11', '-w', '-E', '-P'] + own(flags) + ['-I', REPO, w])
            if r.returncode:
                return names
            t = r.stdout
        with open(os.path.join(d, 'wrap_c.cpp'), 'w') as f:
            f.write('extern "C" {\n' + t + '}\n')
        wrappers(os.path.join(d, 'wrap.cpp'), bad)
        got = [caller(os.path.join(d, x + '.cpp'), os.path.join(d, x + '.ll'), flags, ['-g0', '-O0', '-S', '-emit-llvm'], gcc if x == 'wrap' else ()) for x in ('wrap_c', 'wrap')]
        if not any(r.returncode for r in got):
            break
        bad = unusable(os.path.join(d, 'wrap.cpp'), got[1].stderr)
        if turn == 2 or not bad:
            return names
        wrappers(w, bad)
    sets = []
    for x in ('wrap_c', 'wrap'):
        t = open(os.path.join(d, x + '.ll')).read()
        attr = dict(re.findall(r'^attributes (#\d+) = (.*)$', t, re.M))
        fns = {}
        for m in re.finditer(r'^define .*?^}|^declare [^\n]*$', t, re.M | re.S):
            f = re.sub(r'#\d+', lambda m: attr.get(m.group(), ''), re.sub(r',? !.*| *; .*', '', m.group()))
            fns[re.search(r'@"?([\w.$]+)"?\(', f).group(1)] = f
        sets.append(fns)
    fa, fb = sets

    def closure(fns, n):
        todo, seen = [n], {}
        while todo:
            k = todo.pop()
            if k in fns and k not in seen:
                seen[k] = fns[k]
                todo += re.findall(r'@"?([\w.$]+)"?', fns[k])
        return seen
    return {n for n in names if n in bad or closure(fa, 'nsa_w_' + n) != closure(fb, 'nsa_w_' + n)}


def unusable(w, err):
    """a declaration that is missing or of another type makes its wrapper ill-formed"""
    lines = open(w).read().split('\n')
    out = {}
    for m in re.finditer(r'wrap\.\w+:(\d+):\d+: (?:fatal )?error: (.*)', err):
        mm = re.search(r'nsa_w_(\w+)\(', lines[int(m.group(1)) - 1]) if int(m.group(1)) <= len(lines) else None
        if mm:
            out.setdefault(mm.group(1), m.group(2))
    return out


def build(srcs=None, flags=()):
    d = tempfile.mkdtemp(prefix='nsa_')
    try:
        b = Built()
        b.sources = srcs or sources()
        b.bc = []
        procs = []
        cxx, gcc, flags = split(flags)
        for s in b.sources:
            o = os.path.join(d, s.replace('/', '_') + '.bc')
            f = os.path.join(REPO, s)
            if gcc:
                t = gcc_text(s, gcc[1:])
                if t is None:
                    raise Broken('%s: not preprocessed by gcc %s' % (s, ' '.join(gcc[1:])))
                f = os.path.join(d, 'gcc_' + s.replace('/', '_'))
                with open(f, 'w') as fh:
                    fh.write(t)
            cmd = driver(s, list(flags)) + ['-I', os.path.dirname(os.path.join(REPO, s)), '-c', '-emit-llvm', f, '-o', o]
            procs.append((s, o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        w = os.path.join(d, 'wrap.c' if cxx is None else 'wrap.cpp')
        names = wrappers(w, None)
        b.unusable = {}
        r = caller(w, d + '/wrap.bc', flags, ['-O0', '-c', '-emit-llvm'], gcc)
        if r.returncode:
            b.unusable = unusable(w, r.stderr)
            if not b.unusable:
                raise Broken('the wrappers do not compile: ' + r.stderr[:2000])
            names = wrappers(w, b.unusable)
            r = caller(w, d + '/wrap.bc', flags, ['-O0', '-c', '-emit-llvm'], gcc)
            if r.returncode:
                raise Broken('the wrappers do not compile: ' + r.stderr[:2000])
        b.only = cxx
        if cxx is not None:
            names = [n for n in names if n in cxx]
        b.wrapped = names
        for s, o, cmd, p in procs:
            _, err = p.communicate()
            if p.returncode and 'exception specification' in err:
                # clang reads the attribute nothrow as an exception specification, gcc does not
                for x in (['-Dnothrow=used'], ['-Dnothrow=used', '-D__nothrow__=__used__']):
                    p = sh(cmd + x)
                    if not p.returncode:
                        break
            if p.returncode and "argument of 'assume'" in (p.stderr if isinstance(p.stderr, str) else err):
                # an assumption only gcc understands: analysed in the form gcc sees (see gnu)
                p = sh(cmd + ['-Dassume(x)=', '-D__assume__(x)='])
            if p.returncode:
                raise Broken('%s does not compile: %s' % (s, err[:2000]))
            b.bc.append(o)
        b.bc.append(d + '/wrap.bc')
        from .ir import Module
        b.mods = [Module(x) for x in b.bc]
        b.lib = b.mods[:-1]
        b.defined = {}
        for m in b.lib:
            for f in m.fns.values():
                if not f.decl:
                    b.defined[f.name] = f
        return b
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wrappers(path, skip):
    out = ['#include "neon_sim.h"', '#ifdef __cplusplus', 'extern "C" {', '#endif']
    names = []
    for n in sorted(ACLE):
        s = spec(n)
        if s is None or skip and n in skip:
            continue
        sig = ACLE[n]
        ps, cs = [], []
        for k, (t, ty) in enumerate(zip(sig[1:], s.pty)):
            if ty.kind == 'vec':
                ps.append('const %s *p%d' % (t, k))
                cs.append('*p%d' % k)
            else:
                ps.append('%s p%d' % (t, k))
                cs.append('p%d' % k)
        call = '%s(%s)' % (n, ', '.join(cs))
        if s.rty.kind != 'void':
            ps.insert(0, '%s *r' % sig[0])
            call = '*r = ' + call
        out.append('void nsa_w_%s(%s) { %s; }' % (n, ', '.join(ps), call))
        names.append(n)
    with open(path, 'w') as f:
        f.write('\n'.join(out + ['#ifdef __cplusplus', '}', '#endif']) + '\n')
    return names
