"""Compile /repo sources to LLVM IR (nothing is ever executed) and normalise it."""
import os
import re
import shutil
import subprocess
import tempfile
import atexit
import llir

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='q3vm_sa_')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p


BASEFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fwrapv', '-fno-strict-aliasing',
             '-fno-discard-value-names', '-fno-builtin', '-femit-all-decls', '-w', '-S', '-emit-llvm']


def compile_ir(src, flags=(), tag=''):
    """path (relative to the repo) -> text of unoptimised IR"""
    out = os.path.join(tmpdir(), re.sub(r'\W', '_', src + tag) + '.ll')
    run([CLANG] + BASEFLAGS + list(flags) + [os.path.join(REPO, src), '-o', out])
    with open(out, encoding='latin-1') as f:
        text = f.read()
    return re.sub(r'(?m)^(attributes #\d+ = \{.*)\bnoinline\b', r'\1', text)


def opt(text, passes, args=()):
    i = tempfile.NamedTemporaryFile('w', suffix='.ll', dir=tmpdir(), delete=False,
                                    encoding='latin-1')
    i.write(text)
    i.close()
    o = i.name + '.out'
    run([OPT, '-S', '-passes=' + passes] + list(args) + [i.name, '-o', o])
    with open(o, encoding='latin-1') as f:
        r = f.read()
    os.unlink(i.name)
    os.unlink(o)
    return r


INLINE_UNROLL = ('function(sroa),cgscc(inline),globaldce,'
                 'function(sroa,loop-simplify,lcssa,loop(loop-rotate,loop-unroll-full),'
                 'sroa,instsimplify)')
INLINE = 'function(sroa),cgscc(inline),globaldce,function(sroa,instsimplify)'
SSA = 'function(sroa,instsimplify)'
OPTARGS = ['-inline-threshold=10000000', '-inline-cold-callsite-threshold=10000000',
           '-inlinecold-threshold=10000000', '-unroll-threshold=100000',
           '-unroll-max-count=200', '-unroll-full-max-count=200']


def no_indirect_goto(text):
    """Replace computed gotos by switches: blockaddress constants become distinct integers,
    indirectbr becomes a switch over them.  The meaning is the same (the addresses are
    only ever used as jump targets) and the inliner can then handle the function."""
    ba = {}

    def num(m):
        key = m.group(1), m.group(2)
        if key not in ba:
            ba[key] = 0x1000 + len(ba)
        return 'inttoptr (i64 %d to ptr)' % ba[key]
    if 'indirectbr' not in text:
        return text
    text = re.sub(r'blockaddress\(@([-\w.$]+), (%[-\w.$]+|%"[^"]*")\)', num, text)
    out = []
    fn = None
    n = 0
    for l in text.split('\n'):
        m = re.match(r'^define .*@([-\w.$]+)\(', l)
        if m:
            fn = m.group(1)
        m = re.match(r'^\s+indirectbr ptr (\S+), \[(.*)\](.*)$', l)
        if m:
            n += 1
            labels = re.findall(r'label (%[-\w.$]+|%"[^"]*")', m.group(2))
            dbg = re.search(r'!dbg !\d+', m.group(3))
            d = ', ' + dbg.group(0) if dbg else ''
            out.append('  %%ibr.int%d = ptrtoint ptr %s to i64%s' % (n, m.group(1), d))
            out.append('  switch i64 %%ibr.int%d, label %%ibr.unreachable%d [' % (n, n))
            done = set()
            for lb in labels:
                k = ba.get((fn, lb))
                if k is not None and lb not in done:
                    done.add(lb)
                    out.append('    i64 %d, label %s' % (k, lb))
            out.append('  ]' + d)
            out.append('ibr.unreachable%d:' % n)
            out.append('  unreachable' + d)
            continue
        out.append(l)
    return '\n'.join(out)


def module(src, flags=(), passes=SSA, tag='', indirect=False):
    t = compile_ir(src, flags, tag)
    if indirect:
        t = no_indirect_goto(t)
    if passes:
        t = opt(t, passes, OPTARGS)
    return llir.Module(t, src)


LINK = '/usr/bin/llvm-link-18'


def program(srcs, flags=(), tag='', keep=('main',)):
    """unoptimised IR text of the whole program: the modules linked, everything but the entry
    points internal"""
    files = []
    for s in srcs:
        t = compile_ir(s, flags, tag)
        n = os.path.join(tmpdir(), re.sub(r'\W', '_', s + tag) + '.l.ll')
        with open(n, 'w', encoding='latin-1') as f:
            f.write(t)
        files.append(n)
    out = os.path.join(tmpdir(), 'prog%s.ll' % re.sub(r'\W', '_', srcs[0] + tag))
    run([LINK, '-S'] + files + ['-o', out])
    with open(out, encoding='latin-1') as f:
        text = f.read()
    return opt(text, 'internalize,globaldce', ['-internalize-public-api-list=' + ','.join(keep)])


def noinline(text, names):
    """keep the named functions out of line"""
    def fix(m):
        if m.group(2) not in names:
            return m.group(0)
        return m.group(1) + ' noinline' + m.group(3)
    return re.sub(r'(?m)^(define [^@\n]*@([-\w.$]+)\([^\n]*?\))((?: [a-z_]+)*(?: #\d+)?'
                  r'(?: align \d+)?(?: !dbg !\d+)? \{)$', fix, text)


def macro(header, name):
    """integer value of an object-like macro"""
    src = '#include "%s"\nint macro_value_ = (%s);\n' % (os.path.join(REPO, header), name)
    n = os.path.join(tmpdir(), 'macro.c')
    with open(n, 'w') as f:
        f.write(src)
    out = os.path.join(tmpdir(), 'macro.ll')
    run([CLANG, '-S', '-emit-llvm', '-O0', '-w', n, '-o', out])
    with open(out) as f:
        m = re.search(r'@macro_value_ = [^\n]*global i32 (-?\d+)', f.read())
    if not m:
        raise BuildError('macro %s of %s is not an integer' % (name, header))
    return int(m.group(1))
