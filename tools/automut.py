#!/usr/bin/env python3
"""Development aid: mutate one source file token by token and list the mutants no check reports.
   automut.py <config> <count> <seed> [workers]: prints survivors (not equivalent at -O1, not reported)."""
import hashlib
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CONF = {
    'dag': ('lcc/src/dag.c', ['C37'], None),
    'enode': ('lcc/src/enode.c', ['C36', 'C32'], None),
    'expr': ('lcc/src/expr.c', ['C36', 'C32'], None),
    'simp': ('lcc/src/simp.c', ['C32'], None),
    'bytecode': ('lcc/src/bytecode.c', ['C30'], None),
    'gen': ('lcc/src/gen.c', ['C30'], None),
    'asm': ('q3asm/q3asm.c', ['C19', 'C20', 'C21', 'C22', 'C23', 'C25', 'C26', 'C28', 'C29'], None),
    'vm': ('src/vm/vm.c', ['C%02d' % i for i in range(1, 18)], None),
    'stmt': ('lcc/src/stmt.c', ['C38'], None),
    'flow': ('lcc/src/stmt.c', ['C39'], None),
    'decl': ('lcc/src/decl.c', ['C38'], None),
    'init': ('lcc/src/init.c', ['C38'], None),
}
SWAP = {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>', '<='], '==': ['!='], '!=': ['=='],
        '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '++': ['--'], '--': ['++'], '*': ['/'], '/': ['*'],
        '&': ['|'], '|': ['&'], '<<': ['>>'], '>>': ['<<'], '+=': ['-='], '-=': ['+='], '|=': ['&='], '&=': ['|=']}
TOK = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|^[ \t]*#[^\n]*(?:\\\n[^\n]*)*|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+[uUlL]*|\d+\.?\d*[uUlLf]*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\S', re.S | re.M)


def mutants(t):
    toks = [(m.start(), m.group()) for m in TOK.finditer(t)]
    code = [(p, x) for p, x in toks if not x.lstrip().startswith(('/*', '//', '#'))]
    depth = 0
    out = []
    for i, (p, x) in enumerate(code):
        if x == '{':
            depth += 1
        if x == '}':
            depth -= 1
        if not depth:
            continue
        prev = code[i - 1][1]
        binary = re.match(r'[\w)\]]', prev) and prev not in ('return', 'case')
        if x in SWAP and (binary or x in ('++', '--')):
            for y in SWAP[x]:
                out.append((p, len(x), y))
        elif re.match(r'\d+$', x):
            n = int(x)
            out.append((p, len(x), str(n + 1)))
            if n:
                out.append((p, len(x), str(n - 1)))
        elif x == 'if' and code[i + 1][1] == '(':
            d, j = 0, i + 1
            while True:
                d += {'(': 1, ')': -1}.get(code[j][1], 0)
                if d == 0:
                    break
                j += 1
            a, b = code[i + 1][0], code[j][0] + 1
            out.append((a, b - a, '(!%s)' % t[a:b]))
            out.append((a, b - a, '(1)'))
            out.append((a, b - a, '(0)'))
        elif x == '!' and not binary:
            out.append((p, 1, ''))
        elif x == ';' and prev not in (';', '{', '}') or x == 'break':
            # delete the statement in front
            if x == 'break':
                out.append((p, 5, ''))
                continue
            j = i - 1
            d = 0
            while j >= 0 and not (d == 0 and code[j][1] in (';', '{', '}', ':')):
                d += {')': 1, ']': 1, '(': -1, '[': -1}.get(code[j][1], 0)
                if d < 0:
                    break
                j -= 1
            if d < 0 or j < 0:
                continue
            first = code[j + 1][1]
            a = code[j + 1][0]
            if first in ('if', 'for', 'while', 'else', 'do', 'switch', 'static', 'int', 'return', 'break', 'assert', 'case') \
                    or first[0].isupper() and re.match(r'[A-Za-z_]', code[j + 2][1]):
                # the last simple statement of an if
                k = i - 1
                d = 0
                while k > j:
                    d += {')': 1, ']': 1, '(': -1, '[': -1}.get(code[k][1], 0)
                    if d == 0 and (code[k][1] == 'else' or code[k][1] == ')' and k < i - 1 and re.match(r'[A-Za-z_(*+-]', code[k + 1][1])):
                        break
                    k -= 1
                continue
            out.append((a, p - a, ''))
    # swap of identifiers that are arguments: f(a, b) -> f(b, a)
    for m in re.finditer(r'\(([\w>.\[\]-]+), ([\w>.\[\]-]+)\)', t):
        if m.group(1) != m.group(2):
            out.append((m.start(), m.end() - m.start(), '(%s, %s)' % (m.group(2), m.group(1))))
    for m in re.finditer(r'kids\[([01])\]', t):
        out.append((m.start(1), 1, '1' if m.group(1) == '0' else '0'))
    return out


def flags(file):
    r = {'lcc': ['-I/repo/lcc/src', '-Wno-everything'], 'q3a': ['-I/repo/q3asm', '-w'], 'src': ['-I/repo/src/vm', '-w']}[file[:3]]
    return r


def irhash(path, file):
    r = subprocess.run(['clang', '-O1', '-S', '-emit-llvm', '-o', '-'] + flags(file) + ['-I' + os.path.dirname('/repo/' + file), path], capture_output=True, text=True)
    if r.returncode:
        return None
    return hashlib.md5(re.sub(r'source_filename.*|; ModuleID.*', '', r.stdout).encode()).hexdigest()


def main():
    name, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    file, checks, _ = CONF[name]
    t = open('/repo/' + file, encoding='latin-1').read()
    ms = mutants(t)
    random.Random(seed).shuffle(ms)
    base = irhash('/repo/' + file, file)

    def one(m):
        p, n, new = m
        d = tempfile.mkdtemp(prefix='am_')
        try:
            u = t[:p] + new + t[p + n:]
            f = os.path.join(d, os.path.basename(file))
            open(f, 'w', encoding='latin-1').write(u)
            h = irhash(f, file)
            if h is None or h == base:
                return None
            os.unlink(f)
            for s in ('src', 'q3asm', 'lcc', 'example', 'test'):
                shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('*.o'))
            open(d + '/' + file, 'w', encoding='latin-1').write(u)
            hit = []
            for c in checks:
                try:
                    r = subprocess.run([sys.executable, os.path.dirname(HERE) + '/check.py', c], capture_output=True, text=True,
                                       env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev'), timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'T'
                if rc:
                    hit.append('%s:%s' % (c, rc))
                    if rc == 1:
                        break
            return hit
        finally:
            shutil.rmtree(d, ignore_errors=True)
    done = caught = 0
    with ThreadPoolExecutor(workers) as ex:
        it = iter(ms)
        todo = ms[:count * 2]
        for m, hit in zip(todo, ex.map(one, todo)):
            if hit is None:
                continue
            done += 1
            if any(h.endswith(':1') for h in hit):
                caught += 1
                continue
            p, n, new = m
            ln = t.count('\n', 0, p) + 1
            a = t.rfind('\n', 0, p) + 1
            e = t.find('\n', p + n)
            print('SURV %s:%d %s\n   - %s\n   + %s' % (file, ln, hit, t[a:e].strip(), (t[a:p] + '⟦' + new + '⟧' + t[p + n:e]).strip()), flush=True)
    print('DONE %s: %d mutants, %d caught' % (name, done, caught))


main()
