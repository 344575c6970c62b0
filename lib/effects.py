"""Which objects a function may write or read, from the IR (context-insensitive, transitive).

Roots: ('g', name) a global object, ('type', tag) a member of a struct reached through a
pointer of unknown origin, ('heap',) anything else reached through a loaded pointer,
('arg', k) the object an argument points to.  Locals are left out."""
from llir import Const, GlobalRef, Instr, Arg

READONLY = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'strcasecmp', 'memcmp',
            'atoi', 'atol', 'atoll', 'atof', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod',
            'isalpha', 'isdigit', 'isspace', 'isalnum', 'isprint', 'toupper', 'tolower', 'abs',
            'labs', '__ctype_b_loc', '__errno_location', 'strerror', 'getenv', 'malloc', 'calloc',
            'strdup', 'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'vfprintf',
            'vprintf', 'fflush', 'fclose', 'ferror', 'fopen', 'fwrite', 'fseek', 'ftell', 'exit',
            'abort', 'remove', 'unlink', 'free', 'perror', 'rewind', 'getpid', 'signal', 'close',
            'access', 'open', 'creat', 'write', 'dup2', 'dup', 'fileno', 'putc', '_exit',
            'mkdir', 'time', 'feof', 'fork', 'execv', 'isatty', 'strtok_none'}
WRITE0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf',
          'snprintf', 'vsprintf', 'vsnprintf', 'fread', 'fgets', 'gettimeofday', 'qsort', 'stat',
          'fstat', 'getcwd', 'sscanf', 'read', 'wait'}


def libname(name):
    if name.startswith('llvm.'):
        return name.split('.')[1]
    if name.startswith('__isoc99_') or name.startswith('__isoc23_'):
        return name.split('_', 4)[-1]
    return name


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.mods = {}
        self.refs = {}
        self.calls = {}
        self.noreturn = {f.name for f in mod.funcs.values() if f.blocks and not any(
            b.term.op == 'ret' for b in f.blocks)}
        for f in mod.funcs.values():
            if f.blocks:
                self.scan(f)
        self.close()

    def roots(self, v, seen=None):
        seen = set() if seen is None else seen
        if id(v) in seen:
            return set()
        seen.add(id(v))
        if isinstance(v, GlobalRef):
            return {('g', v.name)}
        if isinstance(v, Arg):
            return {('arg', v.index)}
        if isinstance(v, Const):
            if v.kind == 'expr':
                if v.val[0] == 'getelementptr':
                    return self.roots(v.val[1][0], seen)
                return self.roots(v.val[1][0], seen)
            return set()
        if isinstance(v, Instr):
            if v.op == 'getelementptr':
                r = self.roots(v.ops[0], seen)
                if r & {('heap',)} or any(x[0] == 'type' for x in r):
                    t = v.x['sty']
                    if t[0] == 'named':
                        return {x for x in r if x[0] in ('g', 'arg')} | {
                            ('type', t[1].replace('struct.', ''))}
                return r
            if v.op in ('bitcast', 'inttoptr', 'freeze'):
                return self.roots(v.ops[0], seen)
            if v.op in ('add', 'sub', 'and', 'ptrtoint'):
                return set().union(*[self.roots(o, seen) for o in v.ops])
            if v.op == 'phi':
                return set().union(*[self.roots(o, seen) for o in v.ops])
            if v.op == 'select':
                return self.roots(v.ops[1], seen) | self.roots(v.ops[2], seen)
            if v.op == 'alloca':
                return set()
            return {('heap',)}
        return {('heap',)}

    def scan(self, f):
        M, R, C = set(), set(), []
        for i in f.instrs():
            if i.op == 'load':
                R |= self.roots(i.ops[0])
            elif i.op == 'store':
                M |= self.roots(i.ops[1])
            elif i.op == 'call':
                c = i.x['callee']
                if not isinstance(c, GlobalRef):
                    C.append((i, None))
                    M.add(('heap',))
                    continue
                if c.name in self.noreturn:
                    continue
                g = self.mod.funcs.get(c.name)
                if g is not None and g.blocks:
                    C.append((i, c.name))
                    continue
                n = libname(c.name)
                if n in ('dbg', 'lifetime', 'va_start', 'va_end', 'va_copy', 'assume'):
                    continue
                C.append((i, c.name))
                for k, o in enumerate(i.ops):
                    if getattr(o, 'ty', None) != ('ptr',) and not isinstance(o, GlobalRef):
                        continue
                    r = self.roots(o)
                    R |= r
                    if n in READONLY:
                        continue
                    if n in WRITE0 and k > 0:
                        continue
                    M |= r
                if n not in READONLY and n not in WRITE0:
                    M.add(('heap',))
        self.mods[f.name], self.refs[f.name], self.calls[f.name] = M, R, C

    def close(self):
        changed = True
        while changed:
            changed = False
            for f, cs in self.calls.items():
                for i, n in cs:
                    if n not in self.mods:
                        continue
                    for tab in (self.mods, self.refs):
                        new = set()
                        for r in tab[n]:
                            if r[0] == 'arg':
                                if r[1] < len(i.ops):
                                    new |= self.roots(i.ops[r[1]])
                            else:
                                new.add(r)
                        if not new <= tab[f]:
                            tab[f] |= new
                            changed = True

    def transitive_calls(self, f):
        out, todo = set(), [f]
        while todo:
            g = todo.pop()
            for i, n in self.calls.get(g, ()):
                if n not in out:
                    out.add(n)
                    if n in self.calls:
                        todo.append(n)
        return out
