"""C++ type strings (as clang prints them) to engine types."""
import re

I = lambda b, s: ('int', b, s)
SIZE = I(64, False)
INT = I(32, True)
BOOL = ('bool',)
F32 = ('float', 32)
F64 = ('float', 64)
CHAR = I(8, True)
STR = ('str',)
VOID = ('void',)

# a file stream: position, size, state and what is stored at each position (per width written; s: character blocks)
STREAM = ('rec', 'stream', (('pos', I(64, True)), ('size', I(64, True)), ('ok', BOOL), ('open', BOOL), ('b1', ('vec', I(8, False))), ('b4', ('vec', I(32, False))), ('b8', ('vec', SIZE)), ('bs', ('vec', STR))))

_BASE = {
    'bool': BOOL, 'char': CHAR, 'signed char': I(8, True), 'unsigned char': I(8, False),
    'short': I(16, True), 'unsigned short': I(16, False), 'int': INT, 'unsigned int': I(32, False), 'unsigned': I(32, False),
    'long': I(64, True), 'unsigned long': SIZE, 'long long': I(64, True), 'unsigned long long': SIZE,
    'float': F32, 'double': F64, 'long double': F64, 'void': VOID,
    'size_t': SIZE, 'uint8_t': I(8, False), 'uint16_t': I(16, False), 'uint32_t': I(32, False), 'uint64_t': SIZE,
    'int8_t': I(8, True), 'int16_t': I(16, True), 'int32_t': INT, 'int64_t': I(64, True),
    'ptrdiff_t': I(64, True), 'streamsize': I(64, True), 'streamoff': I(64, True), 'size_type': SIZE, 'difference_type': I(64, True),
    'string': STR, 'u16string': ('str', 16), 'char16_t': I(16, False), 'wchar_t': I(32, True), 'nullptr_t': ('null',),
    'quarter': I(8, False), 'half': I(16, False), 'string_view': STR,
    'ofstream': STREAM, 'ifstream': STREAM, 'fstream': STREAM, 'streampos': I(64, True),
}


class _P:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ':
            self.i += 1

    def parse(self):
        """returns a node: (name, args or None, suffixes)"""
        self.ws()
        words = []
        args = None
        while True:
            self.ws()
            m = re.compile(r'[A-Za-z_0-9:]+|\(lambda at[^)]*\)|\(anonymous[^)]*\)').match(self.s, self.i)
            if not m:
                break
            w = m.group(0)
            self.i = m.end()
            if w in ('const', 'volatile', 'struct', 'class', 'enum', 'typename', 'constexpr'):
                continue
            if args is not None and w.startswith('::'):
                # Foo<..>::bar
                words = [words[-1] + '<>' + w]
                continue
            words.append(w)
            if self.i < len(self.s) and self.s[self.i] == '<':
                self.i += 1
                args = []
                self.ws()
                if self.s[self.i] == '>':
                    self.i += 1
                else:
                    while True:
                        args.append(self.parse())
                        self.ws()
                        c = self.s[self.i]
                        self.i += 1
                        if c == '>':
                            break
        name = ' '.join(words)
        node = ['n', name, args]
        # suffixes
        while True:
            self.ws()
            if self.i >= len(self.s):
                break
            c = self.s[self.i]
            if c == '*':
                node = ['*', node]
                self.i += 1
            elif c == '&':
                while self.i < len(self.s) and self.s[self.i] == '&':
                    self.i += 1
                node = ['&', node]
            elif c == '[':
                j = self.s.index(']', self.i)
                node = ['[]', node, self.s[self.i + 1:j]]
                self.i = j + 1
            elif c == '(':
                # function type or function pointer: keep raw to matching paren
                depth = 0
                j = self.i
                while j < len(self.s):
                    if self.s[j] == '(':
                        depth += 1
                    elif self.s[j] == ')':
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                node = ['fn', node, self.s[self.i:j + 1]]
                self.i = j + 1
            elif self.s.startswith('const', self.i):
                self.i += 5
            elif self.s.startswith('noexcept', self.i):
                self.i += 8
            elif self.s.startswith('restrict', self.i):
                self.i += 8
            else:
                break
        return node


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def parse(self, s):
        r = self.cache.get(s)
        if r is None:
            try:
                node = _P(s).parse()
                r = self.conv(node)
            except (IndexError, ValueError):
                r = ('opaque', s)
            self.cache[s] = r
        return r

    def of(self, node):
        t = node.get('type', {})
        s = t.get('desugaredQualType') or t.get('qualType') or 'void'
        r = self.parse(s)
        if r[0] == 'opaque' and t.get('qualType'):
            r2 = self.parse(t['qualType'])
            if r2[0] != 'opaque':
                return r2
        return r

    def is_ref(self, node):
        t = node.get('type', {})
        s = (t.get('qualType') or '')
        return s.rstrip().endswith('&') or (t.get('desugaredQualType') or '').rstrip().endswith('&')

    def conv(self, n):
        if n[0] == '&':
            return self.conv(n[1])
        if n[0] == '*':
            return ('ptr', self.conv(n[1]))
        if n[0] == '[]':
            return ('arr', self.conv(n[1]), int(n[2]) if n[2].isdigit() else None)
        if n[0] == 'fn':
            if n[1][0] == 'n' and n[1][1] == '':
                return ('opaque', 'fn')
            return ('fn', self.conv(n[1]), n[2])
        _, name, args = n
        full = name
        name = name.replace('std::', '').replace('happyml::', '').replace('__cxx11::', '').replace('__gnu_cxx::', '')
        while name.startswith('::'):
            name = name[2:]
        if args is None:
            if name in _BASE:
                return _BASE[name]
            if name.isdigit():
                return ('const', int(name))
            short = name.split('::')[-1]
            if short in self.prog.cinfo:
                return ('cls', short)
            if short in self.prog.enums:
                return I(32, True)
            if short in self.prog.typedefs and self.prog.typedefs[short]:
                td = self.prog.typedefs[short]
                if td.split('::')[-1] != short:
                    return self.parse(td)
            if short in _BASE:
                return _BASE[short]
            if short in ('true_type', 'false_type'):
                return BOOL
            return ('opaque', name)
        if '<>' in name:
            base, _, mem = name.partition('<>')
            mem = mem.lstrip(':')
            if mem == 'size_type':
                return SIZE
            if mem == 'difference_type':
                return I(64, True)
            if args and mem in ('iterator', 'const_iterator', 'reverse_iterator'):
                a = [self.conv(x) for x in args]
                return ('iter', (base,) + tuple(a))
            return ('opaque', full)
        a = [self.conv(x) for x in args]
        if name == 'vector':
            return ('vec', a[0])
        if name in ('basic_string', 'basic_string_view'):
            if a and a[0] == I(16, False):
                return ('str', 16)
            return STR
        if name in ('shared_ptr', 'unique_ptr', '__shared_ptr', 'weak_ptr'):
            return ('ptr', a[0])
        if name == 'pair':
            return ('pair', a[0], a[1])
        if name == 'tuple':
            return ('tuple',) + tuple(a)
        if name in ('map', 'unordered_map'):
            return ('map', a[0], a[1], name)
        if name in ('set', 'unordered_set', 'multiset'):
            return ('set', a[0], name)
        if name in ('list', 'deque', 'queue'):
            return ('vec', a[0]) if name == 'deque' else ('list', a[0])
        if name in ('basic_ofstream', 'basic_ifstream', 'basic_fstream'):
            return STREAM
        if name == 'fpos':
            return I(64, True)
        if name == 'function':
            return ('fn', a[0] if a else VOID, '')
        if name == 'initializer_list':
            return ('vec', a[0])
        if name == 'optional':
            return ('opt', a[0])
        if name == 'array':
            return ('arr', a[0], a[1][1])
        if name == '__normal_iterator':
            return ('iter', a[0])
        if name.startswith('numeric_limits'):
            return ('opaque', 'numeric_limits')
        if name in self.prog.cinfo:
            return ('cls', name)
        return ('opaque', name)
