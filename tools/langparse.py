"""Syntax trees of Matlab and Modelica texts (expressions; the program parsers
are in mprog.py / moprog.py).  The rules of precedence are the languages' own;
the meaning of the trees is LangSem.tla."""
import re, struct


class Bad(Exception):
    pass


def halves(x):
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


TOK = {
    'm': re.compile(r"(?P<num>(\d+\.?\d*|\.\d+)([eEdD][-+]?\d+)?)|(?P<id>[A-Za-z]\w*(\.[A-Za-z]\w*)*)|(?P<op>==|~=|<=|>=|\.\*|\./|\.\^|\.\\|&&|\|\||[-+*/\\^<>=()\[\],;:~&|'])"),
    'mo': re.compile(r"(?P<num>\d+(\.\d*)?([eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*(\.[A-Za-z_]\w*)*)|(?P<op>==|<>|<=|>=|\.\*|\./|\.\^|\.\+|\.-|:=|[-+*/^<>=()\[\]{},;:])"),
}


def tokens(text, lang):
    """[(kind, text, space before, space after)]"""
    out, p, sp = [], 0, False
    n = len(text)
    while p < n:
        ch = text[p]
        if ch in ' \t\r':
            sp = True; p += 1
            continue
        if ch == '\n':
            if lang == 'm':
                out.append(['nl', '\n', sp, True]); sp = True
            else:
                sp = True
            p += 1
            continue
        if lang == 'm' and text.startswith('...', p):      # continuation
            q = text.find('\n', p)
            p = n if q < 0 else q + 1
            sp = True
            continue
        m = TOK[lang].match(text, p)
        if not m:
            raise Bad('unexpected character %r' % text[p:p + 10])
        k = m.lastgroup if m.lastgroup in ('num', 'id', 'op') else ('num' if m.group('num') else 'id' if m.group('id') else 'op')
        if k == 'num' and m.end() < n and (text[m.end()].isalnum() or text[m.end()] == '_'):
            raise Bad('malformed number %r' % text[p:p + 20])
        out.append([k, m.group(0), sp, False])
        sp = False
        p = m.end()
    for a, b in zip(out, out[1:]):
        a[3] = b[2]
    out.append(['end', '', True, True])
    return out


def num(s):
    return dict(k='num', v=halves(s.lower().replace('d', 'e')))


class Matlab(object):
    """recursive descent; self.br counts the innermost brackets: inside [ ] white
    space separates elements, inside ( ) it does not"""

    def __init__(self, toks):
        self.t, self.p, self.ctx = toks, 0, ['(']

    def peek(self):
        # newlines only matter inside [ ]
        while self.t[self.p][0] == 'nl' and self.ctx[-1] == '(' and len(self.ctx) > 1:
            self.p += 1
        return self.t[self.p]

    def next(self):
        t = self.peek(); self.p += 1
        return t

    def want(self, s):
        t = self.next()
        if t[1] != s:
            raise Bad('%r expected, found %r' % (s, t[1]))

    def isop(self, *ops):
        t = self.peek()
        if t[0] != 'op' or t[1] not in ops:
            return False
        if self.ctx[-1] == '[' and t[2] and not t[3] and t[1] in ('+', '-'):
            return False       # [a -b]: two elements
        return True

    def expr(self):
        return self.rel()

    def binary(self, sub, *ops):
        a = sub()
        while self.isop(*ops):
            o = self.next()[1]
            a = dict(k='bin', o=o, a=[a, sub()])
        return a

    def rel(self):
        return self.binary(self.add, '<', '>', '<=', '>=', '==', '~=')

    def add(self):
        return self.binary(self.mul, '+', '-')

    def mul(self):
        return self.binary(self.unary, '*', '/', '\\', '.*', './')

    def unary(self):
        if self.peek()[0] == 'op' and self.peek()[1] in ('-', '+'):
            o = self.next()[1]
            a = self.unary()
            return dict(k='neg', a=[a]) if o == '-' else a
        return self.power()

    def power(self):
        a = self.postfix()
        while self.isop('^', '.^'):
            o = self.next()[1]
            neg = 0
            while self.peek()[0] == 'op' and self.peek()[1] in ('-', '+'):
                neg += self.next()[1] == '-'
            b = self.postfix()
            for _ in range(neg):
                b = dict(k='neg', a=[b])
            a = dict(k='bin', o=o, a=[a, b])
        return a

    def postfix(self):
        a = self.primary()
        while True:
            t = self.peek()
            if t[0] == 'op' and t[1] == "'" and not (self.ctx[-1] == '[' and t[2]):
                self.next()
                a = dict(k='call', n='transpose', a=[a])
            else:
                return a

    def args(self):
        self.want('(')
        self.ctx.append('(')
        a = []
        if not (self.peek()[0] == 'op' and self.peek()[1] == ')'):
            while True:
                if self.peek()[1] == ':' and self.t[self.p + 1][1] in (',', ')'):
                    self.next(); a.append(dict(k='colon'))
                else:
                    x = self.expr()
                    if self.isop(':'):
                        self.next()
                        x = dict(k='range', a=[x, self.expr()])
                    a.append(x)
                if self.isop(','):
                    self.next()
                else:
                    break
        self.ctx.pop()
        self.want(')')
        return a

    def primary(self):
        t = self.next()
        if t[0] == 'num':
            return num(t[1])
        if t[0] == 'id':
            n = self.t[self.p]
            if n[0] == 'op' and n[1] == '(' and not (self.ctx[-1] == '[' and n[2]):
                return dict(k='call', n=t[1], a=self.args())
            return dict(k='id', n=t[1])
        if t[1] == '(':
            self.ctx.append('(')
            a = self.expr()
            self.peek()
            self.ctx.pop()
            self.want(')')
            return a
        if t[1] == '[':
            self.ctx.append('[')
            rows, row = [], []
            while True:
                t = self.peek()
                if t[1] == ']':
                    self.next(); break
                if t[1] == ',':
                    self.next()
                elif t[1] in (';', '\n'):
                    self.next()
                    if row:
                        rows.append(row); row = []
                elif t[0] == 'end':
                    raise Bad('] expected')
                else:
                    row.append(self.expr())
            if row:
                rows.append(row)
            self.ctx.pop()
            return dict(k='cat', rows=[dict(a=r) for r in rows])
        raise Bad('unexpected %r' % t[1])


class Modelica(object):
    def __init__(self, toks):
        self.t, self.p = toks, 0

    def peek(self):
        return self.t[self.p]

    def next(self):
        self.p += 1
        return self.t[self.p - 1]

    def isop(self, *ops):
        return self.t[self.p][0] == 'op' and self.t[self.p][1] in ops

    def want(self, s):
        t = self.next()
        if t[1] != s:
            raise Bad('%r expected, found %r' % (s, t[1]))

    def expr(self):
        t = self.peek()
        if t[0] == 'id' and t[1] == 'if':
            self.next(); c = self.expr(); self.want('then'); a = self.expr()
            if self.peek()[1] == 'elseif':
                raise Bad('elseif')
            self.want('else'); b = self.expr()
            return dict(k='if', a=[c, a, b])
        return self.logical()

    def logical(self):
        a = self.arith()
        if self.isop('<', '<=', '>', '>=', '==', '<>'):
            o = self.next()[1]
            a = dict(k='bin', o=o, a=[a, self.arith()])
        if self.peek()[1] in ('and', 'or', 'not'):
            raise Bad(self.peek()[1])
        return a

    def arith(self):
        neg = False
        if self.isop('+', '-', '.+', '.-'):
            neg = self.next()[1] in ('-', '.-')
        a = self.term()
        if neg:
            a = dict(k='neg', a=[a])
        while self.isop('+', '-', '.+', '.-'):
            o = self.next()[1]
            a = dict(k='bin', o=o, a=[a, self.term()])
        return a

    def term(self):
        a = self.factor()
        while self.isop('*', '/', '.*', './'):
            o = self.next()[1]
            a = dict(k='bin', o=o, a=[a, self.factor()])
        return a

    def factor(self):
        a = self.primary()
        if self.isop('^', '.^'):
            o = self.next()[1]
            a = dict(k='bin', o=o, a=[a, self.primary()])
        return a

    def list(self, close):
        a = []
        if not self.isop(close):
            while True:
                a.append(self.expr())
                if self.isop(','):
                    self.next()
                else:
                    break
        self.want(close)
        return a

    def primary(self):
        t = self.next()
        if t[0] == 'num':
            return num(t[1])
        if t[0] == 'id':
            if t[1] in ('if', 'then', 'else', 'and', 'or', 'not', 'end', 'equation', 'parameter', 'constant', 'model'):
                raise Bad('unexpected %s' % t[1])
            if t[1] in ('true', 'false'):
                return dict(k='num', v=halves(t[1] == 'true'))
            if self.isop('('):
                self.next()
                a = dict(k='call', n=t[1], a=self.list(')'))
            else:
                a = dict(k='id', n=t[1])
        elif t[1] == '(':
            a = self.expr()
            self.want(')')
        elif t[1] == '{':
            a = dict(k='arr', a=self.list('}'))
            if not a['a']:
                raise Bad('empty array')
        else:
            raise Bad('unexpected %r' % t[1])
        while self.isop('['):
            # Modelica proper subscripts names only; other primaries are read the same way
            self.next()
            a = dict(k='idx', a=[a] + self.list(']'))
        return a


PARSER = {'m': Matlab, 'mo': Modelica}


def expression(text, lang):
    try:
        p = PARSER[lang](tokens(text, lang))
        if lang == 'm':
            p.ctx = ['(', '(']
        a = p.expr()
        if p.peek()[0] != 'end':
            raise Bad('unexpected %r' % p.peek()[1])
        return a
    except IndexError:
        raise Bad('unexpected end')
    except RecursionError:
        raise Bad('too deep')


# ------------------------------------------------------------------ programs
KEYWORDS = ('function', 'end', 'for', 'if', 'else', 'elseif', 'while', 'return', 'switch', 'case')


def mtokens(text):
    """tokens of a Matlab program: comments removed, strings and handles told from operators"""
    out = []
    for ln in text.split('\n'):
        i, n, sp, line = 0, len(ln), True, []
        while i < n:
            ch = ln[i]
            if ch in ' \t\r':
                sp = True; i += 1
                continue
            if ch == '%':
                break
            if ln.startswith('...', i):
                line.append(['cont', '...', sp, True])
                break
            prev = line[-1] if line else None
            if ch == "'" and (prev is None or sp and prev[1] not in (')', ']') or not (prev[0] in ('id', 'num') or prev[1] in (')', ']', "'"))):
                j = ln.find("'", i + 1)
                while j >= 0 and ln.startswith("''", j):
                    j = ln.find("'", j + 2)
                if j < 0:
                    raise Bad('unterminated string')
                line.append(['str', ln[i + 1:j], sp, False]); i = j + 1; sp = False
                continue
            if ch == '@':
                m = re.compile(r'[A-Za-z]\w*').match(ln, i + 1)
                if not m:
                    raise Bad('@')
                line.append(['fh', m.group(0), sp, False]); i = m.end(); sp = False
                continue
            m = TOK['m'].match(ln, i)
            if not m:
                raise Bad('unexpected character %r' % ln[i:i + 10])
            k = 'num' if m.group('num') else 'id' if m.group('id') else 'op'
            if k == 'num' and m.end() < n and (ln[m.end()].isalnum() or ln[m.end()] == '_'):
                raise Bad('malformed number %r' % ln[i:i + 20])
            line.append([k, m.group(0), sp, False])
            sp = False
            i = m.end()
        if line and line[-1][0] == 'cont':
            line.pop()
        else:
            line.append(['nl', '\n', sp, True])
        for a, b in zip(line, line[1:]):
            a[3] = b[2]
        out += line
    out.append(['end', '', True, True])
    return out


class MatlabProgram(Matlab):
    def primary(self):
        t = self.peek()
        if t[0] in ('str', 'fh'):
            self.next()
            return dict(k=t[0], n=t[1])
        if t[0] == 'id' and t[1] in KEYWORDS:
            raise Bad('unexpected ' + t[1])
        return Matlab.primary(self)

    def args(self):
        # ranges with a step
        self.want('(')
        self.ctx.append('(')
        a = []
        if not (self.peek()[0] == 'op' and self.peek()[1] == ')'):
            while True:
                if self.peek()[1] == ':' and self.t[self.p + 1][1] in (',', ')'):
                    self.next(); a.append(dict(k='colon'))
                else:
                    a.append(self.ranged())
                if self.isop(','):
                    self.next()
                else:
                    break
        self.ctx.pop()
        self.want(')')
        return a

    def ranged(self):
        x = [self.expr()]
        while self.isop(':'):
            self.next()
            x.append(self.expr())
        return x[0] if len(x) == 1 else dict(k='range', a=x) if len(x) == 2 else dict(k='steps', a=x)

    def skip(self):
        while self.t[self.p][0] == 'nl' or self.t[self.p][1] in (';', ','):
            self.p += 1

    def terminator(self):
        t = self.t[self.p]
        if t[0] == 'nl' or t[1] in (';', ','):
            self.p += 1
        elif t[0] != 'end' and t[1] != 'end':
            raise Bad('unexpected %r after a statement' % t[1])

    def target(self):
        t = self.next()
        if t[0] != 'id' or t[1] in KEYWORDS:
            raise Bad('unexpected %r as target' % t[1])
        parts = t[1].split('.')
        if len(parts) > 2:
            raise Bad('nested member')
        if len(parts) == 2:
            return dict(k='mem', s=parts[0], n=parts[1])
        if self.t[self.p][1] == '(':
            return dict(k='elem', n=t[1], a=self.args())
        return dict(k='var', n=t[1])

    def statement(self):
        t = self.t[self.p]
        u = self.t[self.p + 1]
        if t[0] == 'id' and t[1] == 'for':
            self.p += 1
            n = self.next()[1]
            self.want('=')
            r = self.ranged()
            b = self.block()
            return dict(k='for', n=n, r=r, body=b)
        if t[0] == 'id' and t[1] in KEYWORDS:
            raise Bad('unexpected ' + t[1])
        if t[0] == 'id' and u[0] in ('id', 'nl', 'end') and (u[0] != 'id' or u[2]):
            w = []
            while self.t[self.p][0] == 'id':
                w.append(self.t[self.p][1]); self.p += 1
            self.terminator()
            return dict(k='cmd', w=w)
        p0 = self.p
        try:
            if t[1] == '[':
                self.next()
                to = []
                while self.t[self.p][1] != ']':
                    to.append(self.target())
                    if self.t[self.p][1] == ',':
                        self.p += 1
                self.want(']')
            else:
                to = [self.target()]
            if self.next()[1] != '=':
                raise Bad('=')
        except Bad:
            self.p, self.ctx = p0, ['(']
            e = self.ranged()
            self.terminator()
            return dict(k='expr', e=e)
        e = self.ranged()
        self.terminator()
        return dict(k='set', to=to, e=e)

    def block(self):
        """statements up to end"""
        body = []
        self.skip()
        while True:
            t = self.t[self.p]
            if t[0] == 'id' and t[1] == 'end':
                self.p += 1
                return body
            if t[0] == 'end':
                raise Bad('end expected')
            body.append(self.statement())
            self.skip()

    def file(self):
        self.skip()
        t = self.t[self.p]
        if t[1] == 'function':
            self.p += 1
            out = self.next()[1]
            self.want('=')
            n = self.next()
            par = []
            if self.t[self.p][1] == '(':
                self.p += 1
                while self.t[self.p][1] != ')':
                    a = self.next()
                    if a[0] != 'id':
                        raise Bad('parameter')
                    par.append(a[1])
                    if self.t[self.p][1] == ',':
                        self.p += 1
                self.p += 1
            body = self.block()
            self.skip()
            if self.t[self.p][0] != 'end':
                raise Bad('text after the function')
            return dict(name=n[1], out=out, par=par, body=body)
        body = []
        while self.t[self.p][0] != 'end':
            body.append(self.statement())
            self.skip()
        return dict(name='', out='', par=[], body=body)


MOTOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|.', re.S)


class ModelicaProgram(Modelica):
    def __init__(self, text):
        # strings and comments first
        toks, buf = [], []
        def flush():
            if buf:
                toks.extend(tokens(''.join(buf), 'mo')[:-1]); del buf[:]
        for m in MOTOK.finditer(text):
            s = m.group(0)
            if s.startswith('//') or s.startswith('/*'):
                buf.append(' ')
            elif s[0] == '"':
                if len(s) < 2:
                    raise Bad('unterminated string')
                flush(); toks.append(['str', s[1:-1], True, True])
            else:
                buf.append(s)
        flush()
        toks.append(['end', '', True, True])
        Modelica.__init__(self, toks)

    def word(self, w):
        t = self.t[self.p]
        if t[0] == 'id' and t[1] == w:
            self.p += 1
            return True
        return False

    def name(self):
        t = self.next()
        if t[0] != 'id':
            raise Bad('name expected, found %r' % t[1])
        return t[1]

    def element(self):
        pre = ''
        for w in ('parameter', 'constant', 'input', 'output'):
            if self.word(w):
                pre = w
                break
        if self.name() != 'Real':
            raise Bad('type')
        d = dict(pre=pre, dims=[], mods=[])
        def dims():
            if self.isop('['):
                self.next()
                while True:
                    t = self.next()
                    if t[0] != 'num' or not t[1].isdigit():
                        raise Bad('dimension %r' % t[1])
                    d['dims'].append(int(t[1]))
                    if self.isop(','):
                        self.next()
                    else:
                        break
                self.want(']')
        dims()
        d['n'] = self.name()
        if '.' in d['n']:
            raise Bad('name')
        dims()
        if self.isop('('):
            self.next()
            while True:
                each = self.word('each')
                n = self.name()
                self.want('=')
                d['mods'].append(dict(n=n, each=each, e=self.expr()))
                if self.isop(','):
                    self.next()
                else:
                    break
            self.want(')')
        if self.isop('='):
            self.next()
            d['e'] = self.expr()
        while self.t[self.p][0] == 'str':
            self.p += 1
        self.want(';')
        return d

    def program(self):
        if self.word('within'):
            self.name(); self.want(';')
        self.word('partial')
        if not self.word('model'):
            raise Bad('model expected')
        name = self.name()
        imports, decls, eqs = [], [], []
        while True:
            if self.word('import'):
                imports.append(self.name()); self.want(';')
            elif self.word('protected') or self.word('public'):
                pass
            elif self.word('equation'):
                break
            elif self.word('end'):
                self.p -= 1
                break
            else:
                decls.append(self.element())
        while not self.word('end'):
            a = self.expr()
            self.want('=')
            b = self.expr()
            while self.t[self.p][0] == 'str':
                self.p += 1
            self.want(';')
            eqs.append(dict(l=a, r=b))
        if self.name() != name:
            raise Bad('another name at the end')
        self.want(';')
        if self.t[self.p][0] != 'end':
            raise Bad('text after the model')
        return dict(name=name, imports=imports, decls=decls, eqs=eqs)


def program(files, name, lang):
    """{lang specific syntax tree} of the program files (file name -> text)"""
    try:
        if lang == 'mo':
            if list(files) != [name + '.mo']:
                raise Bad('files: ' + ' '.join(files))
            p = ModelicaProgram(files[name + '.mo']).program()
            if p['name'] != name:
                raise Bad('name of the model')
            return p
        fns = []
        for f in sorted(files):
            where = f
            x = MatlabProgram(mtokens(files[f])).file()
            x['file'] = f[len(name) + 1:-2]
            if x['name'] and x['name'] != f[:-2]:
                raise Bad('name of the function')
            x['name'] = x['name'][len(name) + 1:]
            fns.append(x)
        calls = name + '_'
        return dict(fns=strip(fns, calls))
    except IndexError:
        raise Bad('unexpected end')
    except RecursionError:
        raise Bad('too deep')


def strip(x, pre):
    """names of the functions of the program: without the name of the model, marked by $"""
    if isinstance(x, list):
        return [strip(y, pre) for y in x]
    if isinstance(x, dict):
        y = {k: strip(v, pre) for k, v in x.items()}
        if y.get('k') in ('fh', 'call') and y['n'].startswith(pre):
            y['n'] = '$' + y['n'][len(pre):]
        return y
    return x
