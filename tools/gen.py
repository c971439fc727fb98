"""Random programs (sets of makefiles) for the specification and the code to read.

Every choice comes from the given seed.  A profile sets the weights of the
kinds of lines and of the pieces of text; what the programs mean is decided by
the TLA+ specification alone.
"""
import random, re

CODE = {'é': 128, '你': 129, '😀': 130, '\ufeff': 131}

def codes(s):
    return [CODE.get(c, ord(c)) for c in s]

BASE = dict(
    # lines
    assign=10, cond=3, define=2, rule=5, recipe=4, include=1, evalline=2, comment=1, blank=1,
    stray=0.15, badcond=0.15, junk=0.15, refline=0.7, endefs=0.05,
    # text pieces
    lit=10, ref1=3, refn=5, brace=2, nested=2, subst=1, dollar=1, evalcall=0.6, func=0.0, uni=1, odd=0.6, lone=0.15,
    # mangling of lines
    cont=0.06, comm=0.06, crlf=0.06, cr=0.0, bom=0.05, noeol=0.15, indent=0.08, badref=0.01,
    files=0.15, lines=(1, 9), cc=0.1, bslash=0.04, big=0.05, bad=0.01,
)

def no_colons(s):
    """Without the colons outside of brackets, except escaped ones"""
    out, n = '', 0
    for i, c in enumerate(s):
        n += (c in '({' and s[i - 1:i] == '$') - (c in ')}' and n > 0)
        if c != ':' or n or s[i - 1:i] == '\\':
            out += c
    return out

def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p

PROFILES = {
    'C01': profile(assign=30, cond=1, rule=1, recipe=0.5, refline=0.3, define=1),
    'C02': profile(assign=20, cond=1, nested=5, refn=8, brace=5, dollar=3, evalcall=1, rule=2, lone=0.5, define=1),
    'C03': profile(assign=20, subst=12, cond=0.5, rule=2, define=0.3, odd=2, bslash=0.1),
    'C04': profile(cond=14, assign=10, recipe=5, rule=5, badcond=0.5, include=2, lines=(2, 10)),
    'C05': profile(define=12, assign=6, endefs=0.2, evalline=3, lines=(1, 6)),
    'C06': profile(rule=16, recipe=8, assign=4, lines=(2, 10), refline=1),
    'C07': profile(rule=10, recipe=18, assign=4, cc=0.3, comment=2, cont=0.15, cond=3, lines=(2, 10)),
    'C08': profile(cont=0.35, comm=0.25, comment=4, blank=3, crlf=0.3, cr=0.05, bom=0.2, noeol=0.4, indent=0.3, bslash=0.2),
    'C09': profile(rule=24, recipe=3, assign=6, odd=3, bslash=0.15, cond=0.5, define=0.3, lines=(1, 6)),
    'C10': profile(evalline=10, evalcall=5, define=4, cond=3, lines=(1, 7)),
    'C11': profile(include=10, files=1.0, cond=3, rule=5, lines=(1, 6)),
    'C12': profile(assign=15, nested=5, refn=8, brace=3, subst=3, rule=6, cond=2, evalcall=1.5),
    'C13': profile(uni=5, cont=0.2, comm=0.1, define=4, subst=4, files=0.4, rule=6, evalline=3, crlf=0.15, cr=0.1, bom=0.15, indent=0.2),
    'C17': profile(stray=2, badcond=3, junk=2, badref=0.12, endefs=1, include=2, func=0.3, lines=(1, 8)),
    'C21': profile(include=9, evalline=4, evalcall=3, rule=6, recipe=4, cond=3, define=1.5, stray=0.3, junk=0.5, endefs=0.1, badcond=0.5, lines=(1, 5)),
    'C20': profile(func=6, nested=6, refn=6, brace=4, evalcall=3, recipe=8, badref=0.04, odd=3, lone=0.5),
}

NAMES = ['a', 'b', 'c', 'x', 'y', 'foo', 'a.b', 'ab']
UNI = ['é', '你', '😀', 'é你', 'a😀b']
LITS = ['k', 'foo', 'a b', ' ', '  p  q ', 'x.c y.c', 'main.o', 'b', 'y', 'z.c', 'src/l.c', '1', 'a.b', '\t', 'foo.c  foo.o', 'if', 'endif', 'define']
WORDS = ['./a', './/x.c', '../c', './', '.', '-', '~/f', '~u', 'lib(m.o)', 'lib(a b)', '[ab].c', '{a,b}', 'a?', '*', '/abs/x', 'C:/w', 'd:', 'x:/y', 'a//b', 'a/', '@x', '-l', '%', 'a%', '..', './%.o']
ODD = [',', '=', ':', ';', '%', '(', ')', '()', '{}', '}', '{', '|', '!', '?', '+', '"', "'", '-', '\\', '\\\\', '@', '/', ',,', ':=', '\\:', '\\ ', '\\=', '\\%', '$$', 'c:\\d', '&']


class G:
    def __init__(self, rnd, prof):
        self.r = rnd
        self.p = prof
        self.cc = '\t'
        self.low = 0

    def ch(self, pr):
        return self.r.random() < pr

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def wpick(self, keys):
        ws = [self.p[k] for k in keys]
        return self.r.choices(keys, ws)[0]

    def refname(self):
        """A name to refer to: mostly one that does not lead back to the variable being set"""
        if self.low > 0 and self.ch(0.93):
            pool = NAMES[self.low:] or ['q']
            return self.pick(pool)
        return self.name()

    def name(self):
        if self.ch(0.05 * self.p['uni']):
            return self.pick(['é', '你x'])
        return self.pick(NAMES if self.ch(0.4) else NAMES[:4])

    def word(self):
        if self.ch(0.06 * self.p['uni']):
            return self.pick(UNI)
        return self.pick(['k', 'foo', 'a', 'b', 'main.o', 'x.c', 'y.c', 'src/l.c', 'z', 'p.d', '1'])

    # ---- text that will be expanded
    def piece(self, d, ctx):
        k = self.wpick(['lit', 'ref1', 'refn', 'brace', 'nested', 'subst', 'dollar', 'evalcall', 'func', 'uni', 'odd', 'lone'])
        if d <= 0 and k in ('nested', 'subst', 'evalcall', 'func'):
            k = 'lit'
        if k == 'lit':
            return self.pick(LITS)
        if k == 'ref1':
            if self.low > 0 and self.ch(0.9):
                return '$' + self.pick([n for n in NAMES[self.low:] if len(n) == 1] + ['q'])
            return '$' + self.pick(['a', 'b', 'c', 'x', 'y', 'q', 'é', '@', '<'] if self.ch(0.3) else ['a', 'b', 'c', 'x'])
        if k == 'refn':
            return '$(' + self.refname() + ')'
        if k == 'brace':
            return '${' + self.refname() + '}'
        if k == 'nested':
            o, c = self.pick([('(', ')'), ('{', '}')])
            return '$' + o + self.pick(['', 'a', 'f']) + self.text(d - 1, 'name', 2) + self.pick(['', '', 'o', '.b']) + c
        if k == 'subst':
            o, c = self.pick([('(', ')'), ('(', ')'), ('{', '}')])
            pat = lambda: self.pick(['.c', '.o', '%.c', '%.o', '%', 'x%', 's%c', 'f%', '', '\\%', 'c', 'foo', 'lib%.a', '%%', '\\\\%', 'a%b%c', '$x', '%$y', '.c$a', 'é', '%é', '你%', 'foo%oo', 'foo%foo', 'x.%.c', 'x.c%x.c'])
            nm = self.refname() if self.ch(0.75) else self.text(d - 1, 'name', 1)
            return '$' + o + nm + ':' + pat() + '=' + pat() + c
        if k == 'dollar':
            return '$$'
        if k == 'evalcall':
            body = self.evaltext(d - 1)
            o, c = ('(', ')') if self.ch(0.8) else ('{', '}')
            return '$' + o + 'eval ' + body + c
        if k == 'func':
            f = self.pick(['strip ', 'words ', 'word ', 'strip\t', 'word 1,', 'word $a,', 'word  2 , ', 'wordx ', 'foo ', 'strip', 'words  ', 'word', 'evalu ', 'eval', 'subst ', 'eval  ', 'word1, ', 'strip,'])
            o, c = self.pick([('(', ')'), ('{', '}')])
            return '$' + o + f + self.text(d - 1, 'arg', 2) + c
        if k == 'uni':
            return self.pick(UNI)
        if k == 'lone':
            return self.pick(['$', '$ ', '$,', '$.'])
        o = self.pick(ODD)
        if ctx == 'name' and o in '(){}':
            o = '%'
        return o

    def text(self, d=2, ctx='value', n=3):
        s = ''.join(self.piece(d, ctx) for _ in range(self.r.randrange(0, n + 1)))
        if self.ch(self.p['badref']):
            s += self.pick(['$(a', '${b', '$(a}', '$(x$(y)', '$(strip a,b)', '$(word a)', '$(words a, b)', '$(word a,b,c)', '$(eval $(b)', '$(strip a))', '$(strip )a'])
        if self.ch(self.p['bslash']):
            s += self.pick(['\\', '\\\\', '\\\\\\', '\\x'])
        return s

    def evaltext(self, d):
        k = self.r.randrange(8)
        n = self.name()
        if k <= 2:
            return n + self.pick(['=', ' := ', ' += ', '?=']) + self.text(d, 'value', 2)
        if k == 3:
            return self.word() + ':' + self.pick([' ', '']) + self.text(d, 'value', 1)
        if k == 4:
            return '$(' + n + ')'
        if k == 5:
            return n + ' = $$' + self.pick(['a', '(b)', '{c}', '$$x'])
        if k == 6 and self.ch(0.25):
            return self.text(d, 'value', 2)
        if k == 6:
            return self.pick(['', ' ', '$(q)', '${q}'])
        return self.pick(['ifeq (a,a)', 'ifeq (a,b)', 'k: l ; m', 'k:: l', '# c', '-include ' + self.incname(), '$q: $a', 'k l: m$$a', 'ifneq (,$q)', '$(eval k: l)', 'x:=$a$$a', 'y=$$a$a', '$(eval a=1)', 'x: y$(eval y+=2)'])

    def op(self):
        return self.r.choices(['=', ':=', '::=', '?=', '+='], [6, 5, 1, 3, 5])[0]

    # ---- lines.  Each returns a list of lines without their line breaks
    def assign(self):
        n = self.name() if self.ch(0.88) else self.text(1, 'name', 2)
        if self.ch(0.03):
            n = self.pick(['%', 'a%b', '-x', '.y', 'a,b', '(a)', 'a/b', '@', 'endef', 'if', '"q"'])
        if self.ch(0.97) and (not n.strip() or n.lstrip().startswith('$') and self.ch(0.85)):
            n = self.pick(['a', 'v']) + n.strip()
        if self.ch(0.02 * self.p['evalcall']):
            n = self.pick(['$(eval %s)%s', '${eval %s}%s', '$(eval %s) %s']) % (self.pick(['b=2', 'a+=x', 'x:=$b', 'c=', 'y=$a']), n)
        sp = lambda: self.pick(['', '', ' ', ' ', '  ', '\t'])
        op = self.op()
        old, self.low = self.low, 0
        if op in ('=', '+=', '?=') and n in NAMES:
            self.low = NAMES.index(n) + 1
        v = self.text(3, 'value', 3)
        self.low = old
        if self.ch(0.15):
            v += self.pick([' ', '  ', '\t'])
        return [n + sp() + op + sp() + v]

    def condarg(self):
        if self.ch(0.45):
            return self.pick(['', ' ', 'a', 'b', '1', ' a', 'a '])
        return self.text(2, 'arg', 2).replace(',', '')

    def condline(self):
        kw = self.pick(['ifeq', 'ifneq'])
        a, b = self.condarg(), self.condarg()
        if self.ch(0.35):
            b = a
        q = self.r.randrange(6)
        pre = ' ' if self.ch(0.1) else ''
        gap = self.pick([' ', ' ', '  ', '\t'])
        if q <= 2:
            return pre + kw + gap + '(' + a + ',' + self.pick(['', ' ']) + b + ')'
        qs = self.pick(['"', "'"])
        qt = self.pick(['"', "'"])
        return pre + kw + gap + qs + a.replace(qs, '') + qs + self.pick([' ', '  ', '']) + qt + b.replace(qt, '') + qt

    def cond(self, depth):
        out = [self.condline()]
        out += self.block(depth - 1, self.r.randrange(0, 3))
        if self.ch(0.55):
            out.append(self.pick(['else', 'else', ' else', 'else ']))
            out += self.block(depth - 1, self.r.randrange(0, 3))
        if not self.ch(self.p['endefs'] * 0.5 + 0.01):
            out.append(self.pick(['endif', 'endif', 'endif ', '  endif']))
        return out

    def define(self, depth):
        n = self.name()
        if self.ch(0.06):
            n = self.pick(['x y', '$a', '$(b)c', 'a\tb', 'é 你', 'x$$', 'endef', 'define', 'a=b'])
        head = self.pick(['define ', 'define ', 'define  ', 'define\t']) + n + self.pick(['', '', '', ' =', ' +=', '+=', ' ', ' ?=', '=', ' :=', ':=', '::= ', '?=', ' += ', ' # c', ' := # c', '#c'])
        if self.ch(self.p['comm'] * 0.5):
            head += self.pick([' # c', '#', ' # c\\\\', ' #\\\nendef'])
        out = [head]
        if self.ch(0.12):
            o, c = self.pick([('(', ')'), ('{', '}')])
            out += [self.text(1) + '$' + o + self.pick(['a', 'strip', 'strip a', 'eval x=1', 'word 1,', 'x:a', 'words']), self.pick(['b', '', ' c', '=d', 'y=2', '$a']) + self.pick([c, c + ' z', '', c + c])]
        for _ in range(self.r.randrange(0, 4)):
            k = self.r.randrange(9)
            if k == 0:
                out.append('')
            elif k == 1:
                out.append('\t' + self.text(1))
            elif k == 2:
                out.append('  ' + self.text(1) + ' ')
            elif k == 3:
                out.append('# ' + self.pick(['c', '$a', '\\', 'endef']))
            elif k == 4:
                out += self.assign()
            elif k == 5 and depth > 0:
                out += self.define(depth - 1)
            elif k == 6:
                out.append(self.text(1) + self.pick(['\\', '\\\\', '#x']))
            elif k == 7:
                out.append(self.pick(['defines', 'endefs', 'ifeq (a,b)', 'endif', 'k: l', 'include zz', 'endef#', 'define', 'else']))
            else:
                out += self.line(0)
        out.append(self.pick(['endef', 'endef', ' endef', 'endef ', 'endef # c', '  endef']))
        if self.ch(self.p['endefs'] * 0.3):
            out[-1] = self.pick(['endef x', 'endef;', 'endefs'])
        return out

    def names(self, n, ctx='dep'):
        ws = []
        for _ in range(n):
            k = self.r.randrange(20)
            if k < 11:
                w = self.word()
            elif k < 15:
                w = self.text(1, 'arg', 1).replace(';', '').replace('=', '')
            elif k == 16:
                w = self.pick(['a\\:b', 'a\\ b', 'a\\b', 'c:\\d', 'a\\\\', 'é\\:x', 'd:\\é', 'x\\\\ y', 'a\\\\\\ b', '\\a'])
            elif k == 17:
                w = self.pick(['%.o', 'lib(m.o)', '*.c', '.PHONY', '-x', '~/f', 'a/b', 'a,b', '(', ')', '}', '!x', 'a?b', 'a+b', '"q"'])
            elif k == 15:
                w = self.pick(WORDS)
            elif k == 18:
                w = self.word() + self.text(1, 'arg', 1).replace(';', '').replace('=', '')
            else:
                w = self.word() + self.word()
            ws.append(w)
        return self.pick([' ', ' ', '  ', '\t']).join(ws)

    def rule(self):
        t = self.names(self.pick([1, 1, 1, 2, 3]), 'target')
        colon = self.pick([':', ':', ':', ': ', ' :', ' : ', '::', ':: ', ' ::'])
        if self.ch(0.03):
            colon = self.pick(['$x', '$(x)', '$$:', ''])
        d = self.names(self.pick([0, 1, 1, 2, 3]))
        if self.ch(0.85):
            d = no_colons(d)
        s = t + colon + d
        if self.ch(0.2):
            s += self.pick([';', ' ; ', ' ;', ';;']) + self.text(2)
        out = [s]
        if self.ch(0.5):
            for _ in range(self.r.randrange(1, 3)):
                out += self.recipe()
        return out

    def recipe(self):
        k = self.r.randrange(10)
        t = self.text(2, 'value', 3)
        if k == 0:
            t = self.pick(['a=1', 'ifeq (a,b)', 'endif', 'k: l', 'else', 'include zz', 'define x', '', ' ', '@echo $@', '-x', '+y', '; z'])
        out = [self.cc + t]
        if self.ch(0.05 + self.p['cont'] * 0.8):
            out[-1] += self.pick(['\\', '\\', ' \\', '\\\\', '\\\\\\'])
            if self.ch(0.85):
                out.append(self.cc + self.text(1))
            else:
                out.append(self.pick(['', 'a=2', 'k2: d', self.text(1)]))
        elif self.ch(0.05 + self.p['comm'] * 0.5):
            out[-1] += '#' + self.pick(['', ' c', '\\', '$a', '#'])
        return out

    def incname(self):
        if self.ch(0.1):
            return self.pick(['./f1.mk', 'd//f2.mk', './d/./f2.mk', 'nodir/f1.mk', 'f1.mk/x', 'é.mk', 'F+1,@%~-_', 'a\\ b', 'd', 'd/', '..', './', 'F1.MK', 'f1', '~/f1.mk', '*', 'bad', 'f[1].mk', 'd/none'])
        return self.pick(['f1.mk', 'f2.mk', 'f3', 'd/f2.mk', 'none.mk'] if self.ch(0.9) else ['f1.mk'])

    def include(self):
        k = self.pick(['include', 'include', '-include', 'sinclude'])
        n = self.r.randrange(0, 3) if self.ch(0.3) else 1
        ws = [self.incname() if self.ch(0.85) else self.pick(['$(inc)', '$a', 'f$(b).mk', '${c}', '$(x:%=f%.mk)']) for _ in range(n)]
        return [self.pick(['', '', '', ' ']) + k + self.pick([' ', ' ', '  ', '\t']) + self.pick([' ', '  ']).join(ws)]

    def line(self, depth):
        k = self.wpick(['assign', 'cond', 'define', 'rule', 'recipe', 'include', 'evalline', 'comment', 'blank',
                        'stray', 'badcond', 'junk', 'refline'])
        if k in ('cond', 'define') and depth <= 0:
            k = 'assign'
        if k == 'assign':
            return self.assign()
        if k == 'cond':
            return self.cond(depth)
        if k == 'define':
            return self.define(depth)
        if k == 'rule':
            return self.rule()
        if k == 'recipe':
            return self.recipe() if self.ch(0.3) else self.rule() + self.recipe()
        if k == 'include':
            return self.include()
        if k == 'evalline':
            if depth > 0 and self.ch(0.3):
                n = self.name()
                o = self.define(depth - 1)
                o[0] = 'define ' + n
                return o + ['$(eval $(' + n + '))']
            pre = self.pick(['', '', 'x', 'k: '])
            return [pre + '$(eval ' + self.evaltext(2) + ')' + self.pick(['', '', ' ', ':', ': k', '= 1' if pre or self.ch(0.1) else '', 'y', '$(eval ' + self.evaltext(1) + ')'])]
        if k == 'comment':
            return [self.pick(['#', ' # ', '\t#']) + self.pick(['', 'x', ' a=1', '$(a', '\\\\', '#', ' é', 'endif'])] if self.ch(0.7) else ['# a=1 \\', self.pick(['x=2', 'endif', '', '\tfoo'])]
        if k == 'blank':
            return [self.pick(['', '', ' ', '\t', '  \t ', '\\'])]
        if k == 'stray':
            return [self.cc + self.text(1)]
        if k == 'badcond':
            return [self.pick(['else', 'endif', 'endif x', 'else x', 'ifeq a b', 'ifeq (a', 'ifeq', 'ifneq "a', 'ifeq "a"', 'endif # x', 'ifeq (a,b) x', 'ifeq (a)', "ifeq 'a' b", 'ifeq(a,b)', 'else#', 'ifeq ($(a),b', 'ifeq ($(a,b)', 'endef', 'endifx', 'elsex: y', 'ifneqs = 1'])]
        if k == 'junk':
            return [self.pick(['foo', 'foo bar', '$(a)', ';', '; x', 'a b = c', 'x $(a)', 'foo$a', ': x', ':', '::', 'foo\\:', 'a;b', 'a ; b', 'endef', 'define', 'include', '$(a', 'foo $(b', 'x:$(a', 'k: a;$(b', '${a) = 1', 'é', '-', 'includes x', 'ifeq = 4', 'else = 4', 'endif: 3', 'endif := 3', 'includes: y', 'define : z'])]
        return [self.text(2)]

    # ---- much of the same
    def big(self):
        k = self.r.randrange(20)
        n = self.r.randrange(3, 12)
        v = self.pick(NAMES[:4])
        if k == 0:      # nested conditionals
            out, i = [], 0
            for i in range(n):
                out += [self.pick(['ifeq (1,1)', 'ifeq (1,1)', 'ifeq (1,1)', 'ifneq "$q" "1"', 'ifeq (1,2)', 'ifneq (,)'])] + ([v + '+=%d' % i] if self.ch(0.6) else [])
            for i in range(n):
                out += [v + '+=e%d' % i] if self.ch(0.4) else []
                out += (['else'] + ([v + '+=l%d' % i] if self.ch(0.7) else [])) if self.ch(0.4) else []
                out += ['endif']
            return out
        if k == 1:      # nested defines
            out = []
            for i in range(n):
                out += ['define ' + self.pick(['x', 'x y', v, 'x =']), 'l%d' % i] if self.ch(0.7) else [self.pick(['defined', '# define', 'l%d' % i, ' endefs'])]
            m = sum(l.startswith('define ') for l in out)
            if not out[0].startswith('define '):
                out[:0] = ['define ' + v]
                m += 1
            for i in range(m):
                out += ['endef'] + ([v + '=%d' % i] if self.ch(0.3) else [])
            return out
        if k == 2:      # runs of backslashes
            b = '\\' * self.r.randrange(2, 10)
            t = self.pick(['\nx', '#c', ':', ' b', 'x', ';', '=', '', '%', '$q', '\n\tx', ' \n y'])
            return ((self.pick([v + '=', v + ':=z ', 'k', 'k: ', 'k: d\n\tr', 'k: d; ', '#', 'define ' + v + '\n', v + '=a b%\n' + v + '1:=$(' + v + ':'])) + b + t).split('\n') + (['endef'] if self.ch(0.1) else [])
        if k == 3:      # many continuations
            return [self.pick([v + '=', v + ':= ', 'k:', 'k', 'ifeq (a,', '#', '-include ']) + 'a\\'] + [self.pick(['', ' ', '\t', '  ']) + self.pick(['', 'b', 'c d', '$x', ' ']) + self.pick(['\\', ' \\', '\\', '\t\\']) for _ in range(n)] + [self.pick(['z', '', ' z', 'b=1', 'k: l', ')'])]
        if k == 4:      # many assignments to one variable
            return [v + self.pick(['+=', '+=', ' += ', '?=', ':=$(%s)' % v]) + self.pick(['%d' % i, '$x', '', ' ', '$(%s)' % self.pick(NAMES[4:])]) for i in range(n)]
        if k == 5:      # many rules for few targets
            out = []
            for i in range(n):
                out += [self.pick(['k', 'l', 'k l', 'k']) + self.pick([':', ':', '::']) + self.pick(['', ' d%d' % i, ' d e'])] + ([self.cc + 'r%d' % i] if self.ch(0.25) else [])
            return out
        if k == 6:      # many words
            return [self.pick(['k: ', 'k:: ', '', v + '=', v + ':=', 'k: d; ']) + ' '.join(self.pick(['a', 'b', 'w', '$x', 'x.c', 'é', 'p/q.c', '$(y)z']) + str(i) for i in range(2 * n)) + self.pick(['', ': z', ':', ' '])] + [self.pick(['', 'z:=$(%s:%%=<%%>)' % v, 'z:=$(%s:.c=.o)' % v])]
        if k == 7:      # deeply nested references
            o = [self.pick('({') for _ in range(n)]
            return [self.pick([v + '1:=', v + '1=', 'k: ', '', self.cc]) + ''.join('$' + c + self.pick(['', '', 'a']) for c in o) + self.pick(NAMES) + ''.join(')' if c == '(' else '}' for c in reversed(o))]
        if k == 8:      # a chain of variables
            m = min(n, 6)
            return ['v%d%s$(v%d)%s' % (i, self.pick(['=', '=', ':=', '+=']), i + 1, self.pick(['', 'x', ' '])) for i in range(m)][::self.pick([1, -1])] + ['v%d=end' % m, 'w:=$(v0)']
        if k == 9:      # many commands
            return ['k: d'] + [self.pick([self.cc + 'r%d $x' % i, self.cc + 'r%d' % i, self.cc + 'a\\', self.cc, '', '# c', self.cc + '# c', 'ifeq (1,1)', 'endif']) for i in range(n)]
        if k == 10:     # long words
            w = self.pick(['a', 'ab', 'é', 'x.', '你']) * (n * 6)
            return self.pick([[w + '=1', 'z:=$(' + w + ')'], ['k: ' + w], [w + ': d'], [v + ':=' + w + ' $x'], ['k:', self.cc + w + '$x'], ['# ' + w, v + '=1'], [v + '=' + w, 'z:=$(%s:%s=1)' % (v, w[3:]), 'y:=$(%s:%s%%=%%2)' % (v, w[:5])]])
        if k == 11:     # many lines
            return [self.pick(['', '', '# c', ' ', '\t'])] * (n * n * 2)
        if k == 12:     # a long line
            return [self.pick([v + ':=', v + '=', 'k: ']) + ' ' * self.pick([1, 2]) + self.pick(['x', 'x ', 'é', 'x y ']) * (n * 7) + '$x$(y)' + self.pick(['', ' z'])]
        if k == 13:     # evals in evals
            m = self.r.randrange(2, 4)
            t = self.pick([v + '=1', v + '+=$a', 'k: l', v + ':=$$a'])
            for i in range(m):
                t = '$' * self.pick([1, 1, 2]) + '(eval ' + t + ')'
            return [t, 'z:=$(%s)' % v]
        if k == 14:     # nested brackets
            o = [self.pick('({') for _ in range(n)]
            t = ''.join(o) + 'x' + ''.join(')' if c == '(' else '}' for c in reversed(o))
            return [self.pick([v + '=$(strip %s)', v + '=$(word 1,%s)', v + '=$(words a,%s)', 'ifeq (%s,x)\n' + v + '=1\nendif', v + '=$(%s)', v + ':=${%s}', 'ifeq (%s,%s)\n' + v + '=1\nendif']).replace('%s', t)]
        if k == 15:     # conditionals among commands
            out = ['k: d']
            for i in range(n):
                out += [self.pick(['ifeq (1,1)', 'ifeq (1,2)', 'else', 'endif', self.cc + 'r%d' % i, self.cc + 'r%d' % i, 'k: e%d' % i, '# c'])]
            return out
        if k == 16:     # multi-line text evaluated
            body = self.block(1, 4)
            return ['define ' + v] + [l.replace('$', '$$') for l in body] + ['endef', self.pick(['$(eval $(%s))', 'x:=$(eval $(%s))y', 'k: $(eval $(%s))', '$(eval $(%s))$(eval $(%s))']).replace('%s', v)]
        if k == 17:     # much nesting of different kinds
            return ['ifeq (1,1)', 'define ' + v] + self.block(1, 2) + ['define w', 'endef', 'endef', self.pick(['else', 'endif', '']), 'ifneq (1,1)', 'define w'] + [self.pick(['x', 'a=1', '$(q'])] + ['endef', self.pick(['else', 'endif', '']), 'y+=1', 'endif', 'endif']
        if k == 18:     # anything at all in a branch not selected
            junk = ['override x', 'override', 'export y', 'private define z', 'override define ' + v, 'unexport', 'undefine a', 'vpath', 'define', 'define ' + v + ' = # c', 'define = 1', 'define: x', 'export define=2', 'endefs', 'load x', 'ifdef a', 'ifndef b', 'ifeq', 'ifneq x', 'ifeq (', 'ifeq $(q', 'include', '-include zz', '$(a', '${b) = 1', ';', '; x', 'a b', ': x', 'override a = 1', 'k: l', self.cc + 'r', '$(eval a=9)', '#', '# endif', 'x\\', 'endif\\']
            out = ['ifeq (1,2)']
            for i in range(n):
                l = self.pick(junk)
                out.append(l)
                if 'define' in l and self.ch(0.5):
                    out += [self.pick(['endif', 'else', 'x', '']), 'endef']
            return out + ['endif', v + '+=z']
        # targets from variables
        return ['ts=' + ' '.join(self.pick(['a', 'b', 'k', 'x\\:y']) for _ in range(n)), 'ds=$(ts) ' + self.word(), self.pick(['$(ts)', '$(ts) z', 'z$(ts)', '$(ts:%=%o)', '$(ts)$(ts)']) + self.pick([': ', ':: ', ':']) + self.pick(['$(ds)', '$(ds:%=d%)', '$(ts) | ', '$(ds); $(ts)', ''])]

    def block(self, depth, n):
        out = []
        for _ in range(n):
            if depth == 2 and self.ch(self.p['big']):
                out += [x for l in self.big() for x in l.split('\n')]
            out += self.line(depth)
        return out

    def mangle(self, lines):
        out = []
        for l in lines:
            rec = l[:1] == self.cc
            if not rec and self.ch(self.p['indent']):
                l = self.pick([' ', '  ']) + l
            if l and self.ch(self.p['comm'] * (0.1 if rec or 'define' in l else 0.6)):
                i = self.r.randrange(len(l) + 1)
                l = l[:i] + self.pick(['\\#', '\\#', '\\\\\\#', '\\\\#', '\\#c\\#', ' \\# ', '\\# # \\#', '\\#\\\\#', '\\#\\']) + l[i:]
            if not rec and ' ' in l.strip() and self.ch(self.p['cont']):
                i = self.r.choice([j for j, c in enumerate(l) if c == ' '])
                l = l[:i] + self.pick(['\\', ' \\', '\\', '\t \\']) + '\n' + self.pick(['', ' ', '\t', '  ']) + l[i + 1:]
            elif self.ch(self.p['cont'] * 0.3):
                l = l + self.pick(['\\\n', '\\\n ', ' \\\n \\\n', '\\\\'])
            elif self.ch(self.p['comm'] * (0.1 if 'define' in l else 1)) and not l.endswith('\\'):
                l = l + self.pick(['#', ' # c', '#$(a', ' #x\\', '# c\\\\'])
            out.append(l)
        return out

    def file(self, lo, hi):
        ls = self.mangle(self.block(2, self.r.randrange(lo, hi + 1)))
        s = '\n'.join(ls) + '\n'
        if self.ch(self.p['noeol']):
            s = s[:-1]
        if self.ch(self.p['crlf']):
            s = s.replace('\n', '\r\n')
        elif self.ch(self.p['crlf'] * 0.3):
            s = ''.join('\r\n' if c == '\n' and self.ch(0.4) else c for c in s)
        for _ in range(3):
            if self.p['cr'] and self.ch(self.p['cr']):
                i = self.r.randrange(len(s) + 1)
                s = s[:i] + '\r' + s[i:]
        if self.ch(self.p['bom']):
            s = '\ufeff' + s
        return s


def huge(g):
    """A program with much more of something: lines, names, words, nesting, references, text"""
    r, cc = g.r, g.cc
    n = r.randrange(30, 90)
    w = lambda: g.pick(['a', 'b', 'w', 'x.c', '\u00e9', 'p/q.c', 'y.o', 'foo'])
    fs = []
    k = r.randrange(22)
    ops = lambda: g.pick(['=', '=', ':=', '+=', ' ?= '])
    if k == 0:      # many variables
        ls = ['v%d%s%s%s' % (i, ops(), w(), g.pick(['', '$(v%d)' % (i + 1) if i % 7 else '', '$(v%d)' % r.randrange(i + 1, 2 * n + 1)])) for i in range(2 * n)]
        ls += ['z:=' + ''.join('$(v%d) ' % i for i in range(0, 2 * n, 7))]
    elif k == 1:    # deep conditionals
        s = [g.ch(0.97) for _ in range(n)]
        ls = [x for i in range(n) for x in ['ifeq (1,%d)' % (1 if s[i] else 2), 'a+=%d' % i][:g.pick([1, 2])]]
        ls += [x for i in range(n) for x in (['else', 'b+=%d' % i] if g.ch(0.3) else []) + ['endif'] + (['c+=%d' % i] if g.ch(0.3) else [])] + ['k: d']
    elif k == 2:    # deep defines
        ls = [x for i in range(n) for x in ['define a%d' % i, 'l%d' % i]] + [x for i in range(n) for x in ['endef', 'm%d' % i]][:-1] + ['b=1']
    elif k == 3:    # many rules
        m = g.pick([3, n, 5 * n])
        ls = [x for i in range(n) for x in [('t%d: d%d $(q)e' if m > 3 or i % 3 else 't%d:: d%d') % (r.randrange(m), i)] + ([cc + 'c%d' % i] if g.ch(0.3) else [])]
    elif k == 4:    # many words
        ls = [g.pick(['k: ', 'k:: ', 'v=', 'v:=', 'k: d; ']) + ' '.join(w() + str(i) for i in range(2 * n)), 'z:=$(v:%.c=%.o)', 'z2:=$(v:0=9)']
    elif k == 5:    # many commands
        ls = ['k: d'] + [cc + 'r%d%s' % (i, g.pick(['', '', ' $x', '\\\n' + cc + 'c', '# c'])) for i in range(2 * n)] + ['l: m', cc + 'end']
    elif k == 6:    # many references
        ls = ['x=1', 'y=$x$x', g.pick(['z=', 'z:=', 'k: ', 'k: d ; ']) + ''.join(g.pick(['$x', '$(y)', 'b', '${x}', '$$', ' ']) for i in range(3 * n))]
    elif k == 7:    # values through many variables
        m = min(n, 45)
        ls = ['v%d=%s$(v%d)%s' % (i, g.pick(['', 'a']), i + 1, g.pick(['', 'b', ' '])) for i in range(m)] + ['v%d=end' % m, 'z:=$(v0)', 'k: $(v3)']
    elif k == 8:    # many continuations
        ls = [g.pick(['v=', 'v:= ', 'k: ', 'k:', 'ifeq (a,', '#']) + 'a\\'] + [g.pick(['', ' ', '\t']) + g.pick(['', 'b', 'c%d' % i, '$x']) + g.pick(['\\', ' \\']) for i in range(2 * n)] + ['z', 'w=1']
    elif k == 9:    # the same file again and again
        ls = [x for i in range(n // 2) for x in ['i+=%d' % i, 'include f1.mk' if g.ch(0.9) else '-include none.mk']]
        fs = [['f1.mk', g.pick(['a+=$i\n', 'a:=$(a)x\nk: $(i)\n', 'k: l\n' + cc + 'c', 'b=$(a)\n'])]]
    elif k == 10:   # files in files
        fs = [['f%d.mk' % i, 'a+=%d\ninclude f%d.mk\nb+=%d\n' % (i, i + 1, i)] for i in range(1, 6)]
        fs[-1][1] = 'k: $a\n'
        ls = ['include f1.mk', 'c:=$a$b']
        if g.ch(0.5):   # a file in itself
            fs = [['f1.mk', g.pick(['k: $a', 'b:=$a', '\n', '# c']) + '\na:=x$a\nifneq ($a,%s)\ninclude f1.mk\nb+=$a\nendif\n' % ('x' * g.pick([3, 9, 11]))]]
    elif k == 11:   # many evals
        ls = [g.pick(['', 'x:=', 'k: ']) + ''.join('$(eval %s)' % g.pick(['a=%d' % i, 'a+=%d' % i, 'k%d: l' % i, 'b:=$$(a)z']) for i in range(j, j + 4)) for j in range(0, n, 4)]
    elif k == 12:   # a long definition, evaluated
        ls = ['define d'] + [g.pick(['v%d=%d' % (i, i), 'a+=%d' % i, 't%d: u' % i, '# c', '', 'x\\', 'ifeq (1,1)\nb+=1\nendif']) for i in range(n)] + ['', 'endef', g.pick(['$(eval $(d))', 'z=$(d)', 'z:=$(eval $d)', 'define e\n$(d)\nendef'])]
    elif k == 13:   # appending again and again
        ls = ['a%s%s' % (g.pick(['=', ':=', '+=']), w())] + ['a%s%s' % (g.pick(['+=', '+=', '+=', ' += ', ':=$a', '?=']), g.pick(['%d' % i, '$x', w()])) for i in range(min(n, 60))] + ['b:=$(a)', 'k: $(a)']
    elif k == 14:   # deep references
        o = [g.pick('({') for _ in range(n)]
        ls = [g.pick(['z:=', 'z=', 'k: ', 'k: d; ']) + ''.join('$' + c for c in o) + 'x' + ''.join(')' if c == '(' else '}' for c in reversed(o))]
    elif k == 15:   # deep brackets
        o = [g.pick('({') for _ in range(n)]
        t = ''.join(o) + 'x' + ''.join(')' if c == '(' else '}' for c in reversed(o))
        ls = [g.pick(['z:=$(strip %s)', 'z=$(strip %s)', 'ifeq (%s,x)\nz=1\nendif', 'z:=$(a%s)', 'z:=${words %s,}']).replace('%s', t), 'y=1']
    elif k == 16:   # far down
        ls = [g.pick(['', '', '# c', '\t', 'a=\u00e9'])] * r.randrange(200, 700) + ['z=x$(a)', 'k: d $x', cc + 'c']
    elif k == 17:   # far to the right
        ls = [g.pick(['z=', 'z:=', 'k: ', 'k: d;', '#', 'ifeq (,']) + g.pick(['x', 'x ', '\u00e9', 'xy ', '\u4f60']) * r.randrange(240, 300) + g.pick(['$a', ' end', 'é$(b)', '\\#q', '# c', ')\nb=1\nendif']), 'y=$(z)$(z:x=y)']
    elif k == 18:   # many targets
        ls = ['ts=' + ' '.join(w() + str(i) for i in range(n)), g.pick(['$(ts): d', '$(ts):: d ; c', ' '.join(w() + str(i) for i in range(n)) + ': $(ts)', '$(ts:%=%o) z: $(ts)']), cc + 'c $(ts)']
    elif k == 19:   # a long word
        t = g.pick(['ab', 'x', '\u00e9', 'a.', 'q/']) * r.randrange(130, 200)
        ls = [t + '=1', 'z:=$(' + t + ')', 'k: ' + t, t + ': k', 'v=' + t + ' ' + t, 'y:=$(v:' + t[7:] + '=b)', 'y2:=$(v:' + t[:9] + '%=%' + t[:3] + ')']
    elif k == 20:   # many evals inside evals, many variables consulted
        ls = ['w%d=$(w%d)' % (i, i + 1) for i in range(25)] + ['k: $(w0) $(w3)', 'z:=$(w%d)' % r.randrange(9)] + ['$(eval z+=$(w%d))' % (2 * i) for i in range(9)]
    else:
        ls = []
        while len(ls) < n:
            x = g.block(2, 1)
            if not any(y.lstrip()[:4] in ('else', 'endi') for y in x) or x[0].lstrip()[:2] == 'if':
                ls += x
    if g.ch(0.3):
        i = r.randrange(len(ls) + 1)
        ls[i:i] = g.block(1, 2)
    t = '\n'.join(ls) + '\n'
    if g.ch(g.p['crlf']):
        t = t.replace('\n', '\r\n')
    return [['m1.mk', t[:5000]]] + fs


def program(seed, prof, pid):
    r = random.Random('%s/%s/%s' % (seed, prof, pid))
    g = G(r, PROFILES[prof])
    if pid % 101 == 7:
        fs = huge(g)
        return dict(id=pid, cc=9, fs=[dict(n=codes(n), x=codes(t)) for n, t in fs], main=[1])
    cc = 9
    if g.ch(g.p['cc']):
        g.cc = g.pick(['>', '!', 'x', 'é'])
        cc = codes(g.cc)[0]
    lo, hi = g.p['lines']
    fs = [['m1.mk', g.file(lo, hi)]]
    main = [1]
    if g.ch(g.p['files']):
        for n in ['f1.mk', 'f2.mk', 'f3']:
            if g.ch(0.75):
                fs.append([n, g.file(0, 3)])
        if g.ch(0.3):
            fs.append([g.pick(['d/f2.mk', 'é.mk', 'F+1,@%~-_', 'a b', 'F1.MK', 'f1', '*', 'd/e/f.mk', 'f[1].mk']), g.file(0, 3)])
        if g.ch(g.p['bad'] * 4):
            fs.append(['bad', g.file(0, 2) + '\0' + g.pick(['', 'a=1\n', '\n'])])
            if g.ch(0.5):
                fs[g.r.randrange(len(fs))][1] += '\0'
    if g.ch(g.p['files'] * 0.25 + 0.08):
        fs.append(['m2.mk', g.file(0, 4)])
        main.append(len(fs))
    if g.ch(0.1):
        main.append(2 if len(fs) > 1 and g.ch(0.7) else 1)
    if g.ch(g.p['bad']):
        fs[g.r.randrange(len(fs))][1] += '\0'
    lim = 320 if g.ch(0.8) else 700
    fs = [[n, t[:lim]] for n, t in fs]
    return dict(id=pid, cc=cc, fs=[dict(n=codes(n), x=codes(t)) for n, t in fs], main=main)


def session(seed, pid):
    """Two engines over files that change: see spec/Session.tla"""
    r = random.Random('%s/session/%s' % (seed, pid))
    g = G(r, PROFILES['C21'])
    if g.ch(0.1):
        g.cc = '>'
    files = ['f1.mk', 'f2.mk', 'f3', 'w/f1.mk', 'w/f2.mk', 'w/f3', 'm1.mk']
    calm = ['a+=%d', 'a=%d $b', 'b:=$a', 'b?=$a', 'b=$(x:%%=%%%d)', 'u=$(eval a+=$b)$a', 'u=$(eval include f1.mk)', 'x=%d y.c', 'include f1.mk', '-include f2.mk f3', 'include $(f)',
            'f=f1.mk f3', 'f=f2.mk', 'k: $a', 'k:: $a ; c%d $b', 'k:\n' + g.cc + 'c $a$u\n' + g.cc + '$(words $b)', 'foo all: k $x\n' + g.cc + 'd%d', '%%.o: b\n' + g.cc + '$u',
            'define a\n$b\n%d\nendef', 'define u\n$(eval foo: $a)\nendef', '$(eval $(u))', 'ifeq ($a,%d)\nb=1\nelse\nb+=2\nendif', 'ifneq (,$b)\ninclude f3\nendif', 'y:=$(strip $u)', g.cc + 'm $a', '$(eval k: d%d)']
    def quiet():
        return ''.join((x % r.randrange(4) if '%d' in x else x % () if '%%' in x else x) + '\n' for x in r.choices(calm, k=r.randint(1, 4)))
    texts = [quiet() if g.ch(0.6) else g.file(1, 4)[:240] for _ in range(r.randint(3, 7))]
    if g.ch(0.1):
        texts[r.randrange(len(texts))] += '\0'
    if g.ch(0.3):       # open at its end
        texts[r.randrange(len(texts))] += g.pick(['ifeq (a,a)\n', 'ifneq (a,a)\n', 'define a\nx\n', 'k: d\n', 'a=1 \\', 'k: ; c \\\n', 'define b +=\n'])
    if g.ch(0.3):       # begins in the middle
        i = r.randrange(len(texts))
        texts[i] = g.pick(['endif\n', 'else\n', 'endef\n', g.cc + 'c $a\n', 'x\n', '\ufeff', ' b=2\n']) + texts[i]
    txt = lambda: r.randrange(len(texts)) + 1
    fs = [dict(n=codes(n), x=txt()) for n in files if g.ch(0.7)]
    ops = [dict(o='cc', e=e, c=codes(g.cc)[0]) for e in (1, 2)] if g.cc != '\t' else []
    every = '\n'.join(texts)
    vs = re.findall(r'(?m)^ *(?:define )?([\w.]+)\s*(?:[:+?]?=|$)', every) or ['a']
    ts = [x for t in re.findall(r'(?m)^([\w.% ]+)::?(?:[^=]|$)', every) for x in t.split()] or ['k']
    vs += [x for x in vs if x == 'u'] * 2
    for i in range(r.randint(5, 18)):
        e = r.choice([1, 1, 2])
        o = r.choices(['read', 'use', 'run', 'look', 'cc', 'wd', 'copy', 'write', 'remove'], [9, i / 2, i / 3, .6, .3, .8, .8, 2, .4])[0]
        op = dict(o=o)
        if o not in ('write', 'remove'):
            op['e'] = e
        if o in ('read', 'write'):
            op['x'] = txt()
        if o in ('write', 'remove'):
            op['n'] = codes(r.choice(files))
        if o == 'use':
            op['n'] = codes(r.choice(vs))
        if o == 'run':
            op['n'] = codes(r.choice(ts))
        if o == 'cc':
            op['c'] = codes(r.choice(['\t', '>', '!']))[0]
        if o == 'wd':
            op['d'] = codes(r.choice(['', 'w/']))
        if o == 'copy':
            op['f'] = 3 - e
        ops.append(op)
    return dict(texts=[codes(t) for t in texts], fs=fs, pre=[], ops=ops, depth=0)


def text_of(codes_):
    inv = {v: k for k, v in CODE.items()}
    return ''.join(inv.get(c, chr(c)) for c in codes_)


if __name__ == '__main__':
    import sys, json
    prof, seed, n, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    with open(out, 'w') as f:
        for i in range(n):
            f.write(json.dumps(program(seed, prof, i + 1)) + '\n')
