#!/usr/bin/env python3
"""Families of compiled format strings: what the macros must accept (with the
output they must give) and what they must reject. usage: gen.py PROP SEED TIER OUTDIR"""
import itertools, random, re, sys

def lit(s):
    o = '"'
    for c in s:
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\0': '\\0'}.get(c, c)
    return o + '"'

COL = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white', 'default']
INT = ['normal', 'bold', 'faint']
TRAITS = ['', '?', 'x?', 'X?', 'o', 'x', 'X', 'p', 'b', 'e', 'E', 's']
ATTRS = ['fg=' + c for c in COL] + ['bg=' + c for c in COL] + INT

def rcol(c): return 'Color::' + c.capitalize()
def with_attrs(base, attrs):
    f = b = i = None
    for a in attrs:
        if a.startswith('fg='): f = a[3:]
        elif a.startswith('bg='): b = a[3:]
        else: i = a
    o = lambda x, g: 'None' if x is None else 'Some(%s)' % g(x)
    return 'with(%s, %s, %s, %s)' % (base, o(f, rcol), o(b, rcol), o(i, lambda x: 'Intensity::' + x.capitalize()))

# ---- an independent reading of the documented grammar -----------------------
class Bad(Exception): pass
def ident(s, i):
    """end of the identifier (XID_Start or _, then XID_Continue) at i, or None"""
    if i >= len(s) or not s[i].isidentifier(): return None
    j = i + 1
    while j < len(s) and ('a' + s[j]).isidentifier(): j += 1
    return j
def dollar(s, i):
    m = re.compile(r'[0-9]+').match(s, i)
    j = m.end() if m else ident(s, i)
    return j is not None and s[j:j + 1] == '$'
def parse(s):
    """list of ('lit', text) / ('arg', ref, spec); raises Bad"""
    out = []; i = 0
    def eat(x):
        nonlocal i
        if s.startswith(x, i): i += len(x); return True
        return False
    def ref():
        nonlocal i
        m = re.compile(r'[0-9]+').match(s, i)
        if m:
            if int(m[0]) >= 2**64: raise Bad
            i = m.end(); return int(m[0])
        j = ident(s, i)
        if j: n = s[i:j]; i = j; return n
        return None
    while i < len(s):
        if eat('{{'): out.append(('lit', '{')); continue
        if eat('}}'): out.append(('lit', '}')); continue
        if s[i] == '}': raise Bad
        if s[i] != '{':
            j = i
            while j < len(s) and s[j] not in '{}': j += 1
            out.append(('lit', s[i:j])); i = j; continue
        i += 1
        r = ref(); sp = dict(align='', sign='', alt=False, zero=False, width=None, prec=None, attrs=[], trait='')
        if eat(':'):
            if i + 1 < len(s) and s[i + 1] in '<^>':
                if s[i] != ' ': raise Bad          # other fills are not supported
                sp['align'] = s[i + 1]; i += 2
            elif i < len(s) and s[i] in '<^>': sp['align'] = s[i]; i += 1
            if i < len(s) and s[i] in '+-': sp['sign'] = s[i]; i += 1
            sp['alt'] = eat('#')
            if dollar(s, i): raise Bad             # counts from arguments are not supported
            sp['zero'] = eat('0')
            def count():
                nonlocal i
                if dollar(s, i): raise Bad
                m = re.compile(r'[0-9]+').match(s, i)
                if not m: return None
                if int(m[0]) > 65535: raise Bad
                i = m.end(); return int(m[0])
            sp['width'] = count()
            if eat('.'):
                sp['prec'] = count()
                if sp['prec'] is None: raise Bad
            if eat('('):
                while True:
                    a = next((a for a in sorted(ATTRS, key=len, reverse=True) if s.startswith(a, i)), None)
                    if a is None: break
                    i += len(a); sp['attrs'].append(a)
                    if not eat(','): break
                if not eat(')'): raise Bad
            for t in ['x?', 'X?', '?', 'o', 'x', 'X', 'p', 'b', 'e', 'E', 's']:
                if eat(t): sp['trait'] = t; break
        if not eat('}'): raise Bad
        out.append(('arg', r, sp))
    return out
def std_spec(sp):
    t = ('' if sp['align'] == '' else sp['align']) + sp['sign'] + ('#' if sp['alt'] else '') + ('0' if sp['zero'] else '')
    if sp['width'] is not None: t += str(sp['width'])
    if sp['prec'] is not None: t += '.' + str(sp['prec'])
    return t + sp['trait']
def spec_text(sp):
    t = sp['align'] + sp['sign'] + ('#' if sp['alt'] else '') + ('0' if sp['zero'] else '')
    if sp['width'] is not None: t += str(sp['width'])
    if sp['prec'] is not None: t += '.' + str(sp['prec'])
    if sp['attrs'] or sp.get('paren'): t += '(' + ','.join(sp['attrs']) + (',' if sp.get('trail') and sp['attrs'] else '') + ')'
    return t + sp['trait']
def rspec(r, traits=TRAITS):
    sp = dict(align=r.choice(['', '', '<', '^', '>']), sign=r.choice(['', '', '+', '-']), alt=r.random() < .3, zero=r.random() < .3,
              width=r.choice([None, None, 0, 1, 7, 12]), prec=r.choice([None, None, 0, 3]), attrs=[], trait=r.choice(traits))
    if sp['width'] == 0 and not sp['zero']: sp['width'] = None
    if r.random() < .5: sp['attrs'] = [r.choice(ATTRS) for _ in range(r.choice([1, 1, 2, 3]))]; sp['trail'] = r.random() < .3
    elif r.random() < .1: sp['paren'] = True
    return sp
def placeholder(ref, sp):
    t = spec_text(sp)
    return '{' + ref + ((':' + t) if t else '') + '}'
def expected(pieces, base, val):
    """Rust expressions for the chunks the pieces must give"""
    out = []; nxt = 0
    for p in pieces:
        if p[0] == 'lit': out.append('(%s.to_string(), %s)' % (lit(p[1]), base)); continue
        r, sp = p[1], p[2]
        if r is None: r = nxt; nxt += 1
        v = val(r); st = with_attrs(base, sp['attrs'])
        if sp['trait'] == 's': out.append('(format!("stylish{}", (%s).0), %s)' % (v, st))
        else: out.append('(format!(%s, %s), %s)' % (lit('{:' + std_spec(sp) + '}'), v, st))
    return 'vec![' + ', '.join(out) + ']'

class Out:
    def __init__(self): self.cases = []; self.rej = []; self.rej2 = []
    def case(self, desc, body): self.cases.append((desc, body))
    def reject(self, desc, stmt, late=False): (self.rej2.append((desc, stmt, late)) if late else self.rej.append((desc, stmt)))
    def write(self, d, prelude):
        o = [prelude]; o0 = prelude.count('\n') + 2
        index = []
        for k, (_, b) in enumerate(self.cases):
            index.append((len(o), k)); o.append('fn c%d() -> R { %s }' % (k, b))
        o.append('fn main() { drive(&[' + ', '.join('(%s, c%d as fn() -> R)' % (lit(x), k) for k, (x, _) in enumerate(self.cases)) + ']) }')
        open(d + '/pass.rs', 'w').write('\n'.join(o) + '\n')
        for name, rej in (('reject', self.rej), ('reject2', self.rej2)):
            o = [prelude]
            for k, c in enumerate(rej): o.append('fn r%d() { %s }' % (k, c[1]))
            o.append('fn main() {}')
            open(d + '/' + name + '.rs', 'w').write('\n'.join(o) + '\n')
        import json
        json.dump({'first': o0, 'cases': [c[0] for c in self.cases], 'reject': [c[0] for c in self.rej], 'reject2': [(c[0], c[2]) for c in self.rej2]}, open(d + '/cases.json', 'w'))

def c10(o, r, deep):
    traits = [t for t in TRAITS if t != 's']
    n = 0
    for al, sg, alt, z, w, p in itertools.product(['', '<', '^', '>'], ['', '+', '-'], [False, True], [False, True], [None, 9], [None, 2]):
        ts = traits if deep else [traits[n % len(traits)], traits[(n * 7 + 3) % len(traits)], ['?', 'x?', 'X?', ''][n % 4]]
        for t in dict.fromkeys(ts):
            sp = dict(align=al, sign=sg, alt=alt, zero=z, width=w, prec=p, attrs=[r.choice(ATTRS)] if n % 3 == 0 else [], trait=t)
            n += 1
            f = placeholder('', sp)
            o.case(f, 'chk(rec(stylish::format_args!(%s, Spy(7))), %s)' % (lit(f), expected([('arg', 0, sp)], 'd()', lambda k: 'Spy(7)')))
    vals = {'': ['"hé"', '-5i32', '3.14159f64', "'c'", 'true'], '?': ['"h\\n"', '-5i64', '2.5f32', 'Some(3)', '(1, "a")', '[10u8, 11]'], 'x?': ['[10u8, 255]', 'Some(171)'], 'X?': ['[10u8, 255]', 'Some(171)'],
            'o': ['8u8'], 'x': ['171u32', '-1i8'], 'X': ['171u32'], 'b': ['5u8'], 'e': ['1234.5f64', '77u32'], 'E': ['1234.5f64']}
    for t, vs in vals.items():
        for v in vs:
            for _ in range(12 if deep else 4):
                sp = rspec(r, [t])
                f = placeholder('', sp)
                o.case(f + ' of ' + v, 'chk(rec(stylish::format_args!(%s, %s)), %s)' % (lit(f), v, expected([('arg', 0, sp)], 'd()', lambda k: v)))
    for w in [1, 2, 255, 256, 1000, 65535] + ([4096, 65534] if deep else []):
        o.case('width %d' % w, 'chk(rec(stylish::format_args!("{:>%d}{:<%d}", "a", 7)), vec![(format!("{:>%d}{:<%d}", "a", 7), d())])' % (w, w, w, w))
        o.case('precision %d' % w, 'chk(rec(stylish::format_args!("{:.%d}", "abcdef".repeat(200))), vec![(format!("{:.%d}", "abcdef".repeat(200)), d())])' % (w, w))

    # arguments inside arguments see their own parameters only
    for k in range(160 if deep else 60):
        s1, s2, s3 = rspec(r, ['s']), rspec(r, traits), rspec(r, traits)
        f, inner = placeholder('', s1) + '|' + placeholder('', s3), placeholder('', s2) + '-' + placeholder('', s3)
        st1 = with_attrs('d()', s1['attrs'])
        e = 'vec![(format!(%s, Spy(1)), %s), ("-".into(), %s), (format!(%s, Spy(2)), %s), ("|".into(), d()), (format!(%s, Spy(3)), %s)]' % (
            lit('{:' + std_spec(s2) + '}'), with_attrs(st1, s2['attrs']), st1, lit('{:' + std_spec(s3) + '}'), with_attrs(st1, s3['attrs']), lit('{:' + std_spec(s3) + '}'), with_attrs('d()', s3['attrs']))
        o.case(f + ' around ' + inner, 'chk(rec(stylish::format_args!(%s, stylish::format_args!(%s, Spy(1), Spy(2)), Spy(3))), %s)' % (lit(f), lit(inner), e))

NAMES = ['a', 'b1', '_x', 'é', 'type_', 'l·l', '℘', 'x\u0332_', 'a٣', '_0', '世界', 'b', 'ab', 'b10', 'A', 'aa', '_xé', 'x', 'fg', 'bold', 's', 'r', 'self_']
CAP = 'let (%s) = (%s); ' % (', '.join(NAMES), ', '.join('Spy(%d)' % (20 + i) for i in range(len(NAMES))))
def capval(k): return k if isinstance(k, str) else 'Spy(%d)' % k
def accept(o, s, desc=None):
    pieces = parse(s)
    nxt = 0; used = set()
    for p in pieces:
        if p[0] == 'arg':
            if p[1] is None: used.add(nxt); nxt += 1
            elif isinstance(p[1], int): used.add(p[1])
    n = len(used)
    if used != set(range(n)) or n > 12: return False
    for p in pieces:
        if p[0] == 'arg' and isinstance(p[1], str) and p[1] not in NAMES: return False
    args = ''.join(', Spy(%d)' % k for k in range(n))
    o.case(desc or s, CAP + 'chk(rec(stylish::format_args!(%s%s)), %s)' % (lit(s), args, expected(pieces, 'd()', capval)))
    return True
def rejected(o, s):
    for n in (0, 1, 2):
        o.reject(s + ' with %d arguments' % n, CAP + 'let _ = rec(stylish::format_args!(%s%s));' % (lit(s), ''.join(', Spy(%d)' % k for k in range(n))))
TOK = ['{', '}', '{{', '}}', ':', '<', '^', '>', '+', '-', '#', '0', '5', '.', '(', ')', 'fg=', 'bg=', 'red', 'default', 'bold', 'faint', ',', '?', 'x', 'X', 's', 'a', ' ', '=', '$', 'z', 'é', '_', '{}', '{:', '()', '1', '{0']
def c13(o, r, deep):
    acc = set(); rej = set()
    def put(s):
        if '_' in [p for p in re.findall(r'\{(\w+)', s)]: return
        try: parse(s)
        except Bad: rej.add(s); return
        acc.add(s)
    # every placeholder of up to three (four) tokens, every string of up to three
    inner = [t for t in TOK if '{' not in t and '}' not in t]
    small = []
    for k in range(0, 3):
        for c in itertools.product(inner, repeat=k): small.append('{:' + ''.join(c) + '}')
        for c in itertools.product(inner, repeat=k): small.append('{' + ''.join(c) + '}')
    for k in range(0, 3):
        for c in itertools.product(TOK, repeat=k): small.append(''.join(c))
    for al, sg, alt, z, w, p, at, t in itertools.product(['', '<', ' ^', '>'], ['', '+', '-'], ['', '#'], ['', '0'], ['', '5', '12'], ['', '.0', '.7'], ['', '()', '(fg=red)', '(bg=default,bold)', '(faint,)'], TRAITS):
        small.append('{:' + al + sg + alt + z + w + p + at + t + '}')
    r.shuffle(small)
    fixed = ['', 'a', '{{', '}}', '{{}}', '{{{}}}', '{{{{', '{}{{}}{}', 'x{{y}}z', '{a}', '{0}', '{0:}', '{a:}', '{:}', '{:()}', '{:(fg=red,bg=blue,bold,)}', '{:(fg=red,fg=default)}', '{: <5}',
             '{:^+#012.3(fg=red,bold)x?}', '{:s}', '{:(bold)s}', '{_x}{é}', '{:00}', '{:0}', '{:<0}', '\n{{\n', '"\\\'', '{:.0}', '{0:?}{0:x}', '{:<}', '{:+}', '{:e}', '{:E}', '{:p}', '{:b}', '{:o}', '{:X}', '{:x}', '{:X?}',
             '{', '}', '{}}', '{{}', '{ }', '{a b}', '{:z}', '{:(}', '{:)}', '{:(fg)}', '{:(fg=)}', '{:(fg=purple)}', '{:(,)}', '{:(bold,,)}', '{:(bold;faint)}', '{:(bold faint)}', '{:( bold)}', '{:(bold )}', '{:(fg= red)}', '{:(fg =red)}',
             '{:(Bold)}', '{:(fg=Red)}', '{:(red)}', '{:(bold)(faint)}', '{:x(bold)}', '{:?#}', '{:#+}', '{:5+}', '{:5<}', '{:.}', '{:.x}', '{:a$}', '{:1$}', '{:.a$}', '{:.*}', '{:-+}', '{:++}', '{:##}', '{:*<5}', '{:0<5}', '{:<<}', '{:}}', '{{:}', '{:s?}', '{:?s}', '{:xx}', '{:x?x}', '{:ss}',
             '{l·l}', '{℘}{_0}', '{x\u0332_:>4}', '{a٣}', '{世界:?}', '{a²}', '{²}', '{٣}', '{:٣}', '{:.٣}', '{a\u200db}', '{a\u200b}', '{·l}', '{\u0332x}', '{a\'}', '{0_}', '{00}', '{007}', '{1_0}', '{:1_0}', '{:5 }', '{:(bold)5}', '{:s(bold)}', '{:(bold)#}', '{a:<5.3(fg=red)?}', '{0 }', '{ 0}', '{0a}', '{a:b:c}', '{a.b}', '{-1}', '{+1}', '{:99999999999999999999999}', '{99999999999999999999999}', '{:(fg=brightred)}', '{:(boldx)}', '{:(fg=redx)}', '{:(fg=red}', '{:fg=red}', '{:bold}', '{:(fg:red)}', '{:(fg==red)}', '{:[bold]}', '{:(bold,)x', '{:(bold}x)}', '{}{', '}{}', 'a}b', 'a{b', '{:(bold', '{:', '{0:', '{0', '{a', '{:<', '{:5', '{:.5', '{:#', '{:(', '{:(fg', '{:(fg=', '{:(fg=red,', '{:(bold)?']
    for s in fixed: put(s)
    na, nr = (4000, 4000) if deep else (700, 800)
    for s in small:
        if len(acc) > na and len(rej) > nr: break
        put(s)
    # grammar samples and single edits of them
    for _ in range(4000 if deep else 900):
        s = ''
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.random()
            if k < .3: s += r.choice(['a', 'bc', '{{', '}}', ' ', 'é世', '\n', '()', ':', '$', '"', '\\'])
            else: s += placeholder(r.choice(['', '', '', '0', '1'] + NAMES), rspec(r))
        put(s)
        if r.random() < .6 and s:
            i = r.randrange(len(s)); k = r.random()
            m = s[:i] + s[i + 1:] if k < .4 else s[:i] + r.choice(TOK) + s[i:] if k < .7 else s[:i] + r.choice(TOK) + s[i + 1:]
            put(m)
    # every keyword and every mark of the grammar, slightly wrong
    bases = ['{:(%s)}' % ','.join(x) for x in (['fg=' + c, 'bg=' + d, i] for c, d, i in zip(COL, COL[1:] + COL[:1], ['normal', 'bold', 'faint'] * 3))]
    bases += ['{a:>+#05.2(fg=red,bold,)x?}', '{0:^-12.a$X?}', '{:<a$.1$e}', '{:#?}', '{{{a}}}', '{_x1:5}', '{:?}{:o}{:x}{:X}{:p}{:b}{:e}{:E}{:s}']
    muts = []
    for b in bases:
        for i in range(len(b)):
            for m in (b[:i] + b[i + 1:], b[:i] + b[i] + b[i:], b[:i] + b[i].swapcase() + b[i + 1:], b[:i] + ' ' + b[i:], b[:i] + b[i + 1:i + 2] + b[i] + b[i + 2:]): muts.append(m)
    for w in ['fg', 'bg', 'normal', 'bold', 'faint'] + COL:
        for b in bases:
            if w in b: muts += [b.replace(w, x) for x in (w.upper(), w.capitalize(), w[:-1], w + w[-1], w + 's', 'bright' + w, 'bright-' + w, 'bright_' + w, w[0], '"' + w + '"')]; break
    mset = set()
    for m in dict.fromkeys(muts):
        if '_' in [p for p in re.findall(r'\{(\w+)', m)]: continue
        try: parse(m); acc.add(m)
        except Bad: mset.add(m)
    mset = sorted(mset); r.shuffle(mset)
    acc = sorted(acc); rej = sorted(rej - set(mset)); r.shuffle(acc); r.shuffle(rej)
    n = 0
    must = [s for s in fixed if s in set(acc)]
    for s in must + acc:
        if accept(o, s): n += 1
        if n >= (5000 if deep else 1300): break
    mr = [s for s in fixed if s in set(rej)]
    for s in mr + mset + rej[:(3000 if deep else 700)]: rejected(o, s)
    for src, val in [('r"{}\\n{{"', '\\n{'), ('r#"{}"x""#', '"x"'), ('"{}\\u{e9}\\x7b\\x7b"', 'é{'), ('concat!("{", "}}}")', '}'), ('concat!("{:", ">5", "}")', None)]:
        want = 'vec![(format!("{:>5}", Spy(0)), d())]' if val is None else 'vec![(format!("{}", Spy(0)), d()), (%s.to_string(), d())]' % lit(val)
        o.case('the literal ' + src, 'chk(rec(stylish::format_args!(%s, Spy(0))), %s)' % (src, want))

def c14(o, r, deep):
    for k in range(1500 if deep else 350):
        np = r.randrange(5); nn = r.randrange(4)
        names = r.sample(NAMES, nn)
        ps = []; implicit = 0
        want_imp = r.randrange(np + 1)
        refs = []
        for _ in range(want_imp): refs.append('')
        for i in range(want_imp, np): refs.append(str(i))
        refs += names
        for _ in range(r.randrange(6)):
            refs.append(r.choice([str(r.randrange(np)) if np else 'a'] + names + (NAMES if r.random() < .6 else names or ['a'])))
        r.shuffle(refs)
        s = ''
        for x in refs: s += r.choice(['', '', '-', '{{', 'x']) + placeholder(x, rspec(r) if r.random() < .3 else dict(align='', sign='', alt=False, zero=False, width=None, prec=None, attrs=[], trait=''))
        if not s: continue
        pieces = parse(s)
        if r.random() < .5: args = ['ev(%d)' % i for i in range(np)]
        else: args = ['{ let v = ev(%d); v }' % i for i in range(np)]
        args += ['%s = ev(%d)' % (n, 10 + i) for i, n in enumerate(names)]
        val = lambda x: 'Spy(%d)' % (x if isinstance(x, int) else 10 + names.index(x) if x in names else 20 + NAMES.index(x))
        tail = ', ' if args and r.random() < .3 else ''
        call = 'stylish::format_args!(%s%s%s)' % (lit(s), ''.join(', ' + a for a in args), tail)
        ids = sorted(list(range(np)) + [10 + i for i in range(len(names))])
        o.case(s + ' with ' + ', '.join(args), CAP + 'evs(); let g = rec(%s); let e = evs(); if e != Vec::<u8>::from(%s) { return Err(format!("arguments evaluated: {:?}", e)) } chk(g, %s)' % (call, ids, expected(pieces, 'd()', val)))
        # misuse
        bad = [(s, args[:np] + ['ev(90)'] + args[np:], 'one positional argument too many'), (s, args + ['zz = ev(91)'], 'an unused named argument')]
        imp = sum(1 for p in pieces if p[0] == 'arg' and p[1] is None)
        if np: bad.append((s, args[:np - 1] + args[np:], 'one positional argument missing'))
        bad.append((s + '{%d}' % np, args, 'a positional reference beyond the arguments'))
        bad.append((s + '{}' * (np - imp + 1), args, 'an implicit reference beyond the arguments'))
        if names:
            bad.append((s, args[:np] + [args[np].split(' = ')[0] + ' = ev(92)'] + args[np:], 'a named argument given twice'))
            bad.append((s, args[np:] + args[:np], 'positional after named') if np else (s + '{%d}' % np, args, 'no positional arguments'))
        for bs, ba, why in (bad if deep else r.sample(bad, min(3, len(bad)))):
            o.reject(bs + ' with ' + ', '.join(ba) + ': ' + why, CAP + 'let _ = rec(stylish::format_args!(%s%s));' % (lit(bs), ''.join(', ' + a for a in ba)))
    for nm in ['missing', 'a1', 'é2']:
        o.reject('{%s} names nothing' % nm, 'let _ = rec(stylish::format_args!("{%s}"));' % nm, late=nm)
        o.reject('{%s} with %sx named' % (nm + 'y', nm), 'let _ = rec(stylish::format_args!("{%sy}{%sx}", %sx = Spy(1)));' % (nm, nm, nm), late=nm + 'y')
    for why, st in [('no placeholder, one argument', '"x", Spy(1)'), ('no placeholder, one named argument', '"x", a = Spy(1)'), ('one placeholder, two arguments', '"{}", Spy(1), Spy(2)'), ('one placeholder, none', '"{}"'), ('index beyond', '"{1}", Spy(1)'),
                    ('index 1 only', '"{1}", Spy(1), Spy(2)'), ('named argument given twice', '"{a}", a = Spy(1), a = Spy(2)'), ('named given twice, both used?', '"{a}{a}", a = Spy(1), a = Spy(2)'), ('implicit beyond, named present', '"{}", a = Spy(1)'), ('0 and 2 of 3', '"{0}{2}", Spy(0), Spy(1), Spy(2)'), ('positional after named', '"{a}{}", a = Spy(1), Spy(2)')]:
        o.reject(why + ': ' + st, 'let _ = rec(stylish::format_args!(%s));' % st)
    # capture rules, shadowing, types, mutation
    o.case('capture of the innermost variable', 'let a = Spy(1); { let a = Spy(2); chk(rec(stylish::format_args!("{a:s}{a}")), vec![("stylish2".into(), d()), (format!("{a}"), d())]) }')
    o.case('a named argument hides the variable', 'let a = Spy(1); chk(rec(stylish::format_args!("{a:s}{b:s}", a = Spy(2), b = a)), vec![("stylish2stylish1".into(), d())])')
    o.case('arguments are borrowed', 'let s = String::from("own"); let g = rec(stylish::format_args!("{s}{}{0}{x}", s, x = s)); chk(g, vec![(s.repeat(4), d())])')
    o.case('evaluation once, used often', 'let mut n = 0; let g = rec(stylish::format_args!("{0}{0}{0}{}{a}{a}", { n += 1; n }, a = { n += 10; n })); if n != 11 { return Err(format!("evaluated to {}", n)) } chk(g, vec![("11111111".into(), d())])')
    o.case('evaluation in order', 'let mut v = vec![]; let g = rec(stylish::format_args!("{b}{1}{0}{a}", { v.push(0); 0 }, { v.push(1); 1 }, a = { v.push(2); 2 }, b = { v.push(3); 3 })); if v != [0, 1, 2, 3] { return Err(format!("{:?}", v)) } chk(g, vec![("3102".into(), d())])')
    # names that are parts of one another, in every order
    parts = ['a', 'b', 'ab', 'b1', 'b10', 'aa', 'A', '_x', '_xé', 'x', 'é']
    for x, y in itertools.permutations(parts, 2):
        vx, vy = (20 + NAMES.index(n) for n in (x, y))
        st = 'd()'
        o.case('captured %s, %s' % (x, y), CAP + 'chk(rec(stylish::format_args!("{%s:s}-{%s:s}-{%s:s}", )), vec![("stylish%d-stylish%d-stylish%d".into(), d())])' % (x, y, x, vx, vy, vx))
        o.case('named %s, captured %s' % (x, y), CAP + 'chk(rec(stylish::format_args!("{%s:s}-{%s:s}-{%s:s}", %s = Spy(9))), vec![("stylish%d-stylish9-stylish%d".into(), d())])' % (y, x, y, x, vy, vy))
        o.case('named %s and %s' % (x, y), CAP + 'chk(rec(stylish::format_args!("{%s:s}-{%s:s}", %s = Spy(8), %s = Spy(9))), vec![("stylish9-stylish8".into(), d())])' % (y, x, x, y))
    # names spelled raw, names that are keywords, the receiver
    for kw in ['type', 'fn', 'match', 'async', 'static', 'impl', 'try', 'union', 'a', 'r', 'x', 'é']:
        k2 = 'struct' if kw != 'a' else 'b'
        o.case('captured keyword %s' % kw, 'let r#%s = Spy(3); let r#%s = Spy(4); chk(rec(stylish::format_args!("{%s:s}{%s:s}{%s:s}")), vec![("stylish3stylish4stylish3".into(), d())])' % (kw, k2, kw, k2, kw))
        o.case('argument named r#%s' % kw, 'chk(rec(stylish::format_args!("{%s:s}{%s:s}{}{%s:s}", 0, r#%s = Spy(3), r#%s = Spy(4))), vec![("stylish4stylish30stylish4".into(), d())])' % (k2, kw, k2, kw, k2))
        o.case('argument named r#%s hides the variable' % kw, 'let r#%s = Spy(8); chk(rec(stylish::format_args!("{%s:s}{o:s}", r#%s = Spy(3), o = r#%s)), vec![("stylish3stylish8".into(), d())])' % (kw, kw, kw, kw))
        o.reject('argument named r#%s, given twice' % kw, 'let _ = rec(stylish::format_args!("{%s}", r#%s = Spy(3), r#%s = Spy(4)));' % (kw, kw, kw))
        o.reject('argument named r#%s, not used' % kw, 'let r#%s = Spy(1); let _ = rec(stylish::format_args!("{r}{%s}", r#%sx = Spy(3), r = 1));' % (kw, kw, kw))
    o.reject('a name given raw and plain', 'let _ = rec(stylish::format_args!("{a}", r#a = Spy(3), a = Spy(4)));')
    for how, body in [('by value', 'm(self)'), ('by reference', 'm(&self)')]:
        for what, call in [('', '%s'), (' in a closure', '(|| %s)()')]:
            o.case('the receiver %s%s' % (how, what), 'trait T { fn %s -> R; } impl T for Spy { fn %s -> R { %s } } Spy(4).m()' % (body, body, call % 'chk(rec(stylish::format_args!("{self:s}-{x}-{self:s}", x = self.0)), vec![("stylish4-4-stylish4".into(), d())])'))
    o.case('the receiver beside captured variables', 'trait T { fn m(self, a: u8) -> R; } impl T for Spy { fn m(self, a: u8) -> R { let b = 2; chk(rec(stylish::format_args!("{b}{self:s}{a}{self:s}{}", b)), vec![("2stylish41stylish42".into(), d())]) } } Spy(4).m(1)')
    o.reject('the receiver where there is none', 'let _ = rec(stylish::format_args!("{self}"));', late='self')
    for kw in ['super', 'crate', 'Self', '_', 'type', 'true']:
        o.reject('{%s} is not a variable' % kw, 'let _ = rec(stylish::format_args!("{%s}"));' % kw, **({'late': 'r#' + kw} if kw in ('type', 'true') else {}))
    # many arguments, large indices
    for n in [11, 13, 33, 101, 257, 258] + ([1025] if deep else []):
        vals = ', '.join('%du32' % i for i in range(n))
        picks = sorted({0, 1, 9, 10, n // 2, n - 2, n - 1} | ({99, 100} & set(range(n))) | ({254, 255, 256} & set(range(n))))
        f = ''.join('{}' for _ in range(n)) + '|' + ','.join('{%d}' % p for p in picks)
        want = ''.join(str(i) for i in range(n)) + '|' + ','.join(str(p) for p in picks)
        o.case('%d positional arguments, then %s' % (n, picks), 'chk(rec(stylish::format_args!(%s, %s)), vec![(%s.into(), d())])' % (lit(f), vals, lit(want)))
        if n < 40:
            f = ','.join('{n%d}' % i for i in reversed(range(n)))
            o.case('%d named arguments' % n, 'chk(rec(stylish::format_args!(%s, %s)), vec![(%s.into(), d())])' % (lit(f), ', '.join('n%d = %du32' % (i, i) for i in range(n)), lit(','.join(str(i) for i in reversed(range(n))))))
            o.case('%d captured variables' % n, 'let (%s) = (%s); ' % (', '.join('n%d' % i for i in range(n)), ', '.join('%du32' % i for i in range(n))) + 'chk(rec(stylish::format_args!(%s)), vec![(%s.into(), d())])' % (lit(f + '{n0}'), lit(','.join(str(i) for i in reversed(range(n))) + '0')))
    for n in ['2', '10', '16', '32', '64', '100', '255', '256', '257', '512', '65535', '65536', '65537', '4294967295', '4294967296', '4294967297', '18446744073709551615', '18446744073709551616', '36893488147419103232']:
        o.reject('index %s of two arguments' % n, 'let _ = rec(stylish::format_args!("{0}{1}{%s}", Spy(1), Spy(2)));' % n)
        o.reject('index %s of no arguments' % n, 'let _ = rec(stylish::format_args!("{%s}"));' % n)
    o.case('leading zeros', 'chk(rec(stylish::format_args!("{00}{01}{000}{}", 5u8, 6u8)), vec![("5655".into(), d())])')
    # what counts as an argument expression
    for why, a, want in [('comparison', '1 == 1', 'true'), ('less or equal', '1 <= 2', 'true'), ('block', '{ 3 }', '3'), ('if', 'if true { 4 } else { 5 }', '4'), ('match', 'match 1 { 1 => 6, _ => 7 }', '6'),
                         ('closure call', '(|x: i32| x + 1)(7)', '8'), ('macro', 'format!("{},{}", 1, 2)', '1,2'), ('cast', '300u32 as u8', '44'), ('turbofish', 'Vec::<u8>::new().len()', '0'), ('index', '[4, 5][1]', '5'),
                         ('reference', '&9', '9'), ('negation', '-3', '-3'), ('path', 'u8::MAX', '255'), ('range', '(1..3).len()', '2'), ('parenthesised', '((2))', '2'), ('method', '"ab".len()', '2'), ('char', "'='", '='), ('string', '"{}"', '{}')]:
        o.case('positional: ' + why, 'chk(rec(stylish::format_args!("{}{0}", %s)), vec![(%s.into(), d())])' % (a, lit(want * 2)))
        o.case('positional after a literal: ' + why, 'chk(rec(stylish::format_args!("{1}{0}", 0, %s,)), vec![(%s.into(), d())])' % (a, lit(want + '0')))
        o.case('named: ' + why, 'chk(rec(stylish::format_args!("{v}{}{v}", 0, v = %s)), vec![(%s.into(), d())])' % (a, lit(want + '0' + want)))
    o.case('an assignment to a place is positional', 'let mut v = [1, 2]; let g = rec(stylish::format_args!("{:?}", v[0] = 7)); if v[0] != 7 { return Err(format!("{:?}", v)) } chk(g, vec![("()".into(), d())])')
    o.case('a parenthesised assignment is positional', 'let mut a = 1; let g = rec(stylish::format_args!("{:?}", (a = 7))); if a != 7 { return Err(format!("{:?}", a)) } chk(g, vec![("()".into(), d())])')
    o.case('a compound assignment is positional', 'let mut a = 1; let g = rec(stylish::format_args!("{:?}", a += 7)); if a != 8 { return Err(format!("{:?}", a)) } chk(g, vec![("()".into(), d())])')
    o.case('twelve positional', 'chk(rec(stylish::format_args!("{}{}{}{}{}{}{}{}{}{}{}{}{11}{10}{3}", 0,1,2,3,4,5,6,7,8,9,10,11)), vec![("0123456789101111103".into(), d())])')
    o.case('mixed implicit and numbered', 'chk(rec(stylish::format_args!("{1}{}{0}{}{2}{a}{}", 0, 1, 2, a = 9)), vec![("1001292".into(), d())])')

def c15(o, r, deep):
    def one(attrs, trail, t, ref=''):
        sp = dict(align='', sign='', alt=False, zero=False, width=None, prec=None, attrs=attrs, trait=t, trail=trail, paren=True)
        f = 'p' + placeholder(ref, sp) + 'q'
        e = expected([('lit', 'p'), ('arg', 0, sp), ('lit', 'q')], 'st', lambda k: 'Spy(3)')
        o.case(f, 'for st in around() { chk(rec_in(st, stylish::format_args!(%s, Spy(3))), %s).map_err(|e| format!("within {:?}: {}", st, e))? } Ok(())' % (lit(f), e))
    one([], False, ''); one([], False, 's')
    for a in ATTRS:
        for t in ['', 's', '?']: one([a], r.random() < .5, t)
    for a, b in itertools.product(ATTRS, ATTRS):
        if deep or r.random() < .9: one([a, b], r.random() < .3, r.choice(['', 's', 'x?']))
    for _ in range(1500 if deep else 260): one([r.choice(ATTRS) for _ in range(r.choice([3, 3, 4, 6]))], r.random() < .3, r.choice(['', 's']))
    # the same colour twice over
    for c in sorted({a[3:] for a in ATTRS if a.startswith('fg=')}):
        for i in sorted(a for a in ATTRS if '=' not in a):
            ps = list(itertools.permutations(['fg=' + c, 'bg=' + c, i]))
            for q in (ps if deep else r.sample(ps, 2)): one(list(q), r.random() < .3, r.choice(['', 's']))
        for q in [['fg=' + c, 'bg=' + c, 'fg=' + c], ['bg=' + c, 'fg=' + c, 'bg=default'], ['fg=' + c, 'fg=default', 'bg=' + c]]: one(q, False, 's')
    for k in range(200 if deep else 60):
        # nested arguments and several placeholders: styles end with their argument
        s1, s2, s3 = (dict(align='', sign='', alt=False, zero=False, width=None, prec=None, attrs=[r.choice(ATTRS) for _ in range(r.randrange(3))], trait='s') for _ in range(3))
        inner = 'i' + placeholder('', s2) + 'j' + placeholder('', s3)
        f = 'x' + placeholder('', s1) + 'y' + placeholder('', s3) + 'z'
        st1 = with_attrs('st', s1['attrs'])
        e = 'vec![("x".into(), st), ("i".into(), %s), ("stylish1".into(), %s), ("j".into(), %s), ("stylish2".into(), %s), ("y".into(), st), ("stylish4".into(), %s), ("z".into(), st)]' % (st1, with_attrs(st1, s2['attrs']), st1, with_attrs(st1, s3['attrs']), with_attrs('st', s3['attrs']))
        o.case(f + ' around ' + inner, 'for st in around() { chk(rec_in(st, stylish::format_args!(%s, stylish::format_args!(%s, Spy(1), Spy(2)), Spy(4))), %s).map_err(|e| format!("within {:?}: {}", st, e))? } Ok(())' % (lit(f), lit(inner), e))
    o.case('the same as restyling in code', 'for st in around() { let a = rec_in(st, stylish::format_args!("{:(fg=red,bg=default,bold)s}", Spy(1))); let b = rec_in(st.with((Foreground(Color::Red), Background(Color::Default), Intensity::Bold)), stylish::format_args!("{:s}", Spy(1))); if a != b { return Err(format!("{:?} {:?}", a, b)) } } Ok(())')

def c16(o, r, deep):
    for k in range(220 if deep else 70):
        s = ''
        n = r.choice([0, 1, 2, 3])
        for i in range(n): s += r.choice(['', 'a', '{{', '<', '\n']) + placeholder('', rspec(r, ['', '?', 's', 'x?']))
        s += r.choice(['', 'end', '}}', '&', '\n', '\n\n', ' ', '{{\n', '\r\n'])
        a = ''.join(', Spy(%d)' % i for i in range(n))
        L = lit(s)
        if r.random() < .4:
            i = r.randrange(len(s) + 1)
            L = r.choice(['concat!(%s, %s)', 'concat!(concat!(%s), %s)', 'concat!(%s, %s,)']) % (lit(s[:i]), lit(s[i:]))
        if r.random() < .3: a += ', '
        fa = 'stylish::format_args!(%s%s)' % (L, a)
        b = ''
        for be, m, fin in [('ansi', 'to_ansi_string', 'w.finish().map_err(|e| e.to_string())?'), ('html', 'to_html_string', 'w.finish().map_err(|e| e.to_string())?'), ('plain', 'to_plain_string', 'w.into_inner()')]:
            b += '{ let a = stylish::%s::format!(%s%s); ' % (be, L, a)
            b += 'let v = [("format", stylish::%s::format(%s)), ("to-string", %s.%s()), ("write and finish", { let mut w = stylish::%s(String::new()); stylish::write!(w, %s%s).map_err(|e| e.to_string())?; %s }), ("styled string", stylish::format!(%s%s).%s())]; ' % (be, fa, fa, m, be, L, a, fin, L, a, m)
            b += 'for (n, x) in &v { if *x != a { return Err(format!("%s: {} gives {:?}, the format macro {:?}", n, x, a)) } } ' % be
            b += 'let l = { let mut w = stylish::%s(String::new()); stylish::writeln!(w, %s%s).map_err(|e| e.to_string())?; %s }; ' % (be, L, a, fin)
            b += 'let l2 = { let mut w = stylish::%s(String::new()); stylish::write!(w, %s%s).map_err(|e| e.to_string())?; stylish::Write::write_str(&mut w, "\\n", d()).map_err(|e| e.to_string())?; %s }; ' % (be, L, a, fin)
            b += 'if l != l2 { return Err(format!("%s: writeln gives {:?}, expected {:?}", l, l2)) } ' % be
            if be != 'html':
                f2 = fin
                b += 'let i = { let mut w = stylish::io::%s(Vec::new()); stylish::write!(w, %s%s).map_err(|e| e.to_string())?; %s }; if i != a.as_bytes() { return Err(format!("%s: the IO writer gives {:?}, the format macro {:?}", String::from_utf8_lossy(&i), a)) } ' % (be, L, a, f2, be)
            b += '} '
        b += 'for st in around() { let mut w = Rec(vec![]); let l = Ln(st); stylish::Write::write_fmt(&mut w, stylish::Arguments { f: &|f| { let mut g = f.with(st); stylish::writeln!(g, %s%s) } }).map_err(|e| e.to_string())?; let mut e = rec_in(st, %s); e.push((\'\\n\', st)); if w.0 != e { return Err(format!("writeln within {:?} gives {:?}, expected {:?}", st, w.0, e)) } } ' % (L, a, fa)
        o.case(s, b + 'Ok(())')
    o.case('writeln of nothing', 'for st in around() { let mut w = Rec(vec![]); stylish::Write::write_fmt(&mut w, stylish::Arguments { f: &|f| { let mut g = f.with(st); stylish::writeln!(g)?; stylish::writeln!(g,) } }).map_err(|e| e.to_string())?; if w.0 != [(\'\\n\', st), (\'\\n\', st)] { return Err(format!("{:?}", w.0)) } } Ok(())')

def main():
    prop, seed, tier, d = sys.argv[1:5]
    import os
    pre = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.rs')).read() + 'struct Ln(Style);'
    o = Out()
    {'C10': c10, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16}[prop](o, random.Random(int(seed)), tier == 'thorough')
    o.write(d, pre)
    print(len(o.cases), len(o.rej), len(o.rej2))
if __name__ == '__main__': main()
