"""Abstract rendering of jinja templates."""
import ast
import re

from pyval import *

TOK = re.compile(r'(\{\{.*?\}\}|\{%.*?%\}|\{#.*?#\})', re.S)


def parse(text, opts):
    trim = opts.get('trim_blocks') is True
    lstrip = opts.get('lstrip_blocks') is True
    toks = TOK.split(text)
    out = []
    for i, t in enumerate(toks):
        if i % 2 == 0:
            prev = toks[i - 1] if i else ''
            nxt = toks[i + 1] if i + 1 < len(toks) else ''
            if prev[-3:] in ('-}}', '-%}', '-#}'):
                t = t.lstrip()
            elif trim and prev.startswith('{%') and t.startswith('\n'):
                t = t[1:]
            if nxt[:3] in ('{{-', '{%-', '{#-'):
                t = t.rstrip()
            elif lstrip and nxt[:2] in ('{%', '{#'):
                t = re.sub(r'[ \t]*\Z', '', t) if re.search(r'(^|\n)[ \t]*\Z', t) else t
            # a single trailing newline is removed
            if i == len(toks) - 1 and opts.get('keep_trailing_newline') is not True and t.endswith('\n'):
                t = t[:-1]
            if t:
                out.append(('text', t))
        elif t.startswith('{#'):
            continue
        else:
            body = t[2:-2].strip().strip('-+').strip()
            out.append(('expr' if t.startswith('{{') else 'stmt', body))
    return out


def block(toks, i, ends):
    nodes = []
    while i < len(toks):
        k, v = toks[i]
        if k == 'stmt':
            w = v.split(None, 1)[0]
            if w in ends:
                return nodes, i
            if w == 'for':
                m = re.match(r'for\s+(.*?)\s+in\s+(.*?)(?:\s+if\s+(.*))?$', v, re.S)
                body, j = block(toks, i + 1, ('endfor', 'else'))
                els = []
                if toks[j][1].split()[0] == 'else':
                    els, j = block(toks, j + 1, ('endfor',))
                nodes.append(('for', m.group(1), m.group(2), m.group(3), body, els))
                i = j + 1
                continue
            if w == 'if':
                arms, els = [], []
                cond = v.split(None, 1)[1]
                while True:
                    body, j = block(toks, i + 1, ('elif', 'else', 'endif'))
                    arms.append((cond, body))
                    e = toks[j][1]
                    if e.startswith('elif'):
                        cond = e.split(None, 1)[1]
                        i = j
                        continue
                    if e.startswith('else'):
                        els, j = block(toks, j + 1, ('endif',))
                    i = j + 1
                    break
                nodes.append(('if', arms, els))
                continue
            if w == 'set':
                m = re.match(r'set\s+(\w+)\s*=\s*(.*)$', v, re.S)
                nodes.append(('set', m.group(1), m.group(2)))
                i += 1
                continue
            if w in ('raw', 'endraw'):
                i += 1
                continue
            raise ValueError('template statement not supported: ' + v)
        nodes.append((k, v))
        i += 1
    return nodes, i


def render(ip, text, env, opts, rel):
    from pyabs import Frame
    try:
        nodes, _ = block(parse(text, opts), 0, ())
    except (ValueError, AttributeError, IndexError) as e:
        ip.unknown_nodes.add(('template', rel, str(e)[:80]))
        return mkstr([OpS('template', rel)])
    mod = next(iter(ip.modules.values()))

    class M:
        pass
    m = M()
    m.relpath, m.name, m.frame = rel, rel, None
    fr = Frame('func', None, m)
    m.frame = fr
    for k, v in env.items():
        if k != '**':
            ip.put(fr.id, k, v)

    def expr(e):
        filters = []
        # name | filter (not inside brackets or strings)
        depth, cur, parts, q = 0, '', [], None
        for c in e:
            if q:
                cur += c
                if c == q:
                    q = None
                continue
            if c in '\'"':
                q = c
            if c in '([{':
                depth += 1
            if c in ')]}':
                depth -= 1
            if c == '|' and depth == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += c
        parts.append(cur)
        main = re.sub(r'\bis defined\b', 'is not None', parts[0].strip())
        tree = ast.parse(main.replace('~', '+'), mode='eval').body
        v = ev(tree)
        for f in parts[1:]:
            f = f.strip()
            name = re.match(r'\w+', f).group(0)
            args = []
            if '(' in f:
                args = [ev(a) for a in ast.parse(f, mode='eval').body.args]
            if name in ('length', 'count'):
                v = ip.ext.x_len([v], {})
            elif name == 'join':
                v = ip.ext.join(args[0] if args else '', v)
            elif name in ('upper', 'lower', 'title', 'trim'):
                v = ip.ext.str_meth(v, {'trim': 'strip'}.get(name, name), [], {}) if isinstance(v, (str, Str)) else v
            elif name == 'last':
                v = ip.getitem(v, -1)
            elif name == 'first':
                v = ip.getitem(v, 0)
            elif name in ('int', 'float', 'round'):
                v = ip.ext.call_ext(name, [v] + args, {})
            elif name == 'format':
                v = ip.ext.percent(v, tuple(args))
            elif name in ('safe', 'string'):
                pass
            else:
                v = Sym('call', 'jinja.' + name, (ip.freeze(v),), ())
        return v

    def ev(tree):
        # attribute access falls back to items, names may be undefined
        class T(ast.NodeTransformer):
            pass
        if isinstance(tree, ast.Attribute):
            b = ev(tree.value)
            if isinstance(b, Obj) and b.kind == 'dict':
                return ip.getitem(b, tree.attr)
            return ip.getattr(b, tree.attr)
        if isinstance(tree, ast.Name) and ip.lookup(tree.id, fr) is UNDEF:
            return {'true': True, 'false': False, 'none': None, 'range': External('range')}.get(tree.id, '')
        if isinstance(tree, ast.Subscript):
            return ip.getitem(ev(tree.value), ev(tree.slice))
        if isinstance(tree, ast.BinOp):
            from pyabs import OPS
            return ip.binop(OPS[type(tree.op)], ev(tree.left), ev(tree.right))
        if isinstance(tree, ast.Call):
            f = ev(tree.func) if not isinstance(tree.func, ast.Attribute) else ip.getattr(ev(tree.func.value), tree.func.attr)
            return ip.call(f, [ev(a) for a in tree.args], {k.arg: ev(k.value) for k in tree.keywords})
        return ip.ev(tree, fr)

    def truth(e):
        v = expr(e)
        return ip.truth(v)

    def bind(target, v):
        names = [x.strip() for x in target.strip('() ').split(',')]
        if len(names) == 1:
            ip.put(fr.id, names[0], v)
        else:
            for n, x in zip(names, ip.unpack(v, len(names))):
                ip.put(fr.id, n, x)

    def run(nodes):
        parts = []
        for n in nodes:
            if n[0] == 'text':
                parts.append(n[1])
            elif n[0] == 'expr':
                parts += parts_of(ip.tostr(expr(n[1])))
            elif n[0] == 'set':
                ip.put(fr.id, n[1], expr(n[2]))
            elif n[0] == 'if':
                done, alts = False, []
                for cond, body in n[1]:
                    t, c = truth(cond)
                    if t is True:
                        alts.append(run(body))
                        done = True
                        break
                    if t is None:
                        alts.append(run(body))
                if not done:
                    alts.append(run(n[2]))
                parts.append(mkstr([AltS(alts)]) if len(alts) > 1 else alts[0])
            elif n[0] == 'for':
                segs = ip.iter_segs(expr(n[2]))
                if not segs:
                    parts.append(run(n[5]))
                    continue
                allitems = all(s[0] == 'item' for s in segs)

                def each(s, i):
                    if s[0] == 'item':
                        bind(n[1], s[1])
                        d = {'first': i == 0 if allitems else Sym('top', 'first'), 'last': i == len(segs) - 1 if allitems else Sym('top', 'last'),
                             'index0': i if allitems else Sym('idx', 0), 'index': i + 1 if allitems else Sym('bin', '+', Sym('idx', 0), 1),
                             'length': len(segs) if allitems else Sym('count', 0)}
                        ip.put(fr.id, 'loop', ip.new_dict(list(d.items())))
                        if n[3]:
                            t, c = truth(n[3])
                            if t is False:
                                return ''
                            if t is None:
                                return mkstr([AltS(['', run(n[4])])])
                        return run(n[4])
                    if s[0] == 'rep':
                        body = mkstr([each(x, i) for x in s[1]])
                        return mkstr([RepS(body, '', s[2], s[3])])
                    if s[0] == 'alt':
                        return mkstr([AltS([mkstr([each(x, i) for x in a]) for a in s[1]])])
                    return mkstr([OpS('elements', str(s))])
                for i, s in enumerate(segs):
                    parts.append(each(s, i))
        return mkstr(parts)
    r = run(nodes)
    for k in [k for k in ip.S.h if k[0] == fr.id]:
        del ip.S.h[k]
    return r
