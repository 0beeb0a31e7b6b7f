"""Shared views of the C library: modules per configuration, the library's own functions."""
import os, re
import cc, cir, report

CONFIGS = {
    'default': (),
    'log': ('EML_LOG_ENABLE=1',),
    'debug': ('EML_DEBUG=1',),
    'trace': ('EML_LOG_ENABLE=1', 'EML_NEIGHBORS_LOG_LEVEL=9', 'EML_DEBUG=1'),
}
_mods = {}

def module(config='default', lang='c', passes=None, target=None, hdrs=None, extra='', std=None, inline=False):
    key = (config, lang, passes, target, tuple(hdrs or ()), extra, std, inline)
    if key not in _mods:
        _mods[key] = cir.Module(cc.compile_ir(cc.tu(hdrs, extra), CONFIGS[config] + log_levels(config), passes=passes, lang=lang, target=target,
                                              std=std or ('gnu99' if lang == 'c' else 'gnu++11'), inline=inline))
    return _mods[key]

def log_levels(config):
    """in the trace configuration every *_LOG_LEVEL/_TRACE style switch that the headers test is switched on"""
    if config != 'trace':
        return ()
    out = []
    for s in switches():
        out.append(s + '=9')
    return tuple(out)

def switches():
    """names tested by the preprocessor that look like logging/debug switches (EML_*LOG*, *_DEBUG, *_TRACE)"""
    out = set()
    for h in cc.headers():
        txt = open(os.path.join(cc.INC, h)).read()
        for m in re.finditer(r'^\s*#\s*(?:if|ifdef|ifndef|elif)\b(.*)$', txt, re.M):
            for n in re.findall(r'\b[A-Z][A-Z0-9_]+\b', m.group(1)):
                if re.search(r'(^|_)(LOG|DEBUG|TRACE|VERBOSE)(_|$)', n) and not n.endswith('_H') and n not in ('EML_LOG_ENABLE', 'EML_DEBUG') \
                        and n not in ('EML_LOG_PRINTF',):
                    out.add(n)
    return sorted(out)

def own(mod, skip=()):
    """the functions that the repository's headers define"""
    out = []
    for f in mod.functions.values():
        fil, line = mod.fn_decl(f)
        p = os.path.abspath(fil) if fil else ''
        if p.startswith(cc.INC + os.sep) or re.search(r'(^|/)emlearn/eml_\w+\.h$', fil or ''):
            base = os.path.basename(fil)
            if base not in skip:
                out.append((base, f))
    if len(out) < 60:
        raise report.Lost('only %d library functions found' % len(out))
    return out

def where(mod, ins, f=None):
    fil, line, fn = mod.loc(ins.dbg)
    return '%s:%s (%s)' % (os.path.basename(fil or '?'), line, fn if fn != '?' else (f.name if f else '?'))

def members(mod, tname):
    """{byte offset: field name} of the struct with this (typedef) name, from debug information"""
    for mid, t in mod.meta.items():
        if 'DICompositeType' in t or 'DIDerivedType' in t and 'DW_TAG_typedef' in t:
            if mod._mfield(t, 'name') == tname:
                cur = t
                k = 0
                while 'DICompositeType' not in cur and k < 10:
                    b = mod._mfield(cur, 'baseType')
                    if b is None or b not in mod.meta:
                        return {}
                    cur = mod.meta[b]
                    k += 1
                if 'DW_TAG_structure_type' not in cur:
                    continue
                el = mod._mfield(cur, 'elements')
                out = {}
                for r in re.findall(r'!(\d+)', mod.meta.get(el, '')):
                    mt = mod.meta[r]
                    if 'DW_TAG_member' in mt:
                        out[int(mod._mfield(mt, 'offset') or 0) // 8] = mod._mfield(mt, 'name')
                return out
    return {}
