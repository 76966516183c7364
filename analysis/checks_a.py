"""Whole-program queries: effects (C04), observer isolation (C02), float configuration (C23),
auto-trait witnesses (C24), recursion (C25)."""
import os, subprocess, tempfile, shutil, re, json
from common import *
from graph import *
from engine import *

# ------------------------------------------------------------------------ C04
# std modules whose functions depend on their arguments only
PURE = re.compile(r'^(std|core|alloc)::(vec|slice|option|result|iter|ops|cmp|convert|clone|default|mem|ptr|boxed|num|string|str|char|fmt|borrow|'
                  r'array|ascii|marker|hint|panicking|intrinsics|f64|f32|usize|u32|u8|i32|i64|u64|u16|i8|bool|primitive|error|tuple|hash|'
                  r'cell|any|rc|unicode|range|alloc|primitives|impls|collections)\b')
IO = re.compile(r'^(std|core|alloc)::(fs|io|net|os|path)\b')
DENY = [
    (re.compile(r'^(std|core)::(time|env|thread|process|sync|backtrace|net|os)\b'), 'ambient state'),
    (re.compile(r'RandomState|hash::random|DefaultHasher'), 'randomised hashing'),
    (re.compile(r'^(std|core)::(io|io::stdio)::(_print|_eprint|stdin|stdout|stderr|Stdin|Stdout|Stderr)'), 'console I/O'),
    (re.compile(r'(^|::)(rand|getrandom|fastrand|oorandom)::'), 'randomness'),
    (re.compile(r'thread::local|LocalKey'), 'thread-local state'),
    (re.compile(r'fmt::Pointer|new_pointer'), 'address printed'),
    (re.compile(r'::(expose_provenance|expose_addr|addr)$'), 'address observed'),
    (re.compile(r'^<\*(const|mut) .* as std::(cmp::(Ord|PartialOrd)|hash::Hash)>::|::<impl std::(cmp::(Ord|PartialOrd)|hash::Hash) for \*(const|mut) '), 'address observed'),
    (re.compile(r'any::(type_name|TypeId)|type_id$'), 'type identity observed'),
    (re.compile(r'(available_parallelism|current_dir|args_os|temp_dir)'), 'ambient state'),
    (re.compile(r'intrinsics::(volatile|atomic|ptr_offset_from|const_eval_select|caller_location)'), 'volatile or atomic access'),
    (re.compile(r'Location::<.*caller|panic::Location'), 'caller location observed'),
]
FILE_READ_OK = re.compile(r'^std::fs::(File::(options|open)|OpenOptions::(new|read|open)|read_to_string|read)$|'
                          r'^<std::fs::(File|OpenOptions) as std::(io::Read|clone::Clone|default::Default)>::|'
                          r'^<&?(\'a )?std::fs::File as std::io::Read>::|'
                          r'^std::io::(Read|BufRead)::(read_to_string|read_to_end|lines|read_line|bytes|read|read_exact|by_ref|take)$|'
                          r'^std::io::(BufReader|buffered::bufreader::BufReader|Lines|buffered::Lines|error::Error|Error)\b|^<std::io::.* as std::(iter::Iterator|io::Read|io::BufRead|convert::|fmt::|error::)')


def split_impl(path):
    """the type/module paths a callee path mentions, outermost first"""
    m = re.match(r'^<(.*) as (.*?)>::(\w+)$', path)
    if m:
        return [m.group(2), m.group(1)]
    return [re.sub(r'^<', '', path)]


def classify(path, crate):
    for rx, why in DENY:
        if rx.search(path):
            return 'deny', why
    heads = split_impl(path)
    if any(IO.search(h.lstrip('&').lstrip("'a ")) for h in heads) or re.search(r'std::(fs|io)::', path) and not path.startswith(('std::convert', '<', 'std::fmt', 'std::result', 'std::option')):
        if FILE_READ_OK.search(path):
            return 'read', ''
        if re.search(r'std::io::(Error|error)', path):
            return 'pure', ''
        return 'io', 'file or device access'
    if crate in ('core', 'alloc', 'std', 'poly2tri_rs', 'robust', 'thiserror', 'vmodels', None):
        return 'pure', ''
    return 'unknown', 'crate %s' % crate


def c04():
    c = Check('C04', 'Effect analysis over the call graph of the type-checked program: every call reachable from an exported function must be to a '
              'routine whose effect class is pure; file reads are allowed only below the loader and only on its own path argument; no mutable or '
              'interior-mutable static, thread-local, address observation, hash-order iteration, foreign call or inline assembly.',
              ['std/core/alloc, robust and thiserror routines have the effects their module documents', 'methods of caller-supplied types (data, iterators, observers) are the caller\'s own'])
    p = prog()
    roots = [f['id'] for f in p.fns if f.get('body') and (f.get('exported') or f.get('reachable') or f.get('trait'))]
    allr = reach(p, roots)
    c.count('exported_entry_points', len(roots))
    c.count('functions_reached', len(allr))
    iofns = defaultdict(list)
    for i in sorted(p.bodies):
        b = p.bodies[i]
        for n, cal, t, bl in call_sites(p, b):
            c.count('call_sites')
            path = callee_path(cal)
            if cal.get('kind') in ('virtual', 'unresolved'):
                c.count('caller_supplied_calls')
                if cal.get('kind') == 'unresolved' and not (cal.get('trait') or ''):
                    c.und('effect of a call', where(bl['sp'], b['path']), path)
                continue
            if cal.get('kind') == 'ptr':
                c.und('effect of an indirect call', where(bl['sp'], b['path']), 'function pointer')
                continue
            cls, why = classify(path, cal.get('rcrate'))
            if b['crate'] != 'poly2tri_rs' and cls == 'deny' and 'intrinsics' in path:
                cls = 'pure'
            if cls == 'deny':
                c.bad('effect of %s' % path, where(bl['sp'], b['path']), why)
            elif cls == 'io':
                c.bad('effect of %s' % path, where(bl['sp'], b['path']), 'access other than reading a file')
            elif cls == 'unknown':
                c.und('effect of a call', where(bl['sp'], b['path']), path + ' ' + why)
            else:
                if cls == 'read':
                    iofns[i].append((path, bl['sp'], n))
                c.ok('effect of a call: ' + path, where(bl['sp'], b['path']))
            # iteration over hash containers
            if re.search(r'collections::(hash|Hash)', path) and re.search(r'::(iter|iter_mut|keys|values|values_mut|drain|into_iter|retain|into_keys|into_values|extract_if)$', path):
                c.bad('hash order observed', where(bl['sp'], b['path']), path)
        # casts that observe addresses
        if b['crate'] == 'poly2tri_rs':
            for n, bl in enumerate(b['blocks']):
                if bl['cl']:
                    continue
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'cast':
                        kind = s[2][1]
                        c.count('casts')
                        tk, fk = p.types[s[2][3]]['k'], p.types[s[2][4]]['k']
                        if 'ExposeProvenance' in kind or 'ExposeAddress' in kind or (kind.startswith('Transmute') and fk in ('ptr', 'ref', 'fnptr') and tk in ('uint', 'int')):
                            c.bad('address observed', where(s[-1], b['path']), kind)
                    if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Eq', 'Ne') and p.types[s[2][4]]['k'] in ('ptr', 'fnptr'):
                        c.bad('address compared', where(s[-1], b['path']), s[2][1])
                if bl['t'][0] == 'asm':
                    c.bad('inline assembly', where(bl['sp'], b['path']), '')
    # statics
    for it in p.items:
        if it['kind'].startswith('Static') or it['kind'] == 'static' or it['kind'].startswith('ForeignMod') or it['kind'].startswith('ForeignStatic'):
            ty = it.get('ty')
            mut = it.get('mut') or 'Mut' in it['kind'] and 'Not' not in it['kind']
            inter = False
            if ty is not None and ty >= 0:
                inter = not p.types[ty].get('freeze', True) or any((p.types[x].get('path') or '').startswith(('std::cell', 'std::sync', 'std::thread')) for x in type_closure(p, ty))
            if mut or inter:
                c.bad('global mutable state', where(it['span'], it['path']), it['kind'])
            else:
                c.ok('static is immutable', where(it['span'], it['path']))
    c.count('items', len(p.items))
    # who can reach the file system
    for f in p.fns:
        if not f.get('body'):
            continue
        r = reach(p, [f['id']])
        hit = [i for i in r if i in iofns]
        if not hit:
            c.ok('no I/O below %s' % f['path'])
            continue
        if f['path'].startswith('loader::') or 'loader::' in f['path']:
            c.ok('file access below the loader: ' + f['path'], where(f['span']))
        else:
            c.bad('I/O outside the loader', where(f['span'], f['path']), ', '.join(iofns[hit[0]][0][0:1]))
    # the loader opens the file it was given, and nothing else: every path argument of an open call
    # derives from a parameter, checked by def-use chains up to the public entry
    for f in p.fns:
        if not f.get('body') or f.get('trait') != 'loader::Loader':
            continue
        opened = []

        def hook_open(ctx, k):
            opened.append((ctx.args[k], ctx.where()))
            return NotImplemented
        hooks = {}
        for nm, k in (('std::fs::OpenOptions::open', 1), ('std::fs::File::open', 0), ('std::fs::read_to_string', 0), ('std::fs::read', 0)):
            hooks[nm] = (lambda k: (lambda ctx: hook_open(ctx, k)))(k)
        e = Engine(p, hooks=hooks)
        try:
            args, mem = e.sym_args(f['body'])
            e.run(f['body'], args, mem)
        except Undecided as u:
            if not opened:
                c.und('path opened by the loader', where(f['span'], f['path']), str(u))
                continue
        params = set()
        for a, ti in zip(args, f['body']['locals'][1:]):
            if p.ty_s(ti) in ('&str', '&std::path::Path') or 'Path' in p.ty_s(ti):
                params.add(repr(a))
                if a[0] == 'r':
                    params.add(repr(mem.get(a[1])))
        for a, w in opened:
            c.expect(repr(a) in params or (a[0] == 'r' and repr(a) in params), 'the file opened is the file named by the caller', w, show(a))
        if not opened:
            c.und('path opened by the loader', where(f['span'], f['path']), 'no open call found')
    return c.finish()


# ------------------------------------------------------------------------ C25
def baseline_edges():
    out = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'known: property=C25 key=(\S+)->(\S+) (.*)', l.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


_S = '&mut sweeper::Sweeper'
_F = (_S, 'points::PointId', 'points::PointId', '&sweeper::ConstrainedEdge', 'triangles::TriangleId', 'points::PointId', '&mut std::vec::Vec<triangles::TriangleId>')
RECURSIVE_SIGS = [
    ('fill_basin_req$', ((_S, 'advancing_front::NodeId', '&sweeper::Basin', '&mut dyn cdt::Observer'), 'std::option::Option<()>')),
    ('concave_edge_event$', ((_S, '&sweeper::ConstrainedEdge', 'advancing_front::NodeId', '&mut dyn cdt::Observer'), '()')),
    ('(convex|below)_edge_event$', ((_S, '&sweeper::ConstrainedEdge', 'advancing_front::NodeId', '&mut dyn cdt::Observer'), 'std::option::Option<()>')),
    ('flip_scan_edge_event$', (_F[:4] + ('triangles::TriangleId', 'triangles::TriangleId', 'points::PointId', _F[6]), '()')),
    ('(flip_edge_event|edge_event_process)$', (_F, '()')),
]


OWNING = ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc')
LISTS = ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BTreeMap', 'std::collections::HashMap', 'std::collections::LinkedList')


def owned_types(c, p):
    """dropping a value does not recurse: no type owns a value of its own type"""
    drops = {re.sub(r'<.*', '', it.get('self') or it.get('path', '')) for it in p.items if it.get('trait') == 'std::ops::Drop'}

    def owns(i):
        t = p.types[i]
        out = []
        if t['k'] == 'adt':
            for v in t.get('variants') or []:
                out += [(f['ty'], None) for f in v['fields']]
            if t['path'] in OWNING or t['path'] in LISTS or t['path'].startswith(('std::', 'core::', 'alloc::')):
                out += [(a, t['path']) for a in t.get('args') or [] if isinstance(a, int)]
        elif t['k'] in ('array', 'slice'):
            out.append((t['elem'], None))
        elif t['k'] == 'tuple':
            out += [(x, None) for x in t['elems']]
        elif t['k'] == 'closure':
            out += [(x, None) for x in t['upvars']]
        return [(a, via) for a, via in out if a is not None and a >= 0]
    for i, t in enumerate(p.types):
        if t['k'] != 'adt' or t.get('crate') != 'poly2tri_rs':
            continue
        c.count('types')
        seen, work, hit = set(), [(i, frozenset())], None
        while work and hit is None:
            x, via = work.pop()
            for a, v in owns(x):
                nv = via | ({v} if v else frozenset())
                if a == i:
                    hit = nv
                    break
                if (a, nv) not in seen:
                    seen.add((a, nv))
                    work.append((a, nv))
        name = 'dropping does not recurse: %s' % t['path']
        if hit is None:
            c.ok(name)
        elif hit & set(LISTS) or not hit & set(OWNING):
            c.und(name, t['path'], 'the type owns values of its own type')
        elif any(t['path'] in d for d in drops):
            c.und(name, t['path'], 'a hand-written drop')
        else:
            c.bad(name, t['path'], '%s owns one of its own kind through %s: dropping a chain recurses once per link' % (t['s'], ', '.join(sorted(hit & set(OWNING)))), key='drop:' + t['path'])


def c25():
    c = Check('C25', 'Strongly connected components of the call graph (calls through std adaptors, closures and trait objects included). A function on a cycle '
              'may recurse; each call edge on a cycle is an obligation. Functions introduced between two known functions are contracted, so that moving a '
              'recursive call into a helper does not change the finding.',
              ['robust, std and formatting routines do not call back into the library except through the closures they are given', 'calls made by observers are theirs'])
    p = prog()
    g0 = edges(p)
    nm = lambda i: re.sub(r"::<'_>|::<'a>|<'_>|<'a>", '', p.names[i]).split('::', 1)[-1] if False else p.names[i].replace("::<'_>", '').replace("::<'a>", '')
    comps = sccs(g0, sorted(p.bodies))
    rec = {x for comp in comps for x in comp}
    for i in sorted(p.bodies):
        if p.bodies[i]['crate'] == 'poly2tri_rs':
            c.count('functions')
            if i not in rec:
                c.ok('not recursive: ' + nm(i), where(p.bodies[i]['sp']))
    known = baseline_edges()
    kn = {x for e in known for x in e}
    # a known recursive function that was renamed is recognised by its signature
    strip = lambda t: re.sub(r"<'\w+>|'\w+ ", '', t)
    fsig = {f['id']: (tuple(strip(p.ty_s(x)) for x in f.get('inputs') or []), p.ty_s(f['output']) if f.get('output') is not None and f['output'] >= 0 else '') for f in p.fns}
    present = {nm(i) for i in p.bodies}
    ren = {}
    cand = [i for i in sorted(rec) if nm(i) not in kn]
    for missing in sorted(kn - present):
        fam = next((v for k, v in RECURSIVE_SIGS if re.search(k, missing)), None)
        for i in cand:
            if fam and fsig.get(i) == fam and i not in ren:
                ren[i] = missing
                break
    nm0, nm = nm, (lambda i: ren.get(i) or nm0(i))
    for comp in comps:
        cs = set(comp)
        names = {i: nm(i) for i in comp}
        inside = {i: g0[i] & cs for i in comp}
        anchors = [i for i in comp if names[i] in kn]
        # edges between anchor functions through helper functions of the component
        found = set()
        for a in anchors:
            st, seen = list(inside[a]), set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in anchors:
                    found.add((names[a], names[x]))
                else:
                    st.extend(inside[x])
        rest = [i for i in comp if i not in anchors]
        sub = {i: inside[i] & set(rest) for i in comp}
        for rc in sccs(sub, rest):
            for i in rc:
                c.bad('recursive: %s' % names[i], where(p.bodies[i]['sp']), 'cycle ' + ' -> '.join(names[x] for x in rc))
        for a, b in sorted(found):
            i = [x for x in comp if names[x] == a][0]
            # report the call site
            c.bad('recursive call %s -> %s' % (a.split('::')[-1], b.split('::')[-1]), where(p.bodies[i]['sp'], a), 'the call depth follows the input', key='%s->%s' % (a, b))
        if not anchors:
            pass
    owned_types(c, p)
    c.count('recursive_components', len(comps))
    c.count('call_edges', sum(len(v) for v in g0.values()))
    # work lists: legalization and extraction
    return c.finish()


# ------------------------------------------------------------------------ C23
def norm_types(p, f32):
    out = []
    for t in p.types:
        s = t['s']
        if f32:
            s = re.sub(r'\bf32\b', 'f64', s)
        out.append(s)
    return out


def decided(p, b):
    """{(block, statement): (value, place)}: the comparisons of a body whose operands are compile-time constants, sizes and alignments of types included"""
    import struct
    writes = {}
    for n, bl in enumerate(b['blocks']):
        for s in bl['s']:
            if s[0] == '=':
                writes[s[1][0]] = writes.get(s[1][0], 0) + 1
                if s[2][0] in ('ref', 'rawptr') and s[2][2][0] >= 0 and 'mut' in str(s[2][1]).lower():
                    writes[s[2][2][0]] = 9
        if bl['t'][0] == 'call':
            writes[bl['t'][3][0]] = writes.get(bl['t'][3][0], 0) + 1
    val, out = {}, {}
    size = {'f64': 8, 'f32': 4, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i32': 4, 'i64': 8, 'usize': 8}

    def sizeof(ti):
        t = p.types[ti]
        if t['s'] in size:
            return size[t['s']], size[t['s']]
        if t['k'] == 'array' and isinstance(t.get('len'), int):
            e = sizeof(t['elem'])
            return e and (e[0] * t['len'], e[1])
        fs = None
        if t['k'] == 'tuple':
            fs = t['elems']
        elif t['k'] == 'adt' and t.get('adt') != 'enum' and len(t.get('variants') or []) == 1:
            fs = [f['ty'] for f in t['variants'][0]['fields']]
        if fs is None:
            return None
        ls = [sizeof(f) for f in fs]
        if not all(ls):
            return None
        al = max([x[1] for x in ls] or [1])
        n = sum(x[0] for x in sorted(ls, key=lambda x: -x[1]))
        return (n + al - 1) // al * al, al

    def num(c_):
        if c_['c'] != 'int' or c_.get('ty', -1) < 0:
            return None
        t = p.types[c_['ty']]
        if t['k'] == 'float':
            return struct.unpack('<d', int(c_['v']).to_bytes(8, 'little'))[0] if t['s'] == 'f64' else struct.unpack('<f', int(c_['v']).to_bytes(4, 'little'))[0]
        return int(c_['v'])

    def op(o):
        if o[0] == 'const':
            return num(o[1])
        return val.get(o[1][0]) if not o[1][1] else None
    cmpo = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}
    ari = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y, 'Div': lambda x, y: x / y if isinstance(x, float) else x // y}
    for _ in range(3):
        for n, bl in enumerate(b['blocks']):
            if bl['cl']:
                continue
            for k, s in enumerate(bl['s']):
                if s[0] != '=':
                    continue
                r, v = s[2], None
                if r[0] == 'use':
                    v = op(r[1])
                elif r[0] == 'bin':
                    x, y = op(r[2]), op(r[3])
                    if x is not None and y is not None:
                        if r[1] in cmpo:
                            v = int(cmpo[r[1]](x, y))
                            out[n, k] = (bool(v), s[-1])
                        elif r[1] in ari and not (r[1] == 'Div' and y == 0):
                            v = ari[r[1]](x, y)
                elif r[0] == 'un':
                    x = op(r[2])
                    v = None if x is None else -x if r[1] == 'Neg' else int(not x) if r[1] == 'Not' and x in (0, 1) else None
                elif r[0] == 'cast':
                    x, k2 = op(r[2]), p.types[r[3]]['k']
                    v = None if x is None else float(x) if k2 == 'float' else int(x) if k2 in ('uint', 'int') and abs(x) < 2 ** 31 else None
                if v is not None and not s[1][1] and writes.get(s[1][0]) == 1:
                    val[s[1][0]] = v
            t = bl['t']
            if t[0] == 'call' and not t[3][1] and writes.get(t[3][0]) == 1 and t[1].get('rargs'):
                m = re.match(r'(?:std|core)::mem::(size_of|align_of|size_of_val|align_of_val|needs_drop)$', callee_path(t[1]) or '')
                sz = sizeof(t[1]['rargs'][0]) if m else None
                if sz and m.group(1) != 'needs_drop':
                    val[t[3][0]] = sz[0] if m.group(1).startswith('size') else sz[1]
    return out


def c23():
    c = Check('C23', 'The type-checked program is exported once per float configuration and compared function by function: same functions and signatures, same blocks, '
              'statements, callees and constants after replacing the coordinate type; and no function of either configuration casts between float types or '
              'between a float and an integer.', ['robust widens its arguments exactly (f32 to f64 is exact)'])
    p64 = prog()
    try:
        p32 = prog('f32')
    except BuildError as x:
        c.bad('builds with the f32 feature', 'Cargo.toml: feature f32', str(x)[-400:])
        return c.finish()
    c.ok('builds with the f32 feature')
    n64, n32 = norm_types(p64, False), norm_types(p32, True)

    def canon(p, names, x, f32, key=None):
        # types appear as integers at known positions; compare by printing the structure with types replaced
        return x
    # function tables
    def sig(p, names, f, f32):
        r = lambda s: re.sub(r'\bf32\b', 'f64', s) if f32 else s
        return (r(f['path']), f['kind'], f.get('unsafe'), tuple(names[i] for i in f.get('inputs') or []), names[f['output']] if f.get('output') is not None and f.get('output') >= 0 else None,
                f.get('exported'), f.get('reachable'))
    s64 = {sig(p64, n64, f, False)[0]: (sig(p64, n64, f, False), f) for f in p64.fns}
    s32 = {sig(p32, n32, f, True)[0]: (sig(p32, n32, f, True), f) for f in p32.fns}
    for k in sorted(set(s64) | set(s32)):
        if k not in s32 or k not in s64:
            f = (s64.get(k) or s32.get(k))[1]
            c.bad('same functions in both configurations', where(f['span'], k), 'only with%s the f32 feature' % ('out' if k in s64 else ''))
            continue
        c.expect(s64[k][0] == s32[k][0], 'same signature: ' + k, where(s64[k][1]['span']), '%s / %s' % (s64[k][0], s32[k][0]))
    r32 = lambda s: re.sub(r'\bf32\b', 'f64', s)
    it64 = {(i['path'], i['kind'], i.get('trait')) for i in p64.items}
    it32 = {(r32(i['path']), i['kind'], i.get('trait')) for i in p32.items}
    for x in sorted(it64 ^ it32, key=repr):
        c.bad('same items in both configurations', str(x[0]), str(x))
    c.ok('items compared', '', '')
    c.count('functions_compared', len(set(s64) & set(s32)))
    c.count('items_compared', len(it64 & it32))

    def lit(v, ti, p):
        t = p.types[ti] if ti >= 0 else None
        if t and t['k'] == 'float':
            import struct
            x = struct.unpack('<d', int(v).to_bytes(8, 'little'))[0] if t['s'] == 'f64' else struct.unpack('<f', int(v).to_bytes(4, 'little'))[0]
            # the constants of the coordinate type itself (EPSILON, MIN, MAX, ...) differ legitimately
            own = {'f64': (2.0 ** -52, 1.7976931348623157e308, 2.0 ** -1022, 5e-324), 'f32': (2.0 ** -23, 3.4028234663852886e38, 2.0 ** -126, 2.0 ** -149)}[t['s']]
            for nm_, cv in zip(('EPSILON', 'MAX', 'MIN_POSITIVE', 'MIN_SUBNORMAL'), own):
                if abs(x) == cv:
                    return ('float', ('-' if x < 0 else '') + 'Float::' + nm_)
            return ('float', struct.unpack('<f', struct.pack('<f', x))[0] if abs(x) < 3e38 else x)
        return (v, t['s'] if t else None)

    def const(c_, p, names, f32):
        k = c_['c']
        if k == 'int':
            return ('int',) + tuple(lit(c_['v'], c_['ty'], p))
        if k == 'fn':
            return ('fn', callee(c_['fn'], p, f32))
        if k == 'agg':
            return ('agg', c_.get('var'), tuple(const(x, p, names, f32) for x in c_['fields']))
        if k == 'promoted':
            return ('promoted',)
        d = {a: b for a, b in c_.items() if a not in ('ty', 'body')}
        return (k, r32(json.dumps(d, sort_keys=True)) if f32 else json.dumps(d, sort_keys=True))

    def callee(cal, p, f32):
        s = '%s|%s|%s|%s' % (cal.get('kind'), cal.get('path'), cal.get('rpath'), [p.types[a]['s'] for a in cal.get('rargs') or [] if isinstance(a, int) and a >= 0])
        return r32(s) if f32 else s

    def operand(o, p, names, f32):
        if o[0] == 'const':
            return ('const', const(o[1], p, names, f32))
        return (o[0], place(o[1], names))

    def place(pl, names):
        return (pl[0], tuple((e[0], e[1], names[e[2]]) if e[0] == 'f' else tuple(e) for e in pl[1]))

    def rv(r, p, names, f32):
        k = r[0]
        if k == 'use':
            return (k, operand(r[1], p, names, f32))
        if k in ('ref', 'rawptr'):
            return (k, r[1], place(r[2], names))
        if k == 'bin':
            return (k, r[1], operand(r[2], p, names, f32), operand(r[3], p, names, f32), names[r[4]])
        if k == 'un':
            return (k, r[1], operand(r[2], p, names, f32), names[r[3]])
        if k == 'discr':
            return (k, place(r[1], names))
        if k == 'agg':
            return (k, r[1], names[r[2]] if isinstance(r[2], int) and r[2] >= 0 else r[2], r[3], tuple(operand(o, p, names, f32) for o in r[4]))
        if k == 'repeat':
            return (k, operand(r[1], p, names, f32), r[2])
        if k == 'cast':
            return (k, r[1], operand(r[2], p, names, f32), names[r[3]], names[r[4]])
        return (k,)

    def blocks(b, p, names, f32):
        out = []
        for bl in b['blocks']:
            if bl['cl']:
                continue
            st = []
            for s in bl['s']:
                if s[0] == '=':
                    st.append(('=', place(s[1], names), rv(s[2], p, names, f32)))
                else:
                    st.append((s[0],))
            t = bl['t']
            if t[0] == 'call':
                tt = ('call', callee(t[1], p, f32), tuple(operand(o, p, names, f32) for o in t[2]), place(t[3], names), t[4])
            elif t[0] == 'switch':
                tt = ('switch', operand(t[1], p, names, f32), json.dumps(t[2]), t[3])
            elif t[0] == 'assert':
                tt = ('assert', operand(t[1], p, names, f32), t[2], t[3])
            elif t[0] == 'drop':
                tt = ('drop', t[2])
            else:
                tt = tuple(x for x in t if not isinstance(x, (list, dict)))
            out.append((tuple(st), tt, bl['sp']))
        return out
    for k in sorted(set(s64) & set(s32)):
        b64, b32 = s64[k][1].get('body'), s32[k][1].get('body')
        if not b64 and not b32:
            continue
        if not b64 or not b32:
            c.bad('same steps: ' + k, where(s64[k][1]['span']), 'a body is missing in one configuration')
            continue
        x, y = blocks(b64, p64, n64, False), blocks(b32, p32, n32, True)
        c.count('blocks_compared', len(x))
        diff = None
        if len(x) != len(y):
            diff = ('%d and %d blocks' % (len(x), len(y)), b64['sp'])
        else:
            for (s1, t1, sp), (s2, t2, _) in zip(x, y):
                if s1 != s2 or t1 != t2:
                    d = [(a, b) for a, b in zip(s1, s2) if a != b][:1] or [(t1, t2)]
                    diff = (str(d)[:500], sp)
                    break
        if diff:
            c.bad('same steps: ' + k, where(diff[1], k), diff[0])
        else:
            c.ok('same steps: ' + k, where(b64['sp']))
        d64, d32 = decided(p64, b64), decided(p32, b32)
        for at in sorted(set(d64) & set(d32)):
            c.count('constant_decisions')
            c.expect(d64[at][0] == d32[at][0], 'no decision depends on the coordinate type', where(d64[at][1], k),
                     'the condition is %s with f64 and %s with f32' % (d64[at][0], d32[at][0]))
    # casts and conversions
    for tag, p in (('f64', p64), ('f32', p32)):
        for i, b in sorted(p.bodies.items()):
            if b['crate'] != 'poly2tri_rs':
                continue
            for n, bl in enumerate(b['blocks']):
                if bl['cl']:
                    continue
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'cast':
                        kind, to, fr = s[2][1], p.types[s[2][3]], p.types[s[2][4]]
                        if 'float' in (to['k'], fr['k']):
                            c.bad('no coordinate is converted', where(s[-1], b['path']), '%s %s to %s (%s)' % (kind, fr['s'], to['s'], tag), key='cast')
                        else:
                            c.ok('cast does not involve floats (%s)' % tag, where(s[-1], b['path']))
                t = bl['t']
                if t[0] == 'call':
                    path = callee_path(t[1]) or ''
                    m = re.search(r'(to_bits|from_bits|to_int_unchecked|to_ne_bytes|to_le_bytes|to_be_bytes|from_ne_bytes|from_le_bytes|from_be_bytes)$', path)
                    args = [p.ty_s(a) for a in t[5]]
                    dst = p.ty_s(b['locals'][t[3][0]]) if not t[3][1] else ''
                    if m and ('f64' in path or 'f32' in path):
                        c.bad('no coordinate is converted', where(bl['sp'], b['path']), path)
                    if re.search(r'convert::(From|Into|TryFrom|TryInto)', path) and len(args) == 1 and args[0] in ('f32', 'f64') and dst in ('f32', 'f64', 'u32', 'usize', 'i32', 'i64', 'u64') and args[0] != dst:
                        c.bad('no coordinate is converted', where(bl['sp'], b['path']), '%s: %s to %s' % (path, args[0], dst))
                    if re.search(r'f(64|32)::<impl f(64|32)>::(round|floor|ceil|trunc|fract)$', path):
                        c.bad('no coordinate is rounded', where(bl['sp'], b['path']), path)
    return c.finish()


# ------------------------------------------------------------------------ C24 (type-level witnesses)
WITNESS_HEAD = '''#![allow(dead_code, unused_imports, unused_variables)]
use poly2tri_rs::{Builder, CDT, Point, PointId, TriangleId, Edge, Sweeper, Observer, PointDataSource};
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn clone<T: Clone>() {}
fn copy<T: Copy>() {}
fn send_val<T: Send>(_: &T) {}
fn sync_val<T: Sync>(_: &T) {}
'''
# name -> (source, must it compile)
WITNESSES = {
    'builder is Send when the data is': ('fn w<PD: Send>() { send::<Builder<PD>>(); }', True),
    'builder is Sync when the data is': ('fn w<PD: Sync>() { sync::<Builder<PD>>(); }', True),
    'problem is Send when the data is': ('fn w<PD: Send>() { send::<CDT<PD>>(); }', True),
    'problem is Sync when the data is': ('fn w<PD: Sync>() { sync::<CDT<PD>>(); }', True),
    'result is Send when the data is': ('fn w<PD: Send>(c: CDT<PD>) { send_val(&c.triangulate()); }', True),
    'result is Sync when the data is': ('fn w<PD: Sync>(c: CDT<PD>) { sync_val(&c.triangulate()); }', True),
    'observed result is Send when the data is': ('fn w<PD: Send>(c: CDT<PD>) { send_val(&c.triangulate_with_observer(&mut ())); }', True),
    'builder is Clone when the data is': ('fn w<PD: Clone>() { clone::<Builder<PD>>(); }', True),
    'problem is Clone when the data is': ('fn w<PD: Clone>() { clone::<CDT<PD>>(); }', True),
    'point is Copy, Send and Sync': ('fn w() { copy::<Point>(); send::<Point>(); sync::<Point>(); }', True),
    'point id is Copy, Send and Sync': ('fn w() { copy::<PointId>(); send::<PointId>(); sync::<PointId>(); }', True),
    'triangle id is Copy, Send and Sync': ('fn w() { copy::<TriangleId>(); send::<TriangleId>(); sync::<TriangleId>(); }', True),
    'values can outlive the scope that made them': ('fn st<T: \'static>() {} fn w<PD: \'static>() { st::<Builder<PD>>(); st::<CDT<PD>>(); }', True),
    'problems can be triangulated on several threads': ('fn w(c: CDT<()>) { let d = c.clone(); let h = std::thread::spawn(move || d.triangulate()); let r = c.triangulate(); let s = h.join(); }', True),
    'control: data that is not Send is not made Send': ('fn w() { send::<Builder<std::rc::Rc<()>>>(); }', False),
    'control: data that is not Sync is not made Sync': ('fn w() { sync::<CDT<std::cell::Cell<u8>>>(); }', False),
    'control: the witness for Clone can fail': ('struct N; fn w() { clone::<Builder<N>>(); }', False),
}
OBS_WITNESSES = {
    'an observer reads the state': ("struct O(usize); impl Observer for O { fn enter_point_event(&mut self, p: PointId, s: &Sweeper) { self.0 += s.result.len(); } }", True),
    'an observer cannot replace the result list': ("struct O; impl Observer for O { fn enter_point_event(&mut self, p: PointId, s: &Sweeper) { s.result.clear(); } }", False),
    'an observer cannot assign the state': ("struct O; impl Observer for O { fn finalized(&mut self, s: &Sweeper) { s.result = Vec::new(); } }", False),
    'an observer cannot keep the state beyond the call': ("struct O<'a>(Option<&'a Vec<TriangleId>>); impl<'a> Observer for O<'a> { fn finalized(&mut self, s: &Sweeper) { self.0 = Some(&s.result); } }", False),
    'an observer owns what it copies': ("struct O(Option<Vec<TriangleId>>); impl Observer for O { fn finalized(&mut self, s: &Sweeper) { self.0 = Some(s.result.clone()); } }", True),
    'an observer cannot take the state mutably': ("struct O; impl Observer for O { fn sweep_done(&mut self, s: &mut Sweeper) { } }", False),
    'an observer callback cannot return a value': ("struct O; impl Observer for O { fn sweep_done(&mut self, s: &Sweeper) -> bool { true } }", False),
    'an observer is notified without a value': ("struct O; impl Observer for O { fn sweep_done(&mut self, s: &Sweeper) { } }", True),
    'an observer cannot mutate the mesh': ("fn m<T>(_: &mut T) {} struct O; impl Observer for O { fn sweep_done(&mut self, s: &Sweeper) { m(&mut *s.triangles); } }", False),
    'an observer cannot mutate the front': ("fn m<T>(_: &mut T) {} struct O; impl Observer for O { fn sweep_done(&mut self, s: &Sweeper) { m(&mut *s.advancing_front); } }", False),
    'an observer can look at the mesh': ("fn m<T>(_: &T) {} struct O; impl Observer for O { fn sweep_done(&mut self, s: &Sweeper) { m(&*s.triangles); m(&*s.advancing_front); m(s.points); } }", True),
}


def run_witnesses(c, ws, features=(None, 'f32')):
    """type-check each witness against /repo's current tree; a witness is never run"""
    d = tempfile.mkdtemp(prefix='verif-wit-')
    try:
        for feat in features:
            names = list(ws)
            for i, n in enumerate(names):
                w = os.path.join(d, feat or 'f64', 'w')
                os.makedirs(os.path.join(d, feat or 'f64', 'src'), exist_ok=True)
                open(os.path.join(d, feat or 'f64', 'src', 'w%d.rs' % i), 'w').write(WITNESS_HEAD + ws[n][0] + '\nfn main() {}\n')
            root = os.path.join(d, feat or 'f64')
            toml = '[package]\nname="witness"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\npoly2tri-rs = { path = "%s"%s }\n' % (
                REPO, ', features=["%s"]' % feat if feat else '')
            open(os.path.join(root, 'Cargo.toml'), 'w').write(toml + ''.join('[[bin]]\nname="w%d"\npath="src/w%d.rs"\n' % (i, i) for i in range(len(names))))
            lk = os.path.join(REPO, 'Cargo.lock')
            env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, 'target'), CARGO_NET_OFFLINE='true')
            for k in ('RUSTFLAGS', 'RUSTC_WRAPPER'):
                env.pop(k, None)
            r = subprocess.run(['cargo', 'check', '--offline', '--keep-going', '--message-format=json', '--bins'], cwd=root, env=env, capture_output=True, text=True)
            errs = defaultdict(list)
            liberr = None
            seen_any = False
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') in ('compiler-message', 'compiler-artifact'):
                    seen_any = True
                if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                    tgt = m['target']['name']
                    if tgt.startswith('w'):
                        errs[tgt].append(((m['message'].get('code') or {}).get('code'), m['message']['message']))
                    else:
                        liberr = m['message']['message']
            if liberr or not seen_any:
                c.und('witnesses (%s)' % (feat or 'f64'), '', (liberr or r.stderr[-300:]))
                continue
            for i, n in enumerate(names):
                must = ws[n][1]
                es = errs.get('w%d' % i, [])
                es = [e for e in es if not e[1].startswith('aborting')]
                c.count('witnesses_type_checked')
                lab = '%s (%s)' % (n, feat or 'f64')
                if must:
                    if not es:
                        c.ok(lab)
                    elif all(e[0] in ('E0277', 'E0310', 'E0309', 'E0308', 'E0382', 'E0597', 'E0521', 'E0599', 'E0053', 'E0050', 'E0046', 'E0195', 'E0186') for e in es):
                        c.bad(lab, 'witness `%s`' % ws[n][0][:160], '; '.join('%s %s' % e for e in es))
                    else:
                        c.und(lab, '', '; '.join('%s %s' % e for e in es))
                else:
                    if not es:
                        c.bad(lab, 'witness `%s`' % ws[n][0][:160], 'a program that must be rejected compiles')
                    elif all(e[0] in ('E0432', 'E0433', 'E0412', 'E0407', 'E0560', 'E0609', 'E0616', 'E0425') for e in es):
                        c.und(lab, '', 'rejected for another reason: ' + '; '.join('%s %s' % e for e in es))
                    else:
                        c.ok(lab)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c24():
    c = Check('C24', 'Type-level witnesses: small programs that only type-check if the auto traits and Clone/Copy bounds hold for every data type, with controls that must be '
              'rejected; plus a scan of all items for mutable or interior-mutable statics and hand-written unsafe Send/Sync claims.', [])
    p = prog()
    run_witnesses(c, WITNESSES)
    n = 0
    for it in p.items:
        if it.get('trait') in ('std::marker::Send', 'std::marker::Sync'):
            c.bad('thread-safety is derived, not asserted', where(it['span'], it['path']), 'unsafe impl of %s' % it['trait'])
        if it['kind'].startswith(('Static', 'ForeignMod', 'ForeignStatic')):
            n += 1
            ty = it.get('ty')
            bad = it.get('mut') or (ty is not None and ty >= 0 and (not p.types[ty].get('freeze', True) or any(
                (p.types[x].get('path') or '').startswith(INTERIOR + ('std::thread',)) for x in type_closure(p, ty))))
            c.expect(not bad, 'no shared mutable state: ' + it['path'], where(it['span']), it['kind'])
    for i, b in p.bodies.items():
        if b['crate'] == 'poly2tri_rs':
            for nn, cal, t, bl in call_sites(p, b):
                if re.search(r'thread::local|LocalKey', callee_path(cal) or ''):
                    c.bad('no shared mutable state', where(bl['sp'], b['path']), callee_path(cal))
    c.count('items', len(p.items))
    c.ok('item scan')
    return c.finish()


# ------------------------------------------------------------------------ C02
def c02():
    c = Check('C02', 'Ownership and effect analysis of the observer: its methods take the state by shared reference and return nothing; no type reachable from that state has '
              'interior mutability; every use of an observer value in the library is a reborrow, being passed on, or a notification call; the library never '
              'turns a shared pointer into a mutable one; triangulate is the same computation as triangulate_with_observer with an observer whose methods are empty. '
              'Compile-fail witnesses (each with a compiling twin) show that a violating observer is rejected.',
              ['an observer\'s own unsafe code is outside the property'])
    p = prog()
    OBS = 'cdt::Observer'
    tr = [f for f in p.fns if f['path'].startswith(OBS + '::')]
    if not tr:
        obs = [it['path'] for it in p.items if it['kind'] == 'Trait' and it['path'].endswith('::Observer')]
        if obs:
            OBS = obs[0]
            tr = [f for f in p.fns if f['path'].startswith(OBS + '::')]
    state_types = set()
    for f in tr:
        out = p.ty_s(f['output'])
        c.expect(out == '()', 'callback returns nothing: ' + f['path'], where(f['span']), out)
        for k, ti in enumerate(f['inputs'][1:]):
            t = p.types[ti]
            if t['k'] in ('ref', 'ptr'):
                c.expect(t['k'] == 'ref' and not t['mut'], 'callback argument is read-only: %s #%d' % (f['path'], k + 1), where(f['span']), t['s'])
                state_types.add(t['elem'])
            else:
                c.expect(t.get('copy', True) or t['k'] != 'adt', 'callback argument is a plain value: %s #%d' % (f['path'], k + 1), where(f['span']), t['s'])
        # default body does nothing
        if f.get('body'):
            calls = [callee_path(cal) for _, cal, _, _ in call_sites(p, f['body'])]
            writes = [s for bl in f['body']['blocks'] for s in bl['s'] if s[0] == '=' and any(e[0] == '*' for e in s[1][1])]
            c.expect(not calls and not writes, 'default callback does nothing: ' + f['path'], where(f['span']), str(calls))
    for f in p.fns:
        if f.get('trait') == OBS and f.get('implself') is not None and f.get('body'):
            if f['path'].startswith(OBS + '::'):
                continue
            calls = [callee_path(cal) for _, cal, _, _ in call_sites(p, f['body'])]
            c.expect(not calls, 'library observer does nothing: ' + f['path'], where(f['span']), str(calls))
    # deep freeze
    for st in state_types:
        for ti, path in type_closure(p, st).items():
            t = p.types[ti]
            c.count('types_behind_the_shared_state')
            bad = None
            if t['k'] == 'adt' and (t['path'].startswith(INTERIOR) or 'Cell' in t['path'].split('::')[-1] or 'Atomic' in t['path'].split('::')[-1]):
                bad = t['path']
            elif t['k'] == 'adt' and not t.get('freeze', True):
                bad = t['path'] + ' is not Freeze'
            elif t['k'] == 'ptr' and t.get('mut') and not any('std::' in x for x in path):
                bad = 'raw mutable pointer'
            elif t['k'] == 'dyn':
                bad = None
            if bad:
                c.bad('state shown to observers has no interior mutability', ' / '.join(path), bad)
            else:
                c.ok('no interior mutability: ' + t['s'], ' / '.join(path))
    # nothing an observer could call changes anything that outlives the call
    for it in p.items:
        if it['kind'].startswith('Static'):
            ty = it.get('ty')
            shared = it.get('mut') or (ty is not None and ty >= 0 and (not p.types[ty].get('freeze', True) or any(
                (p.types[x].get('path') or '').startswith(INTERIOR + ('std::thread',)) for x in type_closure(p, ty))))
            c.expect(not shared, 'no state beside the one shown: ' + it['path'], where(it['span']), 'a changeable static is shared by the callbacks and the computation')
    # uses of observer values
    def has_obs(ti, depth=0):
        t = p.types[ti]
        if t['k'] in ('ref', 'ptr'):
            return has_obs(t['elem'], depth + 1)
        return t['k'] == 'dyn' and 'Observer' in t['s'] or (t['k'] == 'param' and False)
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        obs = {n for n, l in enumerate(b['locals']) if has_obs(l)}
        # generic observers: parameters bounded by the trait are only callable through it
        if not obs:
            continue
        for bl in b['blocks']:
            if bl['cl']:
                continue
            for s in bl['s']:
                if s[0] != '=':
                    continue
                used = set(locals_in_rvalue(s[2]))
                if used & obs or (s[1][0] in obs and s[2][0] not in ('use', 'ref', 'cast', 'rawptr')):
                    r = s[2]
                    okk = (r[0] == 'use' or r[0] == 'ref') and s[1][0] in obs and not s[1][1]
                    okk = okk or (r[0] == 'cast' and r[1].startswith('PointerCoercion') and s[1][0] in obs)
                    if r[0] == 'agg':
                        # captured by a closure: its body is one of those looked at here, and whoever is handed the closure can only call it
                        if r[1] == 'closure':
                            c.ok('observer captured', where(s[-1], b['path']))
                        else:
                            c.und('observer value is only reborrowed', where(s[-1], b['path']), 'kept in a %s' % r[1])
                        continue
                    c.expect(okk, 'observer value is only reborrowed', where(s[-1], b['path']), str(s[1:3])[:200])
            t = bl['t']
            if t[0] == 'call':
                uses = [k for k, o in enumerate(t[2]) if o[0] != 'const' and o[1][0] in obs]
                if not uses:
                    continue
                cal = t[1]
                path = callee_path(cal)
                c.count('observer_uses')
                if cal.get('kind') == 'virtual' and (cal.get('trait') == OBS):
                    c.expect(uses == [0], 'notification', where(bl['sp'], b['path']), path)
                    # nothing comes back
                    c.expect(p.ty_s(b['locals'][t[3][0]]) == '()', 'notification returns nothing', where(bl['sp'], b['path']), path)
                elif cal.get('inst') in p.bodies and p.bodies[cal['inst']]['crate'] == 'poly2tri_rs':
                    c.ok('observer passed on to %s' % path, where(bl['sp'], b['path']))
                else:
                    c.bad('observer passed to foreign code', where(bl['sp'], b['path']), path)
            elif t[0] == 'switch' and t[1][0] != 'const' and t[1][1][0] in obs:
                c.bad('branch on the observer', where(bl['sp'], b['path']), '')
    # events are shown the running state through a shared borrow: in every function, no const->mut casts
    for i, b in sorted(p.bodies.items()):
        if b['crate'] != 'poly2tri_rs':
            continue
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'cast':
                    to, fr = p.types[s[2][3]], p.types[s[2][4]]
                    if to['k'] in ('ptr', 'ref') and to.get('mut') and fr['k'] in ('ptr', 'ref') and not fr.get('mut'):
                        c.bad('shared pointer turned into a mutable one', where(s[-1], b['path']), '%s to %s' % (fr['s'], to['s']))
            t = bl['t']
            if t[0] == 'call' and re.search(r'(cast_mut|UnsafeCell|transmute(_copy)?)$', callee_path(t[1]) or ''):
                c.bad('shared pointer turned into a mutable one', where(bl['sp'], b['path']), callee_path(t[1]))
        c.count('functions_scanned_for_pointer_casts')
    c.ok('no shared-to-mutable pointer casts')
    # triangulate == triangulate_with_observer(&mut ())
    t1 = [f for f in p.fns if f['path'].endswith('::triangulate') and f.get('exported') or f['path'] == 'cdt::CDT::<PD>::triangulate']
    t2 = [f for f in p.fns if f['path'].endswith('::triangulate_with_observer')]
    if t1 and t2:
        same_computation(c, p, t1[0], t2[0])
    else:
        c.und('triangulate and triangulate_with_observer', '', 'entry points not found')
    run_witnesses(c, OBS_WITNESSES, features=(None,))
    return c.finish()


def locals_in_rvalue(r):
    out = []

    def op(o):
        if o[0] != 'const':
            out.append(o[1][0])
    k = r[0]
    if k == 'use':
        op(r[1])
    elif k in ('ref', 'rawptr'):
        out.append(r[2][0])
    elif k == 'bin':
        op(r[2]); op(r[3])
    elif k == 'un':
        op(r[2])
    elif k == 'discr':
        out.append(r[1][0])
    elif k == 'agg':
        for o in r[4]:
            op(o)
    elif k == 'repeat':
        op(r[1])
    elif k == 'cast':
        op(r[2])
    return out


def same_computation(c, p, f1, f2):
    """both entry points make the same calls with the same values, up to the observer"""
    def trace(f, obs):
        evs = []
        def hook(ctx):
            st = ctx.st
            args = []
            for a, ti in zip(ctx.args, ctx.atys):
                if 'Observer' in p.ty_s(ti):
                    args.append('observer')
                else:
                    args.append(repr(ctx.e.snap(st, a)))
            st.ev('call', ctx.path, tuple(args))
            for a, ti in zip(ctx.args, ctx.atys):
                t = p.types[ti]
                if t['k'] == 'ref' and t['mut'] and 'Observer' not in t['s']:
                    try:
                        ctx.e.havoc_ref(st, a, t['elem'], 'after:%s' % ctx.path)
                    except Undecided:
                        pass
            if p.ty_s(ctx.dty) == '()':
                return UNIT
            return T('result', ctx.path)
        direct = {cal_path for _, cal, _, _ in call_sites(p, f2['body']) for cal_path in [callee_path(cal)] if cal.get('inst') in p.bodies and p.bodies[cal['inst']]['crate'] == 'poly2tri_rs'}
        hooks = {d: hook for d in direct if 'Sweeper' in d and not d.endswith('::new')}
        e = Engine(p, hooks=hooks, virt=lambda ctx: (ctx.st.ev('virt', ctx.path), UNIT)[1])
        args, mem = e.sym_args(f['body'], names=['cdt', 'observer'])
        outs = e.run(f['body'], args, mem)
        res = set()
        for o in outs:
            ev = tuple(tuple(x) for x in o.events)
            res.add((repr(ev), repr(e.snap(o, o.ret))))
        return res
    try:
        a, b = trace(f1, None), trace(f2, None)
        norm = lambda s: {(re.sub(r'#\d+|\bf\d+\b', '', x), re.sub(r"#\d+|'H', \d+|\bf\d+\b", '', y)) for x, y in s}
        c.expect(norm(a) == norm(b), 'triangulate is triangulate_with_observer with a silent observer', where(f1['span'], f1['path']),
                 'the two entry points differ: %s' % str(sorted(norm(a) ^ norm(b)))[:400])
    except Undecided as u:
        c.und('triangulate is triangulate_with_observer with a silent observer', where(f1['span'], f1['path']), str(u))


CHECKS = {'C02': c02, 'C04': c04, 'C23': c23, 'C24': c24, 'C25': c25}
