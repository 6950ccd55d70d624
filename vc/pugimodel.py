"""Contract of the part of pugixml the readers and writers use (assumed): a document is a tree of elements with attributes and
texts; saving a document and loading it again yields the same tree, texts of white space only excepted."""
import z3
from values import *
from execu import ThrowEx, PathDead
import strmodel
from program import strip_type

ELEMENT, PCDATA = 2, 3


class XH:
    """handle of a node, an attribute or a node's text (node None: empty handle)"""
    __slots__ = ('kind', 'node', 'attr')

    def __init__(self, kind, node, attr=None): self.kind, self.node, self.attr = kind, node, attr


class N:
    __slots__ = ('type', 'name', 'value', 'attrs', 'kids', 'parent')

    def __init__(self, type, name='', value=Str(), attrs=(), kids=(), parent=None):
        self.type, self.name, self.value, self.attrs, self.kids, self.parent = type, name, value, attrs, kids, parent

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}; d.update(kw)
        return N(**d)


def dom(ex): return ex.st.mem.get('dom', {})


def put(ex, i, node):
    d = dict(dom(ex)); d[i] = node; ex.st.mem['dom'] = d


def new(ex, node):
    d = dict(dom(ex)); i = len(d) + 1; d[i] = node; ex.st.mem['dom'] = d
    return i


def add_child(ex, parent, node, front=False):
    i = new(ex, node.but(parent=parent)); p = dom(ex)[parent]
    put(ex, parent, p.but(kids=((i,) + p.kids) if front else p.kids + (i,)))
    return i


def default(ex, t):
    if t == 'pugi::xml_document': return XH('node', new(ex, N(1)))
    if t == 'pugi::xml_node': return XH('node', None)
    if t == 'pugi::xml_attribute': return XH('attr', None)
    if t == 'pugi::xml_text': return XH('text', None)
    return Opaque(t)


def construct(ex, e, t):
    args = [x for x in e['c'] if x['k'] != 'CXXDefaultArgExpr']
    if not args: return default(ex, t)
    v = ex.val(args[0])
    if len(args) == 1 and isinstance(v, (XH, Opaque)): return v
    raise Unsupported('construction of ' + t)


def snapshot(ex, i): n = dom(ex)[i]; return (n.type, n.name, n.value, n.attrs, tuple(snapshot(ex, k) for k in n.kids))


def load(ex, parent, s):
    t, name, value, attrs, kids = s
    if t == PCDATA and not any(not isinstance(p, str) or p not in ' \t\n\r' for p in value.parts): return
    i = add_child(ex, parent, N(t, name, value, attrs))
    for k in kids: load(ex, i, k)


def content(ex, v, t):
    if isinstance(v, Str): return v
    if is_scalar(v): return strmodel.num_text(ex, v, ('stream', 17, False), t)
    raise Unsupported('XML content ' + type(v).__name__)


def find(ex, v, name):
    if v.node is None: return XH('node', None)
    for k in dom(ex)[v.node].kids:
        if dom(ex)[k].name == name: return XH('node', k)
    return XH('node', None)


def text_node(ex, i, make=False):
    n = dom(ex)[i]
    if n.type == PCDATA: return i
    for k in n.kids:
        if dom(ex)[k].type == PCDATA: return k
    return add_child(ex, i, N(PCDATA)) if make else None


def method(ex, ref, this, argexprs, e):
    n = ref['n']; v = ex.load(this); D = dom(ex)
    args = [ex.val(x) for x in argexprs if x['k'] != 'CXXDefaultArgExpr']
    if isinstance(v, Opaque):
        if n.startswith('operator ') or n == 'operator bool': return v.what == 'ok'
        raise Unsupported('pugi method ' + n)
    ex.assumed_std.add('pugixml: a saved document is read back as the same tree')
    tstr = lambda s: strmodel.text(strmodel.as_str(strmodel.to_str(s)))
    if n == 'operator=':
        a = args[0]
        if isinstance(a, XH): ex.store(this, a); return this
        if v.kind == 'attr':
            if v.node is None: return this
            s = content(ex, a, ref['pt'][0]); put(ex, v.node, D[v.node].but(attrs=tuple((k, s if j == v.attr else x) for j, (k, x) in enumerate(D[v.node].attrs)))); return this
        if v.kind == 'text':
            if v.node is None: return this
            s = content(ex, a, ref['pt'][0]); k = text_node(ex, v.node, True); put(ex, k, dom(ex)[k].but(value=s)); return this
    if n in ('operator bool', 'operator!') or n.startswith('operator ') or n == 'empty':
        full = v.node is not None
        if v.kind == 'text' and full: full = text_node(ex, v.node) is not None
        return full if n not in ('operator!', 'empty') else not full
    if v.kind == 'attr':
        s = D[v.node].attrs[v.attr][1] if v.node is not None else Str()
        if n in ('value', 'as_string'): return s
        if n == 'name': return strmodel.mk(D[v.node].attrs[v.attr][0]) if v.node is not None else Str()
        if n in ('as_int', 'as_uint'): return strmodel.parse_number(ex, s, 'int')[0]
        if n == 'as_double': return strmodel.parse_number(ex, s, 'real')[0]
        if n == 'set_value' and v.node is not None:
            x = content(ex, args[0], ref['pt'][0]); put(ex, v.node, D[v.node].but(attrs=tuple((k, x if j == v.attr else y) for j, (k, y) in enumerate(D[v.node].attrs)))); return True
    if v.kind == 'text':
        k = text_node(ex, v.node) if v.node is not None else None
        s = dom(ex)[k].value if k is not None else Str()
        if n in ('get', 'as_string'): return s
        if n == 'as_int': return strmodel.parse_number(ex, s, 'int')[0]
        if n == 'as_double': return strmodel.parse_number(ex, s, 'real')[0]
        if n == 'set' and v.node is not None:
            x = content(ex, args[0], ref['pt'][0]); k = text_node(ex, v.node, True); put(ex, k, dom(ex)[k].but(value=x)); return True
    if v.kind == 'node':
        if n == 'save_file':
            strmodel.write_file(ex, tstr(args[0]), (snapshot(ex, v.node),)); return True
        if n in ('load_file', 'load'):
            f = strmodel.files(ex).get(tstr(args[0]))
            if f is None or len(f) != 1 or not isinstance(f[0], tuple): return Opaque('failed')
            put(ex, v.node, D[v.node].but(kids=()))
            for k in f[0][4]: load(ex, v.node, k)
            return Opaque('ok')
        if n in ('append_child', 'prepend_child'):
            if v.node is None: return XH('node', None)
            a = args[0] if args else ELEMENT
            node = N(ELEMENT, tstr(a)) if isinstance(a, Str) else N(int(a))
            return XH('node', add_child(ex, v.node, node, n[0] == 'p'))
        if n == 'append_attribute':
            if v.node is None: return XH('attr', None)
            x = D[v.node]; put(ex, v.node, x.but(attrs=x.attrs + ((tstr(args[0]), Str()),))); return XH('attr', v.node, len(x.attrs))
        if n == 'attribute':
            if v.node is None: return XH('attr', None)
            for j, (k, _) in enumerate(D[v.node].attrs):
                if k == tstr(args[0]): return XH('attr', v.node, j)
            return XH('attr', None)
        if n == 'set_value' and v.node is not None:
            put(ex, v.node, D[v.node].but(value=args[0])); return True
        if n == 'set_name' and v.node is not None:
            put(ex, v.node, D[v.node].but(name=tstr(args[0]))); return True
        if n == 'text': return XH('text', v.node)
        if n == 'child': return find(ex, v, tstr(args[0]))
        if n == 'value': return D[v.node].value if v.node is not None else Str()
        if n == 'name': return strmodel.mk(D[v.node].name) if v.node is not None else Str()
        if n == 'child_value':
            w = find(ex, v, tstr(args[0])) if args else v
            k = text_node(ex, w.node) if w.node is not None and D[w.node].type != PCDATA else None
            return dom(ex)[k].value if k is not None else Str()
        if n in ('first_child', 'last_child'):
            if v.node is None or not D[v.node].kids: return XH('node', None)
            return XH('node', D[v.node].kids[0 if n[0] == 'f' else -1])
        if n in ('next_sibling', 'previous_sibling'):
            if v.node is None or D[v.node].parent is None: return XH('node', None)
            ks = D[D[v.node].parent].kids; j = ks.index(v.node); rest = ks[j + 1:] if n[0] == 'n' else ks[:j][::-1]
            for k in rest:
                if not args or D[k].name == tstr(args[0]): return XH('node', k)
            return XH('node', None)
        if n == 'parent': return XH('node', D[v.node].parent if v.node is not None else None)
    raise Unsupported('pugi method ' + n)
