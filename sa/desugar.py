"""match statements as chains of conditionals"""
import ast
import itertools

_n = itertools.count()


def name(n):
    return ast.Name(n, ast.Load())


def call(f, *a):
    return ast.Call(name(f), list(a), [])


def also(*ts):
    ts = [t for t in ts if t is not None]
    return ast.BoolOp(ast.And(), ts) if len(ts) > 1 else ts[0] if ts else ast.Constant(True)


def capture(n, subject):
    # true whatever the value
    return ast.Compare(ast.Tuple([ast.NamedExpr(ast.Name(n, ast.Store()), subject)], ast.Load()), [ast.IsNot()], [ast.Constant(None)])


class Other(Exception):
    pass


SELF = {"bool", "bytearray", "bytes", "dict", "float", "frozenset", "int", "list", "set", "str", "tuple"}


def test(p, x):
    """condition under which expression x matches pattern p (captures bound on the way)"""
    t = type(p)
    if t is ast.MatchValue:
        return ast.Compare(x, [ast.Eq()], [p.value])
    if t is ast.MatchSingleton:
        return ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])
    if t is ast.MatchAs:
        return also(test(p.pattern, x) if p.pattern is not None else None, capture(p.name, x) if p.name else None)
    if t is ast.MatchOr:
        return ast.BoolOp(ast.Or(), [test(q, x) for q in p.patterns])
    if t is ast.MatchSequence:
        stars = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        n = len(p.patterns)
        out = [call("isinstance", x, ast.Tuple([name("list"), name("tuple")], ast.Load()))]
        if not stars:
            out.append(ast.Compare(call("len", x), [ast.Eq()], [ast.Constant(n)]))
        else:
            out.append(ast.Compare(call("len", x), [ast.GtE()], [ast.Constant(n - 1)]))
        for k, q in enumerate(p.patterns):
            if stars and k == stars[0]:
                if q.name:
                    after = n - 1 - k
                    out.append(capture(q.name, call("list", ast.Subscript(x, ast.Slice(ast.Constant(k), ast.Constant(-after) if after else None), ast.Load()))))
                continue
            out.append(test(q, ast.Subscript(x, ast.Constant(k - n if stars and k > stars[0] else k), ast.Load())))
        return also(*out)
    if t is ast.MatchMapping:
        if p.rest:
            raise Other()
        out = [call("isinstance", x, name("dict"))]
        for k, q in zip(p.keys, p.patterns):
            out += [ast.Compare(k, [ast.In()], [x]), test(q, ast.Subscript(x, k, ast.Load()))]
        return also(*out)
    if t is ast.MatchClass:
        out = [call("isinstance", x, p.cls)]
        if p.patterns:
            if len(p.patterns) == 1 and isinstance(p.cls, ast.Name) and p.cls.id in SELF:
                out.append(test(p.patterns[0], x))
            else:
                raise Other()
        for k, q in zip(p.kwd_attrs, p.kwd_patterns):
            out += [call("hasattr", x, ast.Constant(k)), test(q, ast.Attribute(x, k, ast.Load()))]
        return also(*out)
    raise Other()


class Matches(ast.NodeTransformer):
    def visit_Match(self, node):
        self.generic_visit(node)
        v = "%%match%d" % next(_n)
        try:
            chain = []
            for c in node.cases:
                t = test(c.pattern, name(v))
                chain.append((also(t, c.guard), c.body))
        except Other:
            return node
        body = []
        for t, b in reversed(chain):
            body = [ast.If(t, b, body)]
        out = [ast.Assign([ast.Name(v, ast.Store())], node.subject)] + body
        for o in out:
            for n in ast.walk(o):
                if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, node)
        return out


def desugar(tree):
    return Matches().visit(tree)
