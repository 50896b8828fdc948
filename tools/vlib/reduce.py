"""AST-level reduction of a program on which the implementation disagrees with the specification."""
import copy, json


def sub_exprs(e):
    """simpler replacements of an expression"""
    t = e[0]
    out = []
    if t in ("b", "B"):
        out += [e[2], e[3]]
    elif t in ("u", "U"):
        out += [e[2]]
    elif t in ("and", "AND", "or", "OR"):
        out += [e[1], e[2]]
    elif t in ("cond", "COND"):
        out += [e[2], e[3], e[1]]
    elif t == "C":
        out += [a for a in e[2]]
    if t != "n":
        out += [["n", 0], ["n", 1]]
    elif abs(e[1]) > 2:
        out += [["n", e[1] // 2], ["n", 1 if e[1] > 0 else -1]]
    return out


EXPR_TAGS = {"n", "x", "v", "b", "B", "u", "U", "ix", "IX", "and", "AND", "or", "OR", "cond", "COND", "C"}


def fix(e):
    """recompute impurity tags bottom-up"""
    if not isinstance(e, list):
        return e
    e = [fix(x) for x in e]
    if e and isinstance(e[0], str):
        t = e[0]
        if t in ("b", "B"):
            e[0] = "B" if any(x[0].isupper() for x in e[2:4]) else "b"
        elif t in ("u", "U"):
            e[0] = "U" if e[2][0].isupper() else "u"
        elif t in ("and", "AND", "or", "OR"):
            e[0] = (t.upper if any(x[0].isupper() for x in e[1:3]) else t.lower)()
        elif t in ("cond", "COND"):
            e[0] = "COND" if any(x[0].isupper() for x in e[1:4]) else "cond"
        elif t in ("ix", "IX"):
            e[0] = "IX" if any(x[0].isupper() for x in e[2]) else "ix"
    return e


STMT_TAGS = {"d", "e", "=", "if", "wh", "do", "for", "bl", "br", "co", "re"}


def candidates(p):
    """programs one reduction step smaller, as functions building them lazily"""
    def clone():
        return copy.deepcopy({k: v for k, v in p.items() if k != "obs"})
    out = []
    # drop functions
    for f in p["order"]:
        if f != "main" and json.dumps([q["body"] for n, q in p["funcs"].items() if n != f]).find('"%s"' % f) < 0:
            def g(f=f):
                q = clone()
                del q["funcs"][f]
                q["order"] = [x for x in q["order"] if x != f]
                return q
            out.append(g)
    for i in range(len(p["globals"])):
        def g(i=i):
            q = clone()
            del q["globals"][i]
            return q
        out.append(g)

    paths = []

    def walk(node, path):
        if isinstance(node, list):
            if node and isinstance(node[0], str):
                paths.append((path, node))
            for i, x in enumerate(node):
                walk(x, path + [i])
    for f in p["order"]:
        walk(p["funcs"][f]["body"], ["funcs", f, "body"])

    def at(q, path):
        for k in path:
            q = q[k]
        return q
    # remove statements, in chunks
    lists = []

    def wl(node, path):
        if isinstance(node, list):
            if node and all(isinstance(x, list) and x and x[0] in STMT_TAGS for x in node):
                lists.append((path, len(node)))
            for i, x in enumerate(node):
                wl(x, path + [i])
    for f in p["order"]:
        wl(p["funcs"][f]["body"], ["funcs", f, "body"])
    for path, n in lists:
        sz = n
        while sz >= 1:
            for s in range(0, n, sz):
                def g(path=path, s=s, sz=sz):
                    q = clone()
                    del at(q, path)[s:s + sz]
                    return q
                out.append(g)
            sz //= 2
    for path, node in paths:
        reps = []
        if node[0] in EXPR_TAGS and not (len(path) >= 1 and path[-1] == 1 and False):
            reps = sub_exprs(node)
        elif node[0] == "if":
            reps = [node[2]] + node[3:] + ([node[:3]] if len(node) > 3 else [])
        elif node[0] in ("wh",):
            reps = [node[2]]
        elif node[0] == "bl":
            reps = [s for s in node[1][:1]] if len(node[1]) == 1 and node[1][0][0] != "d" else []
        elif node[0] == "for":
            reps = [node[4], node[1]]
        for rep in reps:
            def g(path=path, rep=rep):
                q = clone()
                at(q, path[:-1])[path[-1]] = copy.deepcopy(rep)
                for f in q["order"]:
                    q["funcs"][f]["body"] = fix(q["funcs"][f]["body"])
                return q
            out.append(g)
    for i in range(len(p["input"])):
        if p["input"][i] not in (0, 1):
            for v in (0, 1, p["input"][i] // 2):
                def g(i=i, v=v):
                    q = clone()
                    q["input"][i] = v
                    return q
                out.append(g)
    return out
