"""Must-pass analysis on the CFG: is some event passed on every path through a region, with element loops required to be
full and their bodies to do it in every iteration?"""
from .flow import strip, node_block, block_of, bind, canon
from .props.c01 import full_loop

LOOPS = ("for", "while", "do", "rfor")


def header_blocks(fn, loop):
    """blocks that evaluate the loop condition"""
    out = set()
    bof = block_of(fn)
    c = loop.c[2] if loop.k == "for" else loop.c[1] if loop.k == "while" else loop.c[1] if loop.k == "do" and len(loop.c) > 1 else None
    if loop.k == "rfor":
        for b in fn.cfg.values():
            t = b.term
            if t and t[0] == "CXXForRangeStmt" and t[1] == loop.id:
                out.add(b.id)
        return out
    for b in fn.cfg.values():
        t = b.term
        if t and t[1] == loop.id:
            out.add(b.id)
    if c is not None:
        for x in c.walk():
            if x.id in bof:
                out.add(bof[x.id])
    return out


def body_entries(fn, loop):
    """first blocks of the loop body: successors of header blocks that lead inside"""
    hd = header_blocks(fn, loop)
    inside = set()
    bof = block_of(fn)
    body = loop.c[-1]
    if loop.k == "for":
        body = loop.c[4]
    elif loop.k == "while":
        body = loop.c[2]
    elif loop.k == "do":
        body = loop.c[0]
    for x in body.walk():
        if x.id in bof:
            inside.add(bof[x.id])
    if loop.k == "rfor":
        # the loop variable declaration is in the first body block
        for b in hd:
            s = fn.cfg[b].succs
            if s and s[0] >= 0:
                return {s[0]}
    ent = set()
    for b in hd:
        t = fn.cfg[b].term
        if t and t[1] == loop.id and fn.cfg[b].succs and fn.cfg[b].succs[0] >= 0:
            ent.add(fn.cfg[b].succs[0])
    return ent


def enclosing_loops(n, stop=()):
    out = []
    p = n.p
    ch = n
    while p is not None:
        if p.k in LOOPS:
            # not when in the init or condition part that runs regardless of the body
            if not (p.k == "for" and ch is p.c[0]) and not (p.k == "rfor" and ch in p.c[:2]):
                out.append(p)
        ch, p = p, p.p
    return out


def must_hit(fn, starts, hits, within=None, skip_edge=None, targets=None, why=None):
    """Every path from `starts` that leaves the region (function exit, return, back to the header of the loop `within`, or -
    when given - a block of `targets`) passes one of the nodes `hits`. Paths ending in a throw do not count."""
    bl = fn.cfg
    if bl is None:
        return False
    outer = set()
    if within is not None:
        outer.add(within.id)
        for p in within.ancestors():
            if p.k in LOOPS:
                outer.add(p.id)
    hit = set()
    work = []   # (blocks, enclosing loops innermost first)
    for n in hits:
        b = node_block(n)
        if b is not None:
            work.append(({b}, [l for l in enclosing_loops(n) if l.id not in outer]))
    while work:
        deepest = max(len(w[1]) for w in work)
        if deepest == 0:
            for w in work:
                hit |= w[0]
            break
        groups, rest = {}, []
        for w in work:
            if len(w[1]) == deepest:
                g = groups.setdefault(w[1][0].id, (set(), w[1]))
                g[0].update(w[0])
            else:
                rest.append(w)
        for blocks, loops in groups.values():
            l = loops[0]
            if full_loop(l) is False:
                if why is not None:
                    why.append("loop at line %d is not complete" % l.line)
                continue
            ent = body_entries(fn, l)
            hd = header_blocks(fn, l)
            inner = set(blocks)
            for w in rest:
                # events further out in this loop's own body also count
                if w[1] and w[1][0].id == l.id:
                    inner |= w[0]
            if ent and not _all_paths(fn, ent, inner, hd, skip_edge, None):
                if why is not None:
                    why.append("not in every iteration of the loop at line %d" % l.line)
                continue
            rest.append((hd, loops[1:]))
        work = rest
    if not hit:
        return False
    back = header_blocks(fn, within) if within is not None else set()
    return _all_paths(fn, set(starts), hit, back, skip_edge, targets)


def _all_paths(fn, starts, hit, back, skip_edge, targets):
    bl = fn.cfg
    seen, st = set(), list(starts)
    while st:
        b = st.pop()
        if b in hit or b in seen:
            continue
        seen.add(b)
        if targets is not None and b in targets:
            return False
        if b in back:
            if targets is None:
                return False
            continue
        if b == fn.exit:
            if targets is None:
                return False
            continue
        ret = False
        for el in bl[b].elems:
            if not isinstance(el, list) and fn.nodes[el].k == "throw":
                ret = True
        if bl[b].noret or ret:
            continue
        for i, s in enumerate(bl[b].succs):
            if s < 0:
                continue
            if skip_edge is not None and skip_edge(bl[b], i):
                continue
            st.append(s)
    return True


def edge_cond(fn, block, i):
    """(leaf condition node, truth) of the i-th edge, or None"""
    t = block.term
    if not t or t[2] < 0 or len(block.succs) != 2 or t[0] == "SwitchStmt":
        return None
    n = fn.nodes[t[2]]
    while n.k == "bin" and n.x[0] in ("&&", "||"):
        # the block that evaluates the last operand decides with that operand alone
        r = strip(n.c[1])
        if r is None or not (r.id in block.elems or n.c[1].id in block.elems or
                             (r.k == "bin" and r.x[0] in ("&&", "||"))):
            break
        n = n.c[1] if r.k != "bin" or r.x[0] not in ("&&", "||") else r
    return n, i == 0


def null_test(cond, truth):
    """(tested node, is null) when the condition tests a pointer/container for being null/empty"""
    n = strip(cond)
    while n.k == "un" and n.x[0] == "!" or n.k == "ocall" and n.mname == "operator!" and len(n.c) == 1:
        n, truth = strip(n.c[0]), not truth
    if n.k in ("bin", "ocall") and len(n.c) == 2:
        op = n.x[0] if n.k == "bin" else n.mname[8:]
        if op in ("==", "!="):
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                x = strip(b)
                if x.k == "nullptr" or x.k == "int" and x.x[0] == 0:
                    return strip(a), (op == "==") == truth
        if op == ">" and strip(n.c[1]).k == "int" and strip(n.c[1]).x[0] == 0:
            return strip(n.c[0]), not truth
        return None
    if n.k == "mcall" and n.mname == "empty":
        return strip(n.c[0]), truth
    t = n.type or ""
    if t.endswith("*") or n.k in ("mcall", "call", "ref", "mem") and "*" in t:
        return n, not truth
    return None
