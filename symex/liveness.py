"""Backward liveness of local names, used only to decide which states are worth
merging (never for soundness)."""
import ast


def reads(n):
    r = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
            r.add(x.id)
    return r


def annotate(func):
    if getattr(func, '_live_done', False):
        return
    func._live_done = True
    always = set()
    for x in ast.walk(func):
        if x is not func and isinstance(x, (ast.FunctionDef, ast.Lambda)):
            always |= reads(x)
    block(func.body, set(always), None, None)


def block(stmts, out, brk, cont):
    for st in reversed(stmts):
        st._live = frozenset(out)
        out = transfer(st, out, brk, cont)
    return out


def kill(t, out):
    if isinstance(t, ast.Name):
        return out - {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            out = kill(x, out)
    return out


def transfer(st, out, brk, cont):
    if isinstance(st, ast.Assign):
        r = set(out)
        for t in st.targets:
            r = kill(t, r)
        for t in st.targets:
            r |= reads(t)
        return r | reads(st.value)
    if isinstance(st, ast.AugAssign):
        r = out | reads(st.value) | reads(st.target)
        if isinstance(st.target, ast.Name):
            r.add(st.target.id)
        return r
    if isinstance(st, ast.If):
        a = block(st.body, set(out), brk, cont)
        b = block(st.orelse, set(out), brk, cont) if st.orelse else out
        return reads(st.test) | a | b
    if isinstance(st, (ast.For, ast.While)):
        after = block(st.orelse, set(out), brk, cont) if st.orelse else set(out)
        head = set(after)
        if isinstance(st, ast.While):
            head |= reads(st.test)
        for _ in range(3):
            b = block(st.body, set(head), set(out), set(head))
            if isinstance(st, ast.For):
                b = kill(st.target, b) | reads(st.target)
            new = head | b
            if new == head:
                break
            head = new
        if isinstance(st, ast.For):
            return head | reads(st.iter)
        return head
    if isinstance(st, ast.Return):
        return reads(st.value) if st.value is not None else set()
    if isinstance(st, ast.Break):
        return set(brk) if brk is not None else set(out)
    if isinstance(st, ast.Continue):
        return set(cont) if cont is not None else set(out)
    if isinstance(st, (ast.Try, ast.With)):
        r = set(out) | reads(st)
        for part in ('body', 'orelse', 'finalbody'):
            block(getattr(st, part, []) or [], set(r), brk, cont)
        for h in getattr(st, 'handlers', []):
            block(h.body, set(r), brk, cont)
        return r
    return set(out) | reads(st)
