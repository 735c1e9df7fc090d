"""liveness of local names at the head of a loop (structured code, conservative: unknown statements read everything
they mention and kill nothing)"""
import ast


def reads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


def targets(t):
    """(names surely assigned, names read) by an assignment target"""
    if isinstance(t, ast.Name):
        return {t.id}, set()
    if isinstance(t, (ast.Tuple, ast.List)):
        a, r = set(), set()
        for x in t.elts:
            b, s = targets(x)
            a |= b
            r |= s
        return a, r
    return set(), reads(t)


class Live:
    def __init__(self, everything):
        self.cont, self.brk = [], []
        self.everything = everything

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            a, r = set(), reads(s.value)
            for t in s.targets:
                b, q = targets(t)
                a |= b
                r |= q
            return (out - a) | r
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            a, r = targets(s.target)
            return (out - a) | r | reads(s.value)
        if isinstance(s, ast.AugAssign):
            return out | reads(s.value) | ({s.target.id} if isinstance(s.target, ast.Name) else reads(s.target))
        if isinstance(s, ast.If):
            return self.block(s.body, out) | self.block(s.orelse, out) | reads(s.test)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out) | out
            head = set(after)
            while True:
                self.cont.append(head)
                self.brk.append(out)
                b = self.block(s.body, head)
                self.cont.pop()
                self.brk.pop()
                if isinstance(s, ast.For):
                    a, r = targets(s.target)
                    b = (b - a) | r
                else:
                    b = b | reads(s.test)
                if b <= head:
                    break
                head = head | b
            return head | reads(s.iter if isinstance(s, ast.For) else s.test)
        if isinstance(s, ast.Continue):
            return set(self.cont[-1]) if self.cont else set(self.everything)
        if isinstance(s, ast.Break):
            return set(self.brk[-1]) if self.brk else set(self.everything)
        if isinstance(s, (ast.Return, ast.Raise)):
            return reads(s)
        if isinstance(s, ast.Try):
            # anything live in a handler may be needed at every point of the body
            fin = self.block(s.finalbody, out)
            h = set()
            for x in s.handlers:
                h |= self.block(x.body, fin) | (reads(x.type) if x.type else set())
            return self.block(s.body, self.block(s.orelse, fin) | h) | h | self.mentioned_handlers(s)
        if isinstance(s, ast.With):
            a, r = set(), set()
            for it in s.items:
                r |= reads(it.context_expr)
                if it.optional_vars is not None:
                    b, q = targets(it.optional_vars)
                    r |= q
                    a |= b
            return (self.block(s.body, out) - a) | r
        return out | reads(s)

    def mentioned_handlers(self, s):
        return set()


def live_at_head(loop, fn):
    """names live at the head of `loop` inside function `fn`"""
    inside = set(map(id, ast.walk(loop)))
    outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
    allnames = reads(fn)
    L = Live(allnames)
    return L.stmt(loop, outside)
