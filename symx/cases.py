"""Deciding an arithmetic fact by splitting on the if-conditions inside a term (each side kept only when the solver finds it possible)."""
from __future__ import annotations

from .core import BudgetExceeded, Ctx, z3
from .poly import Canon


def _info(e, memo):
    """(variable ids, the simplest if-condition free of further conditions or None, size) of a term; computed once per distinct subterm."""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    stack = [e]
    while stack:
        t = stack[-1]
        k = t.get_id()
        if k in memo:
            stack.pop()
            continue
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if not ch:
            ids = frozenset([k]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
            memo[k] = (t, (ids, None, 1))
            continue
        sub = [memo[c.get_id()][1] for c in ch]
        ids = sub[0][0] if len(sub) == 1 else frozenset().union(*[x[0] for x in sub])
        conds = [x[1] for x in sub if x[1] is not None]
        if t.decl().kind() == z3.Z3_OP_ITE and sub[0][1] is None:
            conds.append(ch[0])
        cond = min(conds, key=lambda c: memo[c.get_id()][1][2]) if conds else None
        memo[k] = (t, (ids, cond, 1 + sum(x[2] for x in sub)))
    return memo[e.get_id()][1]


def by_cases(e, leaf, done=lambda ids: False, limit=20000, fallback=1500, probe=lambda: None):
    """Conditions (possibly none) under which `leaf` of a case of `e` is not already established.

    `leaf(term, path)` returns True, or a formula that is claimed to hold on that case; `done(ids)` may say early that the
    claim holds for any term over these variables.  The claim must be one that holds for a sum when it holds for every
    addend; when it fails for an addend the sum is examined as a whole.  `probe` is called when the claim is not plainly true:
    it may look for a counterexample in a cheaper way and raise to end the examination."""
    ctx = Ctx.cur
    memo, n = {}, [0]
    canon = ctx.data.setdefault("canon", None) or Canon(ctx.data.get("box", {}))
    ctx.data["canon"] = canon

    def simp(t):
        return z3.simplify(t, som=True)

    def possible(p):
        # an undecided side is kept
        ctx.solver.set("timeout", 700)
        try:
            return ctx._check(*p) != z3.unsat
        finally:
            ctx.solver.set("timeout", ctx.ex.query_timeout_ms)

    known = {}

    def rec(t, path, split, out, most):
        n[0] += 1
        if n[0] > most:
            raise BudgetExceeded("case split")
        ids, c, _ = _info(t, memo)
        if done(ids):
            return
        if c is None:
            r = leaf(t, path)
            path = path[0] + path[1]
            if r is True:
                return
            ctx.solver.set("timeout", 1500)
            try:
                st = ctx._check(*path, z3.Not(r))
            finally:
                ctx.solver.set("timeout", ctx.ex.query_timeout_ms)
            if st != z3.unsat:
                probe()
            if st == z3.unknown:
                st = ctx._check(*path, z3.Not(r))
            if st != z3.unsat:
                out.append(z3.Implies(z3.And(*path) if path else z3.BoolVal(True), r))
            return
        if split and z3.is_add(t):
            groups = _groups(t, memo)
            if len(groups) > 1:
                for g in groups:
                    rec(g, path, split, out, most)
                    if out:
                        return
                return
        at = canon.atom(c)
        if isinstance(at, bool):
            rec(simp(z3.substitute(t, (c, z3.BoolVal(at)))), path, split, out, most)
            return
        key, sign, linear = at
        if key in known:
            rec(simp(z3.substitute(t, (c, z3.BoolVal(known[key] == sign)))), path, split, out, most)
            return
        for lit, v in ((c, True), (z3.Not(c), False)):
            if linear is False:
                p = (path[0], path[1] + [lit])      # sides of a nonlinear condition are kept
            else:
                p = (path[0] + [lit], path[1])
                if not possible(p[0]):
                    continue
            known[key] = v == sign
            rec(simp(z3.substitute(t, (c, z3.BoolVal(v)))), p, split, out, most)
            del known[key]
            if split and out:
                return

    out = []
    e = simp(e)
    rec(e, ([], []), True, out, limit)
    if not out:
        return out
    part, out = out, []
    n[0] = 0
    try:
        rec(e, ([], []), False, out, fallback)
    except BudgetExceeded as exc:
        if "case split" not in str(exc):
            raise
        return out or part
    return out


def _groups(e, memo):
    """The addends of a sum, collected by the variables they have in common."""
    groups = []     # (set of variable ids, [addends])
    for a in e.children():
        ids = _info(a, memo)[0]
        hit = [g for g in groups if g[0] & ids]
        for g in hit:
            groups.remove(g)
        groups.append((ids.union(*[g[0] for g in hit]), [x for g in hit for x in g[1]] + [a]))
    return [z3.Sum(xs) if len(xs) > 1 else xs[0] for _, xs in groups]
