"""What a contract module uses."""
import ast
import z3
from ir import *
from sym import HEAPNAMES, Contract, Exec, LV, PyPtr, And, Or, Not, If, TRUE, FALSE, I
from spec import macro, recfn, RecFn, specfn, FUNCS, RECS, Env, acc, sel, vlen, vat, is_vec, is_map, lift, SpecError, is_instance
from stl import STL, mathfn


class Lemma:
    """forall vars: requires -> ensures; proved (optionally by well-founded induction on `induct`), then usable as an axiom"""

    def __init__(self, name, vars, requires, ensures, induct=None, pats=None, uses=(), hints=(), assume=None):
        self.assume = assume    # text: an axiom about library functions, not proved, reported as an assumption
        self.name, self.vars, self.requires, self.ensures, self.induct, self.pats, self.uses = name, vars, list(requires), list(ensures), induct, pats, uses
        self.hints = list(hints)
        # by_<lemma>(terms): one instance of the lemma, usable as a hint that is assumed, not proved again
        FUNCS["by_" + name] = lambda env, *a: z3.Implies(*self.formula({n: (z3.ToReal(lift(v)) if s == z3.RealSort() and lift(v).sort() == z3.IntSort() else lift(v)) for (n, s), v in zip(self.vars, a)}))

    def env(self, vals):
        def look(n, which):
            if n in vals:
                return vals[n]
            raise SpecError("lemma %s: no variable %s" % (self.name, n))
        return Env(look, sortof=self.sortof)
    sortof = None

    def formula(self, vals):
        e = self.env(vals)
        pre = And(*[e.boolean(r) for r in self.requires])
        post = And(*[e.boolean(r) for r in self.ensures])
        return pre, post

    def axiom(self):
        vals = {n: z3.FreshConst(s, n) for n, s in self.vars}
        pre, post = self.formula(vals)
        pats = []
        if self.pats:
            e = self.env(vals)
            for p in self.pats:
                t = e.ev(p)
                pats.append(z3.MultiPattern(*t) if isinstance(t, tuple) else t)
        return z3.ForAll(list(vals.values()), z3.Implies(pre, post), patterns=pats)

    def needs(self):
        """the lemmas this one rests on"""
        return set(self.uses) | {n.func.id[3:] for h in self.hints for n in ast.walk(ast.parse(h.strip(), mode="eval")) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.startswith("by_")}

    def obligations(self, lemmas):
        """[(name, facts, goal)]"""
        if self.assume:
            return []
        vals = {n: z3.FreshConst(s, n) for n, s in self.vars}
        facts = [lemmas[u].axiom() for u in self.uses]
        pre, post = self.formula(vals)
        facts.append(pre)
        if self.induct:
            e = self.env(vals)
            meas = e.ev(self.induct)
            v2 = {n: z3.FreshConst(s, n) for n, s in self.vars}
            e2 = self.env(v2)
            m2 = e2.ev(self.induct)
            p2, q2 = self.formula(v2)
            pats = []
            if self.pats:
                for p in self.pats:
                    t = e2.ev(p)
                    pats.append(z3.MultiPattern(*t) if isinstance(t, tuple) else t)
            if not any(h.startswith("ih(") for h in self.hints):
                facts.append(z3.ForAll(list(v2.values()), z3.Implies(z3.And(p2, m2 >= 0, m2 < meas), q2), patterns=pats))
            facts.append(meas >= 0)
        out = []
        e = self.env(vals)
        for i, h in enumerate(self.hints):
            if h.startswith("ih("):     # one instance of the induction hypothesis
                a = [lift(e.e(x)) for x in ast.parse(h, mode="eval").body.args]
                v2 = {n: (z3.ToReal(v) if s == z3.RealSort() and v.sort() == z3.IntSort() else v) for (n, s), v in zip(self.vars, a)}
                m2 = self.env(v2).ev(self.induct)
                p2, q2 = self.formula(v2)
                facts.append(z3.Implies(z3.And(p2, m2 >= 0, m2 < meas), q2))
                continue
            g = e.boolean(h)
            if not is_instance(h):
                out.append(("lemma %s hint %d" % (self.name, i), list(facts), g))
            facts.append(g)
        out.append(("lemma %s" % self.name, list(facts), post))
        return out


class UnitSpec:
    """a translation unit, the contracts over it and the functions to verify"""

    def __init__(self, src, build, verify, flags=(), opts=None, lemmas=None, inst=None, stl=None, prep=None):
        self.src, self.build, self.verify, self.flags, self.opts = src, build, verify, flags, opts or {}
        self.lemmas = lemmas
        self.inst = inst        # predicate(fn ir) choosing instantiations
        self.stl = stl
        self.prep = prep


class Property:
    def __init__(self, id, units, driver=None, assumptions=(), note="", bounded=(), bounded_secs=15):
        self.id, self.units, self.driver, self.assumptions, self.note = id, units, driver, list(assumptions), note
        self.bounded = list(bounded)      # functions decided by the bounded replay driver only (never counted as proved)
        self.bounded_secs = bounded_secs


class Driver:
    """C++ replay driver: searches for an input on which the real code breaks the contract"""

    def __init__(self, src, sources=(), flags=(), secs=60, libs=()):
        self.src, self.sources, self.flags, self.secs, self.libs = src, list(sources), list(flags), secs, list(libs)
