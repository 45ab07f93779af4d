"""Obligations, verdicts and evidence."""
import json
import os
import time
import traceback
from . import alg as A
from .alg import Rat, Phi, R
from .values import *
from . import evalr
from . import interp as I

DEFINITE = "definite error"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """an anchor of the property vanished: the analysis cannot run"""


class Timeout(BaseException):
    """one group of obligations used up its time"""


BUDGET = float(os.environ.get("SA_BUDGET", "150"))


class Ob:
    __slots__ = ("name", "status", "where", "detail", "how", "kind")

    def __init__(self, name, status, where="", detail="", how=""):
        self.name, self.status, self.where, self.detail, self.how = name, status, where, detail, how

    def js(self):
        return {"obligation": self.name, "status": self.status, "where": self.where,
                "how": self.how, "detail": self.detail[:600]}


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.functions = set()
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()
        self.counts = {}
        self.worlds = []
        self.deadline = None
        self.dead = None

    # -- basic verdicts ------------------------------------------------------
    def holds(self, name, where="", how="", detail=""):
        self.obs.append(Ob(name, "holds", where, detail, how))
        return True

    def violated(self, name, where="", detail="", how=""):
        self.obs.append(Ob(name, "violated", where, detail, how))
        return False

    def undecided(self, name, where="", detail="", how=""):
        if DEFINITE in detail:
            return self.violated(name, where, detail[detail.index(DEFINITE):], how)
        self.obs.append(Ob(name, "undecided", where, detail, how))
        return None

    def truth(self, name, ok, where="", detail="", how=""):
        if ok:
            return self.holds(name, where, how)
        return self.violated(name, where, detail, how)

    # -- equality of value numbers ------------------------------------------
    def eq(self, name, got, want, where="", facts=(), assume=True, how=None, total=False):
        """got == want in the value-number domain (under assume); total: an expression without value in the whole range is wrong"""
        if isinstance(got, Sc):
            got = got.e
        if isinstance(want, Sc):
            want = want.e
        if isinstance(got, (int, float)) and not isinstance(got, bool):
            got = R(got)
        if isinstance(want, (int, float)) and not isinstance(want, bool):
            want = R(want)
        if isinstance(got, Unknown):
            return self.undecided(name, where, got.reason)
        if not isinstance(got, (Rat, Phi, bool)):
            if A.same(got, want):
                return self.holds(name, where, how or "identical value")
            return self.violated(name, where, "computes %r, expected %r" % (got, want))
        how = how or "normal forms agree"
        st = equal(got, want, facts, assume, self.seed)
        if st[0] == "equal":
            return self.holds(name, where, how)
        if st[0] == "agree":
            return self.holds(name, where, "value numbers agree under random interpretation")
        if st[0] == "differ":
            return self.violated(name, where, "code computes %s ; required %s ; distinguished: %s" % (
                A.clip(got, 500), A.clip(want, 500), st[1]))
        if total and st[0] == "unknown" and st[1] == "domain":
            return self.violated(name, where, "code computes %s, which has no value there ; required %s" % (
                A.clip(got, 500), A.clip(want, 300)))
        return self.undecided(name, where, st[1])

    def approx(self, name, got, want, points, tol, where="", how="extracted approximation within tolerance"):
        """an extracted approximation agrees with the exact function at every listed point"""
        r = has_unk(got)
        if r:
            return self.undecided(name, where, r)
        n = 0
        for env in points:
            x, why = evalr.evaluate(got, env, self.seed)
            if x is None:
                reason = why
                if why.split(": ", 1)[-1] in ("log domain", "root of a negative number", "domain"):
                    return self.violated(name, where, "at %s the extracted value does not exist (%s)" % (
                        ", ".join("%s=%s" % (A.show(k), v) for k, v in env.items()), why))
                continue
            y = want(env)
            n += 1
            if not abs(x - y) <= tol * (1 + abs(y)):
                return self.violated(name, where, "at %s the extracted value is %s, exact %s" % (
                    ", ".join("%s=%s" % (A.show(k), v) for k, v in env.items()), evalr.show_num(x), evalr.show_num(y)))
        if n == 0:
            return self.undecided(name, where, reason)
        return self.holds(name, where, how)

    def run(self, name, fn, where=""):
        """run one group of obligations; unsupported constructs leave it undecided"""
        try:
            self.deadline = time.time() + BUDGET
            try:
                return fn()
            finally:
                self.deadline = None
        except Timeout:
            self.undecided(name, where, "time budget of the analysis")
        except Unsupported as e:
            self.undecided(name, where, "outside the vocabulary of the analysis: %s" % e)
        except RecursionError:
            self.undecided(name, where, "recursion limit of the analysis")
        except Broken:
            raise
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError) as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.undecided(name, where, self.dead or "analysis error: %s: %s" % (type(e).__name__, e))
        return None

    # -- summary -------------------------------------------------------------
    def summary(self):
        d = {"holds": 0, "violated": 0, "undecided": 0}
        for o in self.obs:
            d[o.status] += 1
        return d

    def scope(self):
        fs, loops, calls = set(self.functions), 0, 0
        for w in self.worlds:
            fs |= w.ip.functions
            loops += len(w.ip.loops)
            calls += w.ip.calls
        return sorted(fs), loops, calls


def equal(got, want, facts=(), assume=True, seed=1):
    r = evalr.opaque_in(got)
    with A.facts(*facts):
        with A.assuming(assume) as ok:
            if not ok:
                return ("equal", "vacuous")
            if A.same(got, want):
                return ("equal", None)
            if isbool(got) and isbool(want):
                x = A.bor(A.band(got, A.bnot(want)), A.band(want, A.bnot(got)))
                if x is False:
                    return ("equal", None)
                if assume is not True and A.band(assume, x) is False:
                    return ("equal", None)
            else:
                # a difference shows at once; subtracting the normal forms may take long
                if not r and isinstance(got, (Rat, Phi)):
                    st = evalr.distinguish(got, want, facts, assume, tries=3, seed=seed)
                    if st[0] == "differ":
                        return st
                try:
                    d = A.lift(lambda x, y: (x - y) if isinstance(x, Rat) and isinstance(y, Rat) else
                               (A.ZERO if A.same(x, y) else A.RONE), got, want)
                    if zero_under(d, assume):
                        return ("equal", None)
                except TypeError:
                    pass
    if r:
        return ("unknown", r)
    st = evalr.distinguish(got, want, facts, assume, seed=seed)
    return st


def zero_under(d, assume):
    for c, leaf in gleaves(d):
        if isinstance(leaf, Rat) and leaf.is_zero():
            continue
        x = A.band(c, assume)
        if x is False:
            continue
        with A.assuming(x) as ok:
            if not ok:
                continue
            # re-normalise the leaf under the path facts
            try:
                l2 = A.subst(leaf, {})
            except Exception:
                return False
            if isinstance(l2, Rat) and l2.is_zero():
                continue
        return False
    return True
