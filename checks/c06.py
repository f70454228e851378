#!/usr/bin/env python3-vt
"""C06: value semantics of expansions and coefficient tables under random histories, with AddressSanitizer, LeakSanitizer and memcheck."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from chk import *
import unit as U

class History:
    """Generates a valid random history and knows which object every operation may change, and what it must then equal."""
    def __init__(self, rng, length, pmax=5, kinds="mlc"):
        self.r, self.lines, self.ops = rng, [], []
        self.p = {}  # object name -> order (-1: default constructed), containers have [count, order]
        self.pmax, self.kinds = pmax, kinds
        self.n = 0
        for _ in range(length):
            self.step()
    def emit(self, line, target=(), equal=None, same=None, dead=None):
        """target: objects that may change; equal: (a, b) must have equal state afterwards; same: object that must not change."""
        self.lines += [line, "st"]
        self.ops.append(dict(line=line, target=set(target), equal=equal, dead=dead))
    def pick(self, k, cond=lambda p: True):
        L = [o for o in self.p if o[0] == k and cond(self.p[o])]
        return L[self.r.integers(len(L))] if L else None
    def new(self, k):
        self.n += 1
        return f"{k}{self.n}"
    def vec(self, s=1.):
        return " ".join(f"{x:.17g}" for x in self.r.normal(size=3) * s)
    def step(self):
        r = self.r; k = self.kinds[r.integers(len(self.kinds))]; objs = [o for o in self.p if o[0] == k]
        if len(objs) > 7 or (len(objs) > 3 and r.random() < .08):
            o = objs[r.integers(len(objs))]; del self.p[o]
            return self.emit(f"{k}del {o[1:]}", {o}, dead=o)
        ops = {"c": ["new", "def", "copy", "copy", "ass", "ass", "self", "tmp", "set", "build", "stat"],
               "m": ["new", "new", "def", "copy", "copy", "ass", "ass", "ass", "self", "tmp", "swap", "add", "add", "dip", "shift", "axpy", "cen", "set", "vec", "vgrow", "vcut", "vcopy", "vget", "vdel", "twin"],
               "l": ["new", "new", "def", "copy", "copy", "ass", "ass", "ass", "self", "tmp", "swap", "shift", "m2l", "m2l", "cen", "set", "vec", "vgrow", "vcut", "vcopy", "vget", "vdel", "twin"]}[k]
        op = ops[r.integers(len(ops))] if objs else "new"
        V = k.upper()
        if op in ("new", "def", "build", "stat"):
            o = self.new(k)
            p = {"def": -1, "stat": 10}.get(op, int(r.integers(0, self.pmax + 1)))
            self.p[o] = p
            arg = "" if op in ("def", "stat") else f" {p}"
            return self.emit(f"{k}{op} {o[1:]}{arg}" + (" " + self.vec() if op == "new" and k != "c" else ""), {o})
        a = self.pick(k)
        if op == "copy":
            o = self.new(k); self.p[o] = self.p[a]
            return self.emit(f"{k}copy {o[1:]} {a[1:]}", {o}, (o, a))
        if op == "ass":
            b = self.pick(k); self.p[b] = self.p[a]
            return self.emit(f"{k}ass {b[1:]} {a[1:]}", {b} - {a}, (a, b))
        if op == "self":
            return self.emit(f"{k}ass {a[1:]} {a[1:]}")
        if op == "tmp":
            self.p[a] = int(r.integers(0, self.pmax + 1))
            return self.emit(f"{k}tmp {a[1:]} {self.p[a]}" + (" " + self.vec() if k != "c" else ""), {a})
        if op == "swap":
            b = self.pick(k)
            if a == b: return
            self.p[a], self.p[b] = self.p[b], self.p[a]
            return self.emit(f"{k}swap {a[1:]} {b[1:]}", {a, b}, ("swap", a, b))
        if op == "cen":
            if self.p[a] < 0: return
            return self.emit(f"{k}cen {a[1:]} {self.vec()}", {a})
        if op == "set":
            if self.p[a] < 0: return
            n = int(r.integers(0, self.p[a] + 1)); m = int(r.integers(0, n + 1))
            if k == "c":
                nn = int(r.integers(0, self.p[a] + 1)); mm = int(r.integers(-nn, nn + 1))
                return self.emit(f"cset {a[1:]} {n} {m} {nn} {mm} {r.normal():.17g}", {a})
            return self.emit(f"{k}set {a[1:]} {n} {m} {r.normal():.17g} {r.normal() if m else 0:.17g}", {a})
        if op == "add" or op == "dip":
            if self.p[a] < 0: return
            return self.emit(f"m{op} {a[1:]} {r.normal():.17g} {self.vec()}" + (" " + self.vec() if op == "dip" else ""), {a})
        if op == "twin": # a copy behaves the same under the same change
            if self.p[a] < 0: return
            o = self.new(k); self.p[o] = self.p[a]
            self.emit(f"{k}copy {o[1:]} {a[1:]}", {o}, (o, a))
            if k == "m":
                arg = f"{r.normal():.17g} {self.vec()} {self.vec()}"
                self.emit(f"mdip {a[1:]} {arg}", {a}); self.emit(f"mdip {o[1:]} {arg}", {o}, (o, a))
            else:
                b = self.pick("m", lambda p: p >= self.p[a])
                if b is None: return
                self.emit(f"lm2l {a[1:]} {b[1:]}", {a}); self.emit(f"lm2l {o[1:]} {b[1:]}", {o}, (o, a))
            return
        if op in ("shift", "axpy", "m2l"):
            if self.p[a] < 0: return
            b = self.pick("m" if op == "m2l" else k, lambda p: not isinstance(p, list) and p >= self.p[a])
            if b is None or (b == a): return
            return self.emit(f"{k}{op} {a[1:]} {b[1:]}" + (f" {r.choice([0., 1., -2.5])}" if op == "axpy" else ""), {a})
        vs = [o for o in self.p if o[0] == V]
        if op == "vec":
            o = self.new(V); self.p[o] = [int(r.integers(1, 5)), self.p[a]]
            return self.emit(f"{k}vec {o[1:]} {self.p[o][0]} {a[1:]}", {o})
        if not vs: return
        v = vs[r.integers(len(vs))]; cnt, pv = self.p[v]
        if op == "vgrow" and pv == self.p[a]:
            g = int(r.integers(1, 9)); self.p[v][0] += g
            return self.emit(f"{k}vgrow {v[1:]} {g} {a[1:]}", {v})
        if op == "vcut":
            g = int(r.integers(1, 4)); self.p[v][0] = max(0, cnt - g)
            return self.emit(f"{k}vcut {v[1:]} {g}", {v})
        if op == "vcopy":
            w = vs[r.integers(len(vs))]; self.p[w] = list(self.p[v])
            return self.emit(f"{k}vcopy {w[1:]} {v[1:]}", {w}, (v, w))
        if op == "vget" and cnt > 0:
            o = self.new(k); self.p[o] = pv
            return self.emit(f"{k}vget {v[1:]} {o[1:]}", {o})
        if op == "vdel":
            del self.p[v]
            return self.emit(f"{k}vdel {v[1:]}", {v}, dead=v)

def judge(c, key, H, out):
    prev = {}
    S = [dict(w.split("=") for w in l.split()[1:]) for l in out if l.startswith("S")]
    if len(S) != len(H.ops):
        c.expect(key, "complete log", False); return
    for i, (o, s) in enumerate(zip(H.ops, S)):
        rp = dict(script=H.lines[:2 * i + 2], operation=o["line"])
        opn = o["line"].split()[0]
        if "t" in prev:
            c.expect(opn, "shared tables unchanged", s["t"] == prev["t"], rp, "after " + o["line"])
        for k, h in prev.items():
            if k not in o["target"] and k != "t":
                c.expect(opn, "other objects unchanged", s.get(k) == h, rp, f"{o['line']} changed {k}")
        if o["equal"]:
            e = o["equal"]
            if e[0] == "swap":
                c.expect(opn, "swap exchanges values", s[e[1]] == prev[e[2]] and s[e[2]] == prev[e[1]], rp, o["line"])
            else:
                c.expect(opn, "equal values", s[e[0]] == s[e[1]], rp, f"after {o['line']}: {e[0]} differs from {e[1]}")
        prev = {k: h for k, h in s.items()}
        c.count("operation " + opn)
    c.count("object states observed", sum(len(s) for s in S))

def main():
    c = Check("C06", "random histories of constructions, copies, assignments, swaps, changes, containers and destructions; after every operation the value of every live object "
              "is recorded; distinct = different operation sequences; non-trivial when at least one copy or assignment took place between differently sized objects",
              ["objects are used as their interface allows: contributions only between orders that fit"])
    c.need("asan", "unit"); c.need("rel", "unit")
    rng = c.rng
    # fixed histories first: every kind of source and target
    fixed = []
    for k in "ml":
        o = "1 3 0 0 0" ; L = []
        src = {"def": f"{k}def 1", "empty": f"{k}new 1 4 .1 .2 .3", "full": f"{k}new 1 6 .1 .2 .3"}
        dst = {"def": f"{k}def 2", "small": f"{k}new 2 1 1 1 1", "big": f"{k}new 2 9 1 1 1", "same": f"{k}new 2 6 -1 0 1"}
        for sn, sl in src.items():
            for dn, dl in dst.items():
                for how in ("ass", "copy+del", "chain"):
                    H = History(rng, 0); o1, o2 = k + "1", k + "2"
                    H.emit(sl, {o1})
                    if sn == "full":
                        H.emit(f"{k}set 1 2 1 .5 .25", {o1}); H.emit(f"{k}set 1 6 6 -.5 .25", {o1})
                    H.emit(dl, {o2})
                    if dn != "def":
                        H.emit(f"{k}set 2 1 1 .5 -.25", {o2})
                    H.emit(f"{k}ass 2 1", {o2}, (o1, o2))
                    if sn != "def":
                        H.emit(f"{k}set 1 1 0 .7 0", {o1}); H.emit(f"{k}set 2 1 0 .7 0", {o2}, (o1, o2)); H.emit(f"{k}set 2 1 1 .7 .1", {o2})
                    if how == "copy+del":
                        H.emit(f"{k}copy 3 2", {k + "3"}, (k + "3", o2)); H.emit(f"{k}del 2", {o2}, dead=o2); H.emit(f"{k}ass 1 3", {o1}, (o1, k + "3"))
                    if how == "chain":
                        H.emit(f"{k}def 4", {k + "4"}); H.emit(f"{k}ass 4 2", {k + "4"}, (k + "4", o2)); H.emit(f"{k}ass 2 2"); H.emit(f"{k}ass 1 4", {o1}, (o1, k + "4"))
                        H.emit(f"{k}del 1", {o1}, dead=o1)
                    fixed.append((f"fixed-{k}-{sn}-{dn}-{how}", H))
    for a, b in ((0, 3), (3, 0), (2, 2), (-1, 2), (2, -1), (5, 1)):
        H = History(rng, 0)
        H.emit("cnew 1 %d" % a if a >= 0 else "cdef 1", {"c1"}); H.emit("cnew 2 %d" % b if b >= 0 else "cdef 2", {"c2"})
        H.emit("cass 2 1", {"c2"}, ("c1", "c2")); H.emit("ccopy 3 2", {"c3"}, ("c3", "c2"))
        if a >= 0:
            H.emit("cset 1 0 0 0 0 7.5", {"c1"}); H.emit("cset 2 0 0 0 0 7.5", {"c2"}, ("c1", "c2"))
        H.emit("cass 1 1"); H.emit("cdel 1", {"c1"}, dead="c1"); H.emit("cass 3 2", {"c3"}, ("c3", "c2")); H.emit("cstat 5", {"c5"}); H.emit("cass 3 5", {"c3"}, ("c3", "c5"))
        fixed.append((f"fixed-c-{a}-{b}", H))
    L = list(fixed)
    for i in range(400 if c.thorough else 28):
        L.append((f"random-{i}", History(rng, 400 if c.thorough else 160, pmax=int(rng.choice([2, 5, 8])), kinds=["mlc", "ml", "m", "l", "c", "mml", "cl"][i % 7])))
    # the leak detector must see a deliberate leak here
    r = U.script(c, "selftest", ["leaktest", "leaktest", "leak"], "asan", leaks=True) if False else None
    env = dict(os.environ); env.update(PB.ENV); env["ASAN_OPTIONS"] += ":detect_leaks=1"
    t = subprocess.run([c.exe("asan", "unit")], input="leaktest\nleaktest\nleak\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    leaks = "K 1" in t.stdout
    if not leaks:
        c.inconclusive.append("LeakSanitizer does not work here: leaks were not looked for")
    # several fixed histories share one process: objects are destroyed in between
    def one(cs):
        name, H = cs
        r = U.script(c, name, H.lines + ["leak"], "asan", leaks=leaks)
        if r is None:
            return
        out, err = r if leaks else (r, "")
        judge(c, name, H, out)
        if leaks:
            c.expect(name, "no leak", "K 0" in out, dict(script=H.lines, stderr=err[-2500:]), " ".join(err.split())[:200])
        used = {o["line"].split()[0][1:] for o in H.ops}
        c.case(name, nontrivial=bool(used & {"ass", "copy", "vcopy", "vgrow", "swap"}), sample=dict(case=name, operations=[o["line"][:60] for o in H.ops[:12]]))
    c.map(one, L)
    # uninitialised storage: a selection under memcheck
    def mem(cs):
        name, H = cs
        sh = [l for h in H for l in h.lines + ["leak"]]
        p = U.call(["valgrind", "--error-exitcode=55", "--quiet", "--num-callers=8", c.exe("rel", "unit")], sh, {**os.environ, **PB.ENV}, 600)
        if p is None: c.viol(name + ":hang", "not finished after 600 s under memcheck", dict(script=sh[:2000])); return
        c.count("memcheck runs")
        own = [b for b in p.stderr.split("\n==") if "expansion" in b]
        if p.returncode == 55 or p.returncode < 0:
            c.expect(name, "memcheck", False, dict(script=sh[:2000], report=p.stderr[-4000:]), " ".join(p.stderr.split())[:300])
        c.case("memcheck-" + name)
    fx = [h for n, h in fixed]
    grp = [(f"m{i}", fx[i::4]) for i in range(4)] + [(f"r{i}", [h for n, h in L if n.startswith("random")][i::3][:(40 if c.thorough else 3)]) for i in range(3)]
    if os.path.exists("/usr/bin/valgrind"):
        c.map(mem, grp)
    c.finish()
main()
