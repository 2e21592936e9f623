"""C12: no generated file is reported as written unless it was."""
import json, os
from sa import core, status, facts
from sa.facts import AnalysisBroken

RULE = ("typestate of every output stream: on every path to a successful return the file was opened, written, flushed and tested good "
        "after the last write; every directory creation and file copy is followed by a test of its result before success")
EXPLAIN = ("Every function in lib/src and app that owns or receives an output file stream is explored over its control-flow graph with a "
           "per-stream typestate (unopened, opened, good, written, flushed, failed), correlated with the boolean results tested on the "
           "path; helpers taking a stream are summarised. Reported: a path that returns success (or an undetermined result) while data is "
           "unflushed, the state after flushing is untested, the stream is known to have failed, or nothing was written; a writer that "
           "opens a file without a preceding successful directory creation; a file-system operation whose error code is not examined.")
ASSUME = ["the operating system reports a failure at the latest when the stream is flushed",
          "file contents are correct if the bytes were accepted by the stream (contents are the subject of other properties)"]

DATA = os.path.join(facts.VERIF, "sa", "data", "dirs.json")
OUT = ("std::basic_ofstream", "std::ofstream", "std::basic_fstream")


def is_ofs(t):
    t = t.replace("const ", "")
    return t.startswith("std::ofstream") or t.startswith("std::basic_ofstream") or t.startswith("std::fstream") or t.startswith("std::basic_fstream")


def is_ostream_ref(t):
    return t.endswith("&") and not t.startswith("const ") and ("ofstream" in t or t.replace(" ", "") in ("std::ostream&", "std::basic_ostream<char>&"))


class Streams:
    def __init__(self, db):
        self.db = db
        self.S = status.get(db)
        self.memo = {}
        self.active = set()
        self.bad = []

    def svar(self, fn, e, sv):
        """The tracked stream variable an expression denotes (chains of << included)."""
        x = core.strip(e)
        while x:
            if x[0] == "v":
                return x[3] if x[3] in sv else None
            if x[0] == "mem" and x[3] in sv:
                return x[3]
            if x[0] == "op" and x[3] in ("<<",) and x[5]:
                x = core.strip(x[5][0])
                continue
            if x[0] == "call" and x[5] and x[3]:
                d = self.db.decls.get(x[3])
                if d and d["n"] in ("write", "put", "flush"):
                    x = core.strip(x[5])
                    continue
            if x[0] == "un" and x[3] in ("*", "&"):
                x = core.strip(x[4])
                continue
            return None
        return None

    def test(self, fn, e, sv):
        """(stream var, sign) of a stream state test."""
        s = core.strip(e)
        if not s:
            return None
        r = self.S.stream_test(fn, s)
        if r:
            o = s[5] if s[0] == "call" else (s[5][0] if s[5] else None)
            v = self.svar(fn, o, sv) if o else None
            if v is not None:
                return v, r, s
        return None

    @staticmethod
    def get(ss, v):
        return dict(ss).get(v)

    @staticmethod
    def put(ss, v, x):
        d = dict(ss)
        if x is None:
            d.pop(v, None)
        else:
            d[v] = x
        return tuple(sorted(d.items(), key=str))

    def after_test(self, st, ok, name="good"):
        if not ok:
            return "X"
        return {"O": "K0", "F": "K", "U": "U"}.get(st, st)

    def effects(self, fn, e, ss, sv):
        """Possible stream states after evaluating an expression (calls in evaluation order of the tree walk)."""
        outs = [ss]
        for n in self.post(e):
            k = n[0]
            if k == "op" and n[3] == "<<" and len(n[5]) == 2:
                v = self.svar(fn, n[5][0], sv)
                if v is not None:
                    a = core.strip(n[5][1])
                    manip = a and a[0] == "fref" and a[3] and any(x in (self.db.decls.get(a[3]) or {"n": ""})["n"] for x in ("endl", "flush"))
                    outs = [self.write(o, v) for o in outs]
                    if manip:
                        outs = [self.flush(o, v) for o in outs]
            elif k == "call" and n[3]:
                d = self.db.decls.get(n[3])
                v = self.svar(fn, n[5], sv) if n[5] else None
                if v is not None and d:
                    if d["n"] in ("write", "put"):
                        outs = [self.write(o, v) for o in outs]
                    elif d["n"] == "flush":
                        outs = [self.flush(o, v) for o in outs]
                    elif d["n"] == "close":
                        outs = [self.put(o, v, {"W": "F", "K0": "K0"}.get(self.get(o, v), self.get(o, v))) for o in outs]
                    elif d["n"] == "open":
                        outs = [self.put(o, v, "O") for o in outs]
                    elif d["n"] == "clear":
                        outs = [self.put(o, v, "L") for o in outs]
                    elif d["n"] == "operator<<":
                        outs = [self.write(o, v) for o in outs]
                for i, a in enumerate(n[4]):
                    v = self.svar(fn, a, sv)
                    if v is None:
                        continue
                    t = self.S.targets(fn, n)
                    if t:
                        new = []
                        for o in outs:
                            for x in t:
                                for out, es in self.summary(self.db.fns[x], i, self.get(o, v)):
                                    new.append(self.put(o, v, es))
                        outs = new or outs
                    elif i < len(d["pt"]) and not d["pt"][i].startswith("const "):
                        outs = [self.write(o, v) for o in outs]
                    elif d and d["q"] == "std::ostreambuf_iterator":
                        outs = [self.write(o, v) for o in outs]
            elif k == "ctor":
                for a in n[4]:
                    v = self.svar(fn, a, sv)
                    d = self.db.decls.get(n[3])
                    if v is not None and d and "ostreambuf_iterator" in d["q"] + d.get("cls", "") or v is not None and d and "ostream_iterator" in d["q"] + d.get("cls", ""):
                        outs = [self.write(o, v) for o in outs]
            if len(outs) > 1:
                outs = sorted(set(outs), key=str)
        return outs

    def post(self, e):
        if not e or e[0] == "lam":
            return
        for c in core.kids(e):
            yield from self.post(c)
        yield e

    def write(self, ss, v):
        st = self.get(ss, v)
        return self.put(ss, v, "X" if st == "X" else "W")

    def flush(self, ss, v):
        st = self.get(ss, v)
        return self.put(ss, v, "F" if st == "W" else st)

    def call_on(self, fn, e, sv):
        """The call with a repository body that gets a tracked stream, when it is the tested value itself."""
        s = core.strip(e)
        if s and s[0] == "call" and s[3]:
            t = self.S.targets(fn, s)
            if t:
                for i, a in enumerate(s[4]):
                    v = self.svar(fn, a, sv)
                    if v is not None:
                        return s, t, i, v
        return None

    def summary(self, fn, idx, st):
        key = (fn.id, idx, st)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or idx >= len(fn.p or ()):
            return {("?", st)}
        self.active.add(key)
        pv = fn.p[idx][0]
        res = set()
        for out, ss, ln, path in self.explore(fn, {pv}, ((pv, st),), own=False):
            res.add((out, self.get(ss, pv)))
        self.active.discard(key)
        self.memo[key] = res or {("?", st)}
        return self.memo[key]

    def explore(self, fn, sv, init, own=True):
        """Yields (outcome, stream states, line, path) per return."""
        db, S = self.db, self.S
        g = core.cfg(db, fn)
        streams = dict.fromkeys(sv)

        def branch(e, ss, sst, n):
            """(label, status state, stream states)"""
            res = []
            t = self.test(fn, e, streams)
            c = self.call_on(fn, e, streams)
            neg_e = core.strip_implicit(e)
            sres = S.step(fn, n, sst)
            if t:
                v, sign, s = t
                for lab, s2 in sres:
                    for ok in (True, False):
                        if (ok == (sign > 0)) == lab if lab in (True, False) else True:
                            cur = self.get(ss, v)
                            if cur in ("K", "K0") and not ok or cur == "X" and ok:
                                continue
                            res.append((lab, s2, self.put(ss, v, self.after_test(cur, ok))))
                return res
            if c:
                s, tg, i, v = c
                for lab, s2 in sres:
                    for x in tg:
                        for out, es in self.summary(db.fns[x], i, self.get(ss, v)):
                            if out in ("T", "F") and lab in (True, False) and (out == "T") != lab:
                                continue
                            res.append((lab, s2, self.put(ss, v, es)))
                return res
            x = core.strip(e)
            if x and x[0] == "v" and self.get(ss, ("r", x[3])):
                v, sign, seen, es = self.get(ss, ("r", x[3]))
                for lab, s2 in sres:
                    ok = (lab == (sign > 0))
                    cur = self.get(ss, v)
                    if cur == seen:
                        res.append((lab, s2, self.put(ss, v, self.after_test(cur, ok))))
                    else:
                        res.append((lab, s2, self.put(ss, v, "X") if not ok else ss))
                return res
            for lab, s2 in sres:
                for o in self.effects(fn, e, ss, streams):
                    res.append((lab, s2, o))
            return res

        def step(n, st):
            sst, ss = st
            k = n.k
            if n.e is None or k in ("entry", "nop", "exit", "abort", "endfn"):
                if k == "d" and n.e is None and is_ofs(fn.types[n.x[2]]):
                    streams.setdefault(n.x[0])
                    ss = self.put(ss, n.x[0], "U")
                return [(lab, (s2, ss)) for lab, s2 in S.step(fn, n, sst)]
            if k == "br":
                return [(lab, (s2, o)) for lab, s2, o in branch(n.e, ss, sst, n)]
            if k == "ret":
                return [("*", st)]
            outs = []
            if k == "d" and own and is_ofs(fn.types[n.x[2]]):
                streams.setdefault(n.x[0])
                s = core.strip(n.e)
                args = [a for a in (s[4] if s and s[0] == "ctor" else [1]) if not (isinstance(a, list) and a[0] == "dflt")]
                for lab, s2 in S.step(fn, n, sst):
                    outs.append((lab, (s2, self.put(ss, n.x[0], "O" if args else "U"))))
                return outs
            # boolean variable holding a stream test
            tv = None
            if k == "d":
                tv = (n.x[0], n.e)
            elif k == "e":
                s = core.strip_implicit(n.e)
                if s and s[0] == "bin" and s[3] == "=" and core.strip(s[4]) and core.strip(s[4])[0] == "v":
                    tv = (core.strip(s[4])[3], s[5])
            for lab, s2 in S.step(fn, n, sst):
                for o in self.effects(fn, n.e, ss, streams):
                    if tv:
                        t = self.test(fn, tv[1], streams)
                        if t:
                            o = self.put(o, ("r", tv[0]), (t[0], t[1], self.get(o, t[0]), 0))
                        else:
                            c = self.call_on(fn, tv[1], streams)
                            if c and self.get(o, c[3]) == "K":
                                pass
                            o = self.put(o, ("r", tv[0]), None)
                    outs.append((lab, (s2, o)))
            return outs
        bt = S.is_status_ret(fn)
        for n, st, parent in core.explore(g, ((frozenset(), ()), init), step):
            sst, ss = st
            if n.k == "ret":
                path = core.path_lines(g, parent, n, st)
                if n.e is None or not bt:
                    for o in (self.effects(fn, n.e, ss, streams) if n.e else [ss]):
                        yield "V", o, n.ln, path
                    continue
                t = self.test(fn, n.e, streams)
                c = self.call_on(fn, n.e, streams)
                x = core.strip(n.e)
                if t:
                    v, sign, s = t
                    for ok in (True, False):
                        cur = self.get(ss, v)
                        if cur in ("K", "K0") and not ok or cur == "X" and ok:
                            continue
                        yield ("T" if ok == (sign > 0) else "F"), self.put(ss, v, self.after_test(cur, ok)), n.ln, path
                elif c:
                    s, tg, i, v = c
                    for y in tg:
                        for out, es in self.summary(db.fns[y], i, self.get(ss, v)):
                            yield out, self.put(ss, v, es), n.ln, path
                elif x and x[0] == "v" and self.get(ss, ("r", x[3])):
                    v, sign, seen, es = self.get(ss, ("r", x[3]))
                    for val in (True, False):
                        ok = val == (sign > 0)
                        cur = self.get(ss, v)
                        ns = self.put(ss, v, self.after_test(cur, ok)) if cur == seen else (ss if ok else self.put(ss, v, "X"))
                        yield ("T" if val else "F"), ns, n.ln, path
                else:
                    fl, vs = sst
                    val = S.pending(fn, n.e)
                    r0 = S.resolve(val, vs)
                    for o in self.effects(fn, n.e, ss, streams):
                        if val is None or r0 is None:
                            yield "?", o, n.ln, path
                        else:
                            for oc, f2, v2 in S.split(val, fl, vs):
                                yield ("T" if oc else "F"), o, n.ln, path
            elif n.k == "endfn":
                yield "V", ss, n.ln, core.path_lines(g, parent, n, st)


WHY = {"O": "the file was opened but whether that succeeded was never tested",
       "W": "data was written after the last flush, so a failing write goes unnoticed",
       "F": "the stream was flushed but its state was not tested afterwards",
       "X": "the stream is known to have failed",
       "K0": "the file was opened but nothing was written to it",
       "L": "the error state of the stream was cleared"}


def owns(db, f):
    for s in core.stmts(f.b) if f.b else ():
        if s[0] == "decl":
            for v in s[2]:
                if is_ofs(f.types[v[2]]):
                    yield v


def run(db, rep, thorough):
    S = status.get(db)
    A = Streams(db)
    nst = nfn = npath = nfs = 0
    covered = set()
    for f in S.fns:
        if not f.f.startswith(("lib/", "app/")) or not f.b:
            continue
        vs = list(owns(db, f))
        if not vs:
            continue
        covered.add(f.id)
        nfn += 1
        nst += len(vs)
        names = {v[0]: v[1] for v in vs}
        rep.sample("writers", "%s (%s:%d)" % (f.q, f.f, f.l))
        for out, ss, ln, path in A.explore(f, set(), ()):
            npath += 1
            if out == "F":
                continue
            for v, st in ss:
                if isinstance(v, tuple) or v not in names:
                    continue
                if st in WHY:
                    rep.violation("%s.%s" % (f.q, names[v]), "%s:%d" % (f.f, ln), "typestate",
                                  "%s can report success although %s" % (f.q, WHY[st]), path[-12:])
    rep.set("functions writing files", nfn, 60)
    rep.set("output streams", nst, 60)
    rep.set("return paths examined", npath, 200)
    # every construction of an output stream is one of those examined
    for f in S.fns:
        for e in core.fn_exprs(f):
            if e[0] == "new" or e[0] == "ctor" and e[3]:
                d = db.decls.get(e[3]) if e[0] == "ctor" else None
                if d and d.get("cls", "").startswith("std::basic_ofstream") and d.get("ctor"):
                    if f.id not in covered:
                        rep.violation(f.q + ".stream", "%s:%d" % (f.f, e[1]), "typestate",
                                      "%s creates an output stream outside a local variable: its result cannot be examined" % f.q)
    # the directory exists before a file is opened in it
    nd = dirs(db, S, rep, covered)
    rep.set("writers with directory created first", nd, 40)
    # error codes
    for f in S.fns:
        if not f.f.startswith(("lib/", "app/")):
            continue
        for s in core.stmts(f.b) if f.b else ():
            if s[0] == "decl":
                for v in s[2]:
                    if f.types[v[2]] == "std::error_code":
                        nfs += error_code(db, S, f, v, rep)
    rep.set("file-system calls with error code", nfs, 2)
    for f in S.fns:
        if not f.f.startswith(("lib/", "app/")):
            continue
        for e in core.fn_exprs(f):
            if e[0] == "call" and e[3]:
                d = db.decls.get(e[3])
                if d and d["q"].startswith("std::filesystem::") and d["n"] in MODIFY and not any("error_code" in t for t in d["pt"]):
                    # throwing overloads: an exception ends the run with failure
                    rep.count("throwing file-system calls")


MODIFY = {"create_directories", "create_directory", "copy_file", "copy", "rename", "remove", "remove_all", "resize_file", "create_symlink"}
EXEMPT_RESULT = {"is_directory", "exists", "is_regular_file"}


def error_code(db, S, f, v, rep):
    """After each modifying call with this error code, no successful return without a test of it."""
    g = core.cfg(db, f)
    cnt = 0

    def uses(e):
        for n in core.walk_eval(e):
            if n[0] == "call" and n[3]:
                d = db.decls.get(n[3])
                if d and d["q"].startswith("std::filesystem::") and d["n"] in MODIFY:
                    for a in n[4]:
                        x = core.strip(a)
                        if x and x[0] == "v" and x[3] == v[0]:
                            return n
        return None

    def step(n, st):
        sst, p = st
        outs = []
        res = S.step(f, n, sst)
        e = n.e
        if n.k == "br":
            s = core.strip(e)
            if s and s[0] == "call" and s[3] and db.decls[s[3]]["n"] == "operator bool":
                x = core.strip(s[5])
                if x and x[0] == "v" and x[3] == v[0]:
                    return [(lab, (s2, "bad" if lab is True else "ok")) for lab, s2 in res]
        if e is not None and n.k in ("e", "d", "br") and uses(e):
            # the direct result of create_directories says nothing about failures
            p = "pending"
        return [(lab, (s2, p)) for lab, s2 in res]
    for e in core.fn_exprs(f):
        if e[0] == "call" and uses(e) is e:
            cnt += 1
    if not cnt:
        return 0
    for n, st, parent in core.explore(g, ((frozenset(), ()), "ok"), step):
        if n.k in ("ret", "endfn") and st[1] in ("pending", "bad"):
            val = S.pending(f, n.e) if n.e is not None else None
            r = S.resolve(val, st[0][1])
            if r == "F":
                continue
            rep.violation("%s.%s" % (f.q, v[1]), "%s:%d" % (f.f, n.ln), "error-code",
                          "%s can report success although the error code of a file-system operation %s" % (
                              f.q, "was not examined" if st[1] == "pending" else "says it failed"), core.path_lines(g, parent, n, st)[-12:])
    return cnt


def dirs(db, S, rep, covered):
    """A writer that creates the directory of its file does so before opening the file; writers listed in sa/data/dirs.json
    (or their callers) do create it."""
    n = 0
    frozen = set(json.load(open(DATA))) if os.path.exists(DATA) else set()
    having = rep.having = []
    for fid in sorted(covered):
        f = db.fns[fid]
        g = core.cfg(db, f)
        has = [False]

        def creates(e):
            for x in core.walk_eval(e):
                if x[0] == "call":
                    for t in S.targets(f, x) or ():
                        if db.fns[t].n == "genCreateDirectory" or helper(db, S, t):
                            return True
            return False

        def step(nd, st):
            if nd.k == "br" and creates(nd.e):
                has[0] = True
                return [(True, "dir"), (False, st)]
            if nd.e is not None and nd.k in ("e", "d") and creates(nd.e):
                has[0] = True
                x = core.strip(nd.e)
                while nd.k == "e" and x and x[0] in ("cast", "icast") and isinstance(x[-1], list):
                    x = core.strip(x[-1])
                if nd.k == "e" and x and x[0] == "call":
                    return [("*", st)]      # whether it was created is not examined
                return [("*", "dir")]
            return [("*", st)]
        bad = None
        for nd, st, parent in core.explore(g, "none", step):
            if nd.k == "d" and nd.e is not None and is_ofs(f.types[nd.x[2]]) and st == "none":
                bad = nd
        if has[0]:
            n += 1
        if has[0]:
            if f.n != "<lambda>":
                having.append(f.q)
        if bad is not None:
            if not has[0] and f.n != "<lambda>" and f.q in frozen and not by_caller(db, S, f):
                rep.violation(f.q + ".dir", "%s:%d" % (f.f, bad.ln), "directory",
                              "%s no longer creates the directory of the file it writes" % f.q)
            if has[0]:
                rep.violation(f.q + ".dir", "%s:%d" % (f.f, bad.ln), "directory",
                              "%s can open the output file before its directory was created" % f.q)
    return n


def by_caller(db, S, f):
    """Some function creating a directory calls the writer."""
    for c in S.fns:
        if any(e[0] == "call" and f.id in (S.targets(c, e) or ()) for e in core.fn_exprs(c)):
            if any(e[0] == "call" and any(db.fns[t].n == "genCreateDirectory" or helper(db, S, t) for t in (S.targets(c, e) or ()))
                   for e in core.fn_exprs(c)):
                return True
    return False


_h = {}


def helper(db, S, fid):
    """A function that succeeds only after genCreateDirectory()."""
    if fid in _h:
        return _h[fid]
    _h[fid] = False
    f = db.fns[fid]
    if f.n != "<lambda>" and S.is_status_ret(f):
        for e in core.fn_exprs(f):
            if e[0] == "call" and any(db.fns[t].n == "genCreateDirectory" for t in (S.targets(f, e) or ())):
                _h[fid] = not any(True for _ in owns(db, f))
    return _h[fid]
