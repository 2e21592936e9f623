"""C15: generated output is a function of schema, options and injected code only."""
import re
from sa import core, status
from sa.facts import AnalysisBroken
from sa.rules import c13

RULE = ("no call to a source of run-dependent values; no iteration over a container ordered by hash or address; no ordering by address; no address "
        "turned into a number or text; directory entries only processed one by one; output files always rewritten from nothing")
EXPLAIN = ("Over every function and lambda of the library and the generators (resolved program, canonical types): (source) calls to functions whose "
           "result differs between runs (time, random numbers, environment, process and thread ids, host names, locale, temporary names, file "
           "times, directory enumeration helpers); (hash/address order) range loops over and begin() of unordered containers and of sets/maps keyed by "
           "pointers or smart pointers with the default ordering; (address) relational comparison, default sorting or hashing of pointers, "
           "conversion of pointers to integers or text; (comparator) sort comparators that are not strict; (directory) loops over directory iterators "
           "may handle each entry on its own but may not gather entries into an unsorted sequence or stop at the first match; (previous run) output "
           "files are opened truncating, copied with overwrite_existing, never appended to, and no decision is taken on, and nothing read back from, what a previous run "
           "left in the output directory, except whether a directory exists already before it is created.")
ASSUME = ["the C++ library's own algorithms are deterministic for equal input sequences",
          "two extra source files of the code injection directory do not map to the same destination",
          "libxml2 returns the same tree for the same file"]

SOURCES = {"rand", "random", "rand_r", "drand48", "lrand48", "mrand48", "srand", "srandom", "time", "clock", "clock_gettime", "gettimeofday",
           "localtime", "gmtime", "localtime_r", "gmtime_r", "ctime", "asctime", "strftime", "mktime", "timespec_get", "getenv", "secure_getenv", "getpid",
           "getppid", "gettid", "getuid", "geteuid", "getgid", "getlogin", "gethostname", "gethostid", "uname", "tmpnam", "tempnam", "mkstemp", "mkdtemp", "tmpfile",
           "setlocale", "localeconv", "stat", "lstat", "fstat", "access", "opendir", "readdir", "scandir", "pthread_self", "arc4random", "getrandom", "getentropy",
           "sysconf", "getrusage", "times", "nl_langinfo", "getcwd", "get_current_dir_name"}
STDSRC = re.compile(r"^std::(rand|time|clock|getenv|localtime|gmtime|ctime|asctime|strftime|mktime|put_time|setlocale|localeconv|tmpnam|tmpfile|timespec_get|"
                    r"chrono::(_V2::|__cxx11::)?\w*clock::now|this_thread::get_id|thread::\w+|async|random_device::\w+|locale::(global|classic_|locale)|"
                    r"basic_\w+::imbue|ios_base::imbue|filesystem::(last_write_time|temp_directory_path|space|hard_link_count|unique_path|file_size))$")
QUERIES = {"exists", "is_directory", "is_regular_file", "is_symlink", "is_empty", "status", "symlink_status", "equivalent", "file_size", "last_write_time"}
FLAGS = {"app", "ate", "in"}
GATHER = {"push_back", "emplace_back", "append", "push_front", "emplace_front", "operator+="}
SORTS = {"sort", "stable_sort", "lower_bound", "upper_bound", "binary_search", "min_element", "max_element", "minmax_element", "nth_element", "partial_sort",
         "merge", "set_union", "set_intersection", "set_difference", "includes", "equal_range", "is_sorted", "min", "max", "inplace_merge"}
TYPED = {"call", "op", "ctor", "v", "mem", "bin", "un", "cond", "cast", "icast", "init", "idx", "gv", "this"}


def ty(f, e):
    if e and e[0] in TYPED and isinstance(e[2], int) and e[2] < len(f.types):
        return f.types[e[2]]
    return ""


def bare(t):
    return re.sub(r"\b(const|volatile|class|struct)\b", "", t).replace("&", "").strip()


def args(t):
    """template arguments of a type's outermost template"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def pointer(t):
    t = bare(t)
    if t.endswith("*") and not t.startswith(("char *", "unsigned char *", "char*", "xmlChar *")):
        return True
    return t.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::weak_ptr<"))


def addr_ordered(t):
    """why iteration order over this container is run-dependent, or None"""
    t = bare(t)
    m = re.match(r"std::(?:__\w+::)?(unordered_\w+)<", t)
    if m:
        return "the order of %s is unspecified" % m.group(1)
    m = re.match(r"std::(?:__\w+::)?(set|map|multiset|multimap)<", t)
    if m:
        a = args(t)
        k = 2 if "map" in m.group(1) else 1
        cmpd = len(a) <= k or bare(a[k]).startswith("std::less<") or bare(a[k]).startswith("std::owner_less") or bare(a[k]).startswith("std::greater<")
        if a and cmpd and pointer(a[0]):
            return "%s ordered by the addresses of its keys" % m.group(1)
    if re.match(r"std::(?:__\w+::)?(priority_queue)<", t):
        a = args(t)
        if a and pointer(a[0]) and (len(a) < 3 or bare(a[2]).startswith("std::less<")):
            return "priority_queue ordered by addresses"
    return None


def run(db, rep, thorough):
    S = status.get(db)
    O = c13.Origin(db)
    fns = [f for f in db.fns.values() if f.b and f.f.startswith(("lib/", "app/"))]
    ncall = niter = ncmp = ncast = nsort = ndir = nopen = nquery = 0

    def name(f):
        return core.root_fn(db, f).q

    def bad(key, f, ln, rule, text):
        rep.violation(key, "%s:%d" % (f.f, ln), rule, text)

    for f in fns:
        # ---- iteration in loops
        for s in core.stmts(f.b):
            if s[0] != "rfor":
                continue
            niter += 1
            t = ty(f, core.strip(s[3])) or ty(f, s[3])
            why = addr_ordered(t)
            isdir = "directory_iterator" in t
            if isdir:
                ndir += 1
            if (why or isdir) and sensitive(db, f, s[2], s[4]):
                bad("%s.loop" % name(f), f, s[1], "order", "%s loops over entries in run-dependent order (%s) and its effect depends on that order" % (
                    name(f), why or "directory enumeration order"))
        for s in core.stmts(f.b):
            if s[0] in ("for", "while", "do"):
                it = any(x[0] == "v" and "directory_iterator" in ty(f, x) for e in core.stmt_exprs(s) for x in core.walk(e))
                if it:
                    ndir += 1
                    if sensitive(db, f, None, s):
                        bad("%s.dir" % name(f), f, s[1], "order", "%s handles directory entries in enumeration order and its effect depends on that order" % name(f))
        for e in core.fn_exprs(f):
            ln = e[1] if len(e) > 1 and isinstance(e[1], int) else f.l
            k = e[0]
            if k == "call" and e[3]:
                ncall += 1
                d = db.decls.get(e[3])
                if not d:
                    continue
                q, n = d["q"], d["n"]
                q0 = re.sub(r"<[^<>]*>", "", q)
                if (n in SOURCES and q == n) or STDSRC.match(q0):
                    bad("%s.%s" % (name(f), n), f, ln, "source", "%s calls %s(): its result differs between runs" % (name(f), q))
                elif q == "std::filesystem::current_path":
                    ok = any(str(i[0]).endswith("::m_outputDir") for i in f.inits or () if i[2] and any(x is e for x in core.walk(i[2])))
                    if not ok and not dir_assign(f, e):
                        bad("%s.current_path" % name(f), f, ln, "source", "%s uses the current directory for something else than the default output directory" % name(f))
                elif n in ("begin", "cbegin", "rbegin", "crbegin") and len(e) > 5 and isinstance(e[5], list) and not q0.startswith("commsdsl"):
                    niter += 1
                    why = addr_ordered(ty(f, core.strip(e[5])) or ty(f, e[5]))
                    if why:
                        bad("%s.begin" % name(f), f, ln, "order", "%s iterates over a container (%s)" % (name(f), why))
                elif n in SORTS and q0.startswith("std::"):
                    nsort += 1
                    pred = [a for a in e[4] if core.lambda_of(db, f, a)]
                    lams = [db.fns.get(core.lambda_of(db, f, a)) for a in pred]
                    vt = value_type(ty(f, core.strip(e[4][0])) or ty(f, e[4][0])) if e[4] else ""
                    natural = 1 if n in ("lower_bound", "upper_bound", "binary_search", "equal_range", "nth_element", "partial_sort") else 0
                    few = len([a for a in e[4] if a[0] != "dflt"]) <= 2 + natural
                    if vt and pointer(vt) and not pred and few:
                        bad("%s.%s" % (name(f), n), f, ln, "address", "%s orders pointers by address (%s)" % (name(f), n))
                    for l in lams:
                        if not l or n in ("min", "max"):
                            continue
                        for s in core.stmts(l.b):
                            if s[0] == "ret" and s[2] and len(l.p) == 2:
                                x = core.strip(s[2])
                                if x and x[0] in ("bin", "op") and x[3] in ("<=", ">=") and n in ("sort", "stable_sort", "partial_sort", "nth_element"):
                                    bad("%s.%s.strict" % (name(f), n), l, s[1], "comparator", "the comparator of %s in %s is not a strict ordering" % (n, name(f)))
                elif q0.startswith("std::hash") or q0 == "std::_Hash_impl::hash":
                    a = e[4][0] if e[4] else None
                    if a and pointer(ty(f, core.strip(a))):
                        bad("%s.hash" % name(f), f, ln, "address", "%s hashes an address" % name(f))
                elif q0.startswith("std::filesystem::") and n in QUERIES and e[4]:
                    nquery += 1
                    os = O.resolve(O.of(f, e[4][0]))
                    if ("OUT",) in os and not guards_mkdir(db, f, e):
                        bad("%s.%s" % (name(f), n), f, ln, "previous", "%s looks at what a previous run left in the output directory (%s)" % (name(f), n))
                elif q0 == "std::filesystem::copy_file" or q0 == "std::filesystem::copy":
                    nopen += 1
                    txt = repr(e[4])
                    if "overwrite_existing" not in txt or "skip_existing" in txt or "update_existing" in txt:
                        bad("%s.%s" % (name(f), n), f, ln, "previous", "%s keeps a file a previous run left in the output directory" % name(f))
                elif n == "open" and d.get("cls", "").startswith(("std::basic_ofstream", "std::basic_fstream")):
                    nopen += 1
                    if any(appends(a) for a in e[4][1:]):
                        bad("%s.open" % name(f), f, ln, "previous", "%s appends to what a previous run wrote" % name(f))
            if k == "ctor" and e[3]:
                d = db.decls.get(e[3])
                c = d.get("cls", "") if d else ""
                if c.startswith(("std::basic_ofstream", "std::basic_fstream")) and e[4] and len(e[4]) >= 1 and "stream" not in (d["pt"] or [""])[0]:
                    nopen += 1
                    if any(appends(a) for a in e[4][1:] if a[0] != "dflt"):
                        bad("%s.open" % name(f), f, ln, "previous", "%s appends to what a previous run wrote" % name(f))
                elif c.startswith("std::basic_ifstream") and e[4] and "stream" not in (d["pt"] or [""])[0]:
                    nopen += 1
                    os = O.resolve(O.of(f, e[4][0]))
                    if ("OUT",) in os and not copied(db, f, e):
                        bad("%s.read" % name(f), f, ln, "previous", "%s reads back a file a previous run left in the output directory" % name(f))
                elif c.startswith(("std::random_device", "std::thread", "std::locale")) and e[4] and e[5] not in ("copy", "move"):
                    bad("%s.%s" % (name(f), c), f, ln, "source", "%s uses %s" % (name(f), c))
                elif c == "std::random_device":
                    bad("%s.%s" % (name(f), c), f, ln, "source", "%s uses %s" % (name(f), c))
            if k in ("bin", "op") and e[3] in ("<", ">", "<=", ">="):
                a, b = (e[4], e[5]) if k == "bin" else (e[5][0], e[5][1] if len(e[5]) > 1 else e[5][0])
                ncmp += 1
                if pointer(ty(f, core.strip(a))) and pointer(ty(f, core.strip(b))):
                    bad("%s.ptrcmp" % name(f), f, ln, "address", "%s compares addresses with %s" % (name(f), e[3]))
            if k in ("cast", "icast"):
                ncast += 1
                s = core.strip(e[5] if k == "cast" else e[4])
                t = bare(ty(f, e))
                if s and s[0] in TYPED and bare(ty(f, s)).endswith("*") and re.match(r"(unsigned |signed )?(long|int|short|long long|char)( int| long)?$", t):
                    bad("%s.ptrint" % name(f), f, ln, "address", "%s turns an address into a number" % name(f))
            if k in ("op", "call"):
                d = db.decls.get(core.callee(e)) or {}
                if d.get("n") == "operator<<" and d.get("q", "").startswith("std::") and d.get("pt") and bare(d["pt"][-1]) == "void *" \
                        and not (f.cls or "").endswith("Logger"):   # diagnostics are no generated output
                    bad("%s.ptrtext" % name(f), f, ln, "address", "%s prints an address" % name(f))
    # containers declared with address keys and used through iterators elsewhere are caught where they are iterated
    rep.set("calls", ncall, 10000)
    rep.set("loops and begin() iterations", niter, 500)
    rep.set("relational comparisons", ncmp, 200)
    rep.set("conversions", ncast, 1000)
    rep.set("sort and search calls", nsort, 20)
    rep.set("directory loops", ndir, 1)
    rep.set("file opens and copies", nopen, 60)
    rep.set("file system queries", nquery, 2)
    for f in fns:
        for e in core.fn_exprs(f):
            d = db.decls.get(core.callee(e)) if e[0] == "call" else None
            if d and d["n"] in ("sort", "stable_sort"):
                rep.sample("sorts", "%s (%s:%d)" % (name(f), f.f, e[1]), 30)


def value_type(t):
    t = bare(t)
    m = re.match(r"__gnu_cxx::__normal_iterator<(.*)", t)
    if m:
        a = args(t)
        p = bare(a[0])
        return p[:-1].strip() if p.endswith("*") else ""
    if t.endswith("*"):
        return t[:-1].strip()
    return ""


def appends(a):
    """Does an open mode contain app/ate/in (resolved constants)?"""
    for x in core.walk(a):
        if x[0] in ("gv", "v", "mem", "enum", "ec"):
            for y in x:
                if isinstance(y, str) and y.rsplit("::", 1)[-1] in FLAGS:
                    return True
    return False


def copied(db, f, e):
    """The file read was written by this very run: copied with overwrite_existing (or written) in the same function before."""
    root = core.root_fn(db, f)
    for g in core.family(db, root):
        for x in core.fn_exprs(g):
            if x[0] == "call" and x[3] and db.decls[x[3]]["q"].startswith("std::filesystem::copy"):
                return True
    return False


def guards_mkdir(db, f, e):
    """The query only decides whether directories are created (no other effect in the function than creating them)."""
    root = core.root_fn(db, f)
    mk = False
    for g in core.family(db, root):
        for x in core.fn_exprs(g):
            if x[0] == "call" and x[3]:
                d = db.decls[x[3]]
                if d["q"].startswith("std::filesystem::create_director"):
                    mk = True
                elif d["q"].startswith(("std::filesystem::copy", "std::filesystem::remove", "std::filesystem::rename")):
                    return False
            if x[0] == "ctor" and x[3] and (db.decls.get(x[3]) or {}).get("cls", "").startswith("std::basic_ofstream"):
                return False
    return mk


def dir_assign(f, e):
    for x in core.fn_exprs(f):
        t = None
        if x[0] == "bin" and x[3] == "=":
            t, r = x[4], x[5]
        elif x[0] == "op" and x[3] == "=" and len(x[5]) == 2:
            t, r = x[5]
        if t is not None:
            t = core.strip(t)
            if t and t[0] == "mem" and t[3].endswith("::m_outputDir") and any(y is e for y in core.walk(r)):
                return True
    return False


def sensitive(db, f, var, body):
    """Does the effect of a loop depend on the order of its iterations? Gathering into a sequence that is not sorted later in the function,
    writing text, or leaving the loop with an entry."""
    lv = {var[0]} if var else set()
    for s in core.stmts(body):
        if s[0] == "decl":
            lv |= {v[0] for v in s[2]}
    sorted_ = set()
    for e in core.fn_exprs(f):
        if e[0] == "call" and e[3] and db.decls[e[3]]["n"] in ("sort", "stable_sort") and e[4]:
            for x in core.walk(e[4][0]):
                if x[0] in ("v", "mem"):
                    sorted_.add(x[3])
    for s in core.stmts(body):
        if s[0] == "ret" and s[2] and any(x[0] == "v" and x[3] in lv for x in core.walk(s[2])):
            return True
        for e in own(s):
            for x in core.walk(e):
                tgt = None
                if x[0] == "call" and x[3] and db.decls[x[3]]["n"] in GATHER and len(x) > 5 and isinstance(x[5], list):
                    tgt = core.strip(x[5])
                elif x[0] in ("op", "bin") and x[3] == "+=":
                    tgt = core.strip(x[5][0] if x[0] == "op" else x[4])
                    if tgt and tgt[0] in TYPED and re.match(r"(unsigned |signed )?(long|int|short|char)", bare(ty(f, tgt))):
                        continue
                elif x[0] == "op" and x[3] == "<<" and "ostream" in ty(f, x):
                    tgt = core.strip(x[5][0])
                    while tgt and tgt[0] == "op" and tgt[3] == "<<":
                        tgt = core.strip(tgt[5][0])
                    if tgt and tgt[0] == "call":
                        continue        # logging
                if tgt is None and x[0] == "call" and x[3]:
                    for a, t in zip(x[4], db.decls[x[3]].get("pt") or ()):
                        if t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and \
                                re.match(r"std::(__cxx11::)?(vector|list|deque|basic_string|basic_ostream|basic_ofstream)\b", bare(t)):
                            a = core.strip(a)
                            if a and a[0] in ("v", "mem") and a[3] not in lv and a[3] not in sorted_:
                                return True
                if tgt is None:
                    continue
                if tgt[0] in ("v", "mem"):
                    if tgt[0] == "v" and tgt[3] in lv or tgt[3] in sorted_:
                        continue
                    return True
                return True
    return False


def own(s):
    k = s[0]
    if k == "expr":
        return [s[2]]
    if k == "decl":
        return [v[3] for v in s[2] if v[3]]
    if k == "if":
        return [x for x in (s[4],) if x]
    if k == "ret":
        return [s[2]] if s[2] else []
    return []
