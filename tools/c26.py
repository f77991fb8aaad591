"""C26: generated C projects through the amalgamation script.

Deciding step: Hypothesis generates projects (include graph, directories, spellings, standard headers, sources
with and without headers, decoys in strings and comments, cycles); each is amalgamated in fresh processes under two
hash seeds and two orders of the source directories, the text of the result is compared with the files, and the
result is compiled and run against the files compiled one by one.

Run with python3-vt (hypothesis); check.py calls main(), which starts the workers."""
import json, os, re, subprocess, sys, tempfile, shutil, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

RULE = ("projects of up to 16 headers, their sources, lone sources and C++ files in nested directories, with random acyclic includes (one in six cyclic), "
        "eight spellings of the directive, standard headers of the script's own lists used by the code, decoy directives in strings and line comments, directives under conditions (also of headers that exist nowhere), text beyond ASCII, long files, split and unsplit output; "
        "non-trivial: the files have at least three local includes and one standard header and the result was compiled and run, or a cycle was refused")

SERVER = r'''
import sys, os, json, signal, importlib.util
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("amalg_under_test", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
for line in sys.stdin:
    r = json.loads(line)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.alarm(30)
            fd = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(fd, k)
            os.chdir(r["cwd"])
            mod.amalgamate(r["dirs"], getattr(mod, r["list"], None) or set(r["lib"]), r["name"], r["cpp"], r["save"], r["split"])
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            open(r["err"], "w").write(repr(e))
            code = 71
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    print(os.waitstatus_to_exitcode(st), flush=True)
'''

STD = ["assert.h", "ctype.h", "errno.h", "float.h", "inttypes.h", "limits.h", "math.h", "stdarg.h", "stdbool.h", "stddef.h", "stdint.h", "stdio.h", "stdlib.h", "string.h", "time.h", "setjmp.h", "signal.h", "wchar.h"]
# standard headers of the projects that are C alone
C_ONLY = ["complex.h", "fenv.h", "iso646.h", "locale.h", "stdalign.h", "stdatomic.h", "stdnoreturn.h", "tgmath.h", "threads.h", "uchar.h", "wctype.h"]
# the headers that the script's second list adds; they come from a directory of the harness
BOARD = ["Arduino.h", "SPI.h", "SdFat.h"]
# an expression of type int using the header, for use in headers (macro) and sources
USE = {"assert.h": "(assert(1), 3)", "ctype.h": "(isalpha('q') ? 7 : 1)", "errno.h": "(ERANGE > 0 ? 2 : 4)", "float.h": "(int)FLT_DIG", "inttypes.h": "(int)(sizeof(PRId64) > 1)",
       "limits.h": "(INT_MAX % 1000)", "math.h": "(int)floor(3.75)", "stdarg.h": "(int)(sizeof(va_list) > 0)", "stdbool.h": "(int)(true)", "stddef.h": "(int)sizeof(ptrdiff_t)", "stdint.h": "(int)(UINT16_MAX % 77)",
       "stdio.h": "(int)(EOF + 9)", "stdlib.h": "(int)labs(-11L)", "string.h": "(int)strlen(\"abcd\")", "time.h": "(int)(sizeof(time_t) > 3)", "setjmp.h": "(int)(sizeof(jmp_buf) > 3)", "signal.h": "(SIGINT + 1)", "wchar.h": "(int)(sizeof(wint_t) > 1)",
       "complex.h": "(int)(cabs(3.0 + 4.0 * I))", "fenv.h": "(FE_TONEAREST + 4)", "iso646.h": "(1 and 0)", "locale.h": "(int)(LC_ALL + 1)", "stdalign.h": "(int)alignof(int)", "stdatomic.h": "(int)sizeof(atomic_int)",
       "stdnoreturn.h": "5", "tgmath.h": "(int)fabs(-2.5f)", "threads.h": "(thrd_success + 2)", "uchar.h": "(int)sizeof(char16_t)", "wctype.h": "(iswalpha(L'q') ? 6 : 1)",
       "Arduino.h": "STUB_ARDUINO", "SPI.h": "STUB_SPI", "SdFat.h": "STUB_SDFAT"}

STYLES = ["#include %s", "#include  %s", "#include%s", "# include %s", "  #include %s", "#\tinclude\t%s", "#include %s // why: \"%d\"", "#include %s /* it */"]


def rel(frm, to, how):
    """the path of file `to` as written in a file of directory `frm`"""
    d, b = os.path.split(to)
    if how == 0:
        return b  # found along the include path
    r = os.path.relpath(to, frm)
    return "./" + r if how == 2 and not r.startswith("..") else r


def directive(inc, target, cdir):
    s = STYLES[inc[1] % len(STYLES)]
    s = s.replace("%d", "x")
    if isinstance(inc[0], str):
        return s % ("<%s>" % inc[0])
    return s % ('"%s"' % rel(cdir, target, inc[2]))


def render(p):
    """{path: text}, plus {path: text without directives}"""
    files, bare = {}, {}
    H = p["headers"]
    names = ["%s/%s.h" % (p["dirs"][h["dir"]], h["name"]) for h in H]

    def put(path, lines, f):
        text = "\n".join(l if isinstance(l, str) else l[0] for l in lines)
        res = "\n".join(l if isinstance(l, str) else l[0].replace(l[1], " ") for l in lines)
        if f["eol"] != 1:
            text += "\n"
        if f["eol"] == 2:
            text = text.replace("\n", "\r\n")
        files[path] = text
        bare[path] = " ".join(res.split())

    def incs(f, cdir):
        out = []
        for k, i in enumerate(f["incs"]):
            t = None if isinstance(i[0], str) else names[i[0]]
            d = directive(i, t, cdir)
            m = re.search(r'#\s*include\s*(<[^>]*>|"[^"]*")', d)
            cond = f["cond"] & (1 << k % 3) and f["cond"] & 8
            if cond:
                out.append("#ifndef NEVER_SET")
            out.append((d, m.group(0)))
            if cond:
                out.append("#endif")
            if f["deco"] & 1 and k == 0:
                out.append("")
        if f["cond"] & 16 and "guard" not in f:
            # as the sources of the repository do with the header for boards
            out += ["#ifdef NEVER_SET", ('#include "board_only.h"', '#include "board_only.h"'), "#endif"]
        if f["cond"] & 32:
            out.append("/* r\u00e9sum\u00e9 \u2014 \u6f22\u5b57 */")
        return out

    for i, h in enumerate(H):
        cdir = p["dirs"][h["dir"]]
        L = []
        if h["deco"] & 2:
            L += ["/**", " * H%d and friends" % i, " */"]
        if h["guard"] == 1:
            L += ["#pragma once"]
        elif h["guard"] == 0 or p["cyclic"]:
            L += ["#ifndef G_%d_H" % i, "#define G_%d_H" % i]
        if h["externc"] == 1 or (p["cpp"] and h["externc"] == 0 and 0):
            L += ["#ifdef __cplusplus", 'extern "C" {', "#endif"]
        L += incs(h, cdir)
        if h["externc"] == 2 or (p["cpp"] and h["externc"] == 0):
            L += ["#ifdef __cplusplus", 'extern "C" {', "#endif"]
        if h["deco"] & 4:
            L += ["// #include \"nowhere%d.h\"" % i]
        loc = sorted(set(x[0] for x in h["incs"] if not isinstance(x[0], str)))
        std = [x[0] for x in h["incs"] if isinstance(x[0], str)]
        L += ["#define K_%d (%d%s)" % (i, h["val"], "".join(" + 3 * K_%d" % j for j in loc if not p["cyclic"]))]
        L += ["#define W_%d (%d%s)" % (i, i + 1, "".join(" + " + USE[s] for s in std))]
        L += ["typedef struct {", "    int v%d;" % i] + ["    S_%d m%d;" % (j, j) for j in loc if not p["cyclic"]] + ["} S_%d;" % i]
        if h["src"]:
            L += ["extern int g_%d;" % i, "int f_%d(S_%d *s, int n);" % (i, i)]
        if h["guard"] != 2:  # a header without a guard can still be included once
            L += ["static inline int q_%d(int n) { return n * K_%d + W_%d; }" % (i, i, i)]
        if h["externc"] or p["cpp"]:
            L += ["#ifdef __cplusplus", "}", "#endif"]
        if h["guard"] == 0 or (p["cyclic"] and h["guard"] != 1):
            L += ["#endif"]
        put(names[i], L, h)
    for i, h in enumerate(H):
        s = h["src"]
        if not s:
            continue
        cdir = p["dirs"][s["dir"]]
        L = ["// S%d" % i] if s["deco"] & 2 else []
        L += incs(s, cdir)
        std = [x[0] for x in s["incs"] if isinstance(x[0], str)]
        if s["deco"] & 4:
            L += ["static const char *note_%d = \"#include \\\"nowhere.h\\\" // not /* a comment\";" % i]
        else:
            L += ["static const char *note_%d = \"#\";" % i]
        L += ["static int helper_%d(int n) {" % i, "    return n / 2 + note_%d[0]%s;" % (i, "".join(" + " + USE[x] for x in std)), "}", "int g_%d = %d + K_%d;" % (i, i, i)]
        if s["long"]:
            L += ["static const int fill_%d[] = {" % i] + ["    %d, %d, %d, %d, %d, %d, %d, %d," % tuple(range(k, k + 8)) for k in range(0, 3000 * s["long"], 8)] + ["};"]
        L += ["int f_%d(S_%d *s, int n) {" % (i, i), "    s->v%d += helper_%d(n) + q_%d(n);" % (i, i, i) if h["guard"] != 2 else "    s->v%d += helper_%d(n);" % (i, i), "    g_%d++;" % i, "    return s->v%d + g_%d;" % (i, i), "}"]
        put("%s/%s.c" % (cdir, h["name"]), L, s)
    for k, s in enumerate(p["lone"]):
        cdir = p["dirs"][s["dir"]]
        L = incs(s, cdir)
        std = [x[0] for x in s["incs"] if isinstance(x[0], str)]
        loc = [x[0] for x in s["incs"] if not isinstance(x[0], str)]
        L += ["int lone_%d(int n);" % k, "int lone_%d(int n) {" % k, "    return n + %d%s%s;" % (k, "".join(" + " + USE[x] for x in std), "".join(" + K_%d" % j for j in loc)), "}"]
        put("%s/%s.c" % (cdir, s["name"]), L, s)
    for k, s in enumerate(p["cppf"]):
        cdir = p["dirs"][s["dir"]]
        L = incs(s, cdir)
        std = [x[0] for x in s["incs"] if isinstance(x[0], str)]
        loc = [x[0] for x in s["incs"] if not isinstance(x[0], str)]
        L += ["template <int N> struct Cp%d { int operator()(int n) { return n * N%s%s; } };" % (k, "".join(" + " + USE[x] for x in std), "".join(" + K_%d" % j for j in loc)),
              "int cppf_%d(int n) { return Cp%d<%d>()(n); }" % (k, k, k + 2)]
        put("%s/%s.cpp" % (cdir, s["name"]), L, s)
    return files, bare, names


def driver(p, heads):
    L = ["#include <stdio.h>"] + ['#include "%s"' % os.path.basename(h) for h in heads]
    ext = 'extern "C" ' if p["cpp"] else ""
    for k in range(len(p["lone"])):
        L.append("%sint lone_%d(int n);" % (ext, k))
    for k in range(len(p["cppf"])):
        L.append("int cppf_%d(int n);" % k)
    L.append("int main(void) {")
    for i, h in enumerate(p["headers"]):
        L.append("    { S_%d s; s.v%d = %d; int r = 0;" % (i, i, i))
        if h["src"]:
            L.append("    for (int n = -3; n < 40; n += 7) r = r * 31 + f_%d(&s, n);" % i)
            L.append("    r += g_%d;" % i)
        L.append('    printf("%d %%d %%d %%d %%d\\n", r, s.v%d, K_%d, (int)sizeof(S_%d)); }' % (i, i, i, i))
    for k in range(len(p["lone"])):
        L.append('    printf("L%d %%d\\n", lone_%d(5));' % (k, k))
    for k in range(len(p["cppf"])):
        L.append('    printf("P%d %%d\\n", cppf_%d(5));' % (k, k))
    L += ["    return 0;", "}"]
    return "\n".join(L) + "\n"


class Fail(AssertionError):
    pass


class Servers:
    def __init__(self, script):
        self.p = []
        for hs in ("0", "4242"):
            e = dict(os.environ)
            e["PYTHONHASHSEED"] = hs
            e["PYTHONUTF8"] = "1"
            self.p.append(subprocess.Popen(["python3", "-B", "-c", SERVER, script], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=e))

    def run(self, k, req):
        s = self.p[k]
        s.stdin.write(json.dumps(req) + "\n")
        s.stdin.flush()
        line = s.stdout.readline()
        if not line:
            raise SystemExit("amalgamation server ended")
        return int(line)

    def close(self):
        for s in self.p:
            s.stdin.close()
            s.wait()


def norm(t):
    return " ".join(t.split())


def sh(cmd, what, cwd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=cwd)
    if r.returncode:
        raise Fail(what + ": " + " ".join(r.stdout.split())[:400])
    return r.stdout


def check(p, servers, tmp, stats=None):
    root = tempfile.mkdtemp(prefix="am[1]" if p["brackets"] else "am", dir=tmp)
    try:
        return check_in(p, servers, root, stats)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check_in(p, servers, root, stats):
    files, bare, names = render(p)
    for f, t in files.items():
        q = os.path.join(root, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w", newline="", encoding="utf-8") as fh:
            fh.write(t)
    for d in p["dirs"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    name = p["out"]
    outs = []
    lib = ["#include <%s>" % s for s in STD + C_ONLY + BOARD]
    tops = sorted(set(d.split("/")[0] for d in p["dirs"]))
    order = [list(tops), list(reversed(tops))]
    if p["overlap"]:
        order[1].append(p["dirs"][-1])
        order[0].insert(0, p["dirs"][-1])
    for k in (0, 1):
        save = os.path.join(root, "out%d" % k, "deep") if p["deep"] else os.path.join(root, "out%d" % k)
        if p["nosave"]:
            os.makedirs(save)
        err = os.path.join(root, "err%d" % k)
        dirs = [os.path.join(root, d) for d in order[k]]
        cwd = save if p["nosave"] else root
        if p["relative"] and not p["nosave"]:
            dirs = list(order[k])
        arg = dirs[0] if len(dirs) == 1 and p["strarg"] else dirs
        rc = servers.run(k, {"cwd": cwd, "dirs": arg, "lib": lib, "list": p["lib"] or "-", "name": name, "cpp": p["cpp"], "save": None if p["nosave"] else save, "split": p["split"], "err": err})
        made = sorted(os.listdir(save)) if os.path.isdir(save) else []
        why = open(err).read() if os.path.exists(err) else ""
        if p["cyclic"]:
            if rc == 0:
                raise Fail("a cyclic include was accepted")
            if rc < 0:
                raise Fail("a cyclic include ended the script with signal %d" % -rc)
            if made:
                raise Fail("a cyclic include left output behind: %s" % made)
            continue
        if rc != 0:
            raise Fail("the script failed with %d on an acyclic project %s" % (rc, why))
        ext = "cpp" if p["cpp"] else "c"
        want = sorted([name + ".h", name + "." + ext]) if p["split"] else [name + "." + ext]
        if made != want:
            raise Fail("output files %s instead of %s" % (made, want))
        outs.append({f: open(os.path.join(save, f), newline="", encoding="utf-8").read() for f in made})
    if p["cyclic"]:
        return "cyclic"
    if outs[0] != outs[1]:
        raise Fail("the output depends on the order of the directories or of the interpreter's sets")
    o = outs[0]
    body = o[name + "." + ext]
    head = o.get(name + ".h", body)
    nb, nh = norm(body), norm(head)
    pos = {}
    for f, b in bare.items():
        if not b:
            continue
        isH = f.endswith(".h")
        t = nh if isH else nb
        n = t.count(b)
        if n != 1:
            # a file's text may also be part of another's only if it is very short
            raise Fail("the code of %s is %s in the output" % (os.path.basename(f), "missing or altered" if n == 0 else "repeated"))
        pos[f] = t.index(b)
        if p["split"] and (nb if isH else nh).count(b):
            raise Fail("the code of %s is in both output files" % os.path.basename(f))
    H = p["headers"]
    for i, h in enumerate(H):
        for x in h["incs"]:
            if not isinstance(x[0], str) and pos[names[i]] < pos[names[x[0]]]:
                raise Fail("%s comes before %s, which it includes" % (os.path.basename(names[i]), os.path.basename(names[x[0]])))
    if not p["split"]:
        lasth = max(pos[n] for n in names)
        for f in pos:
            if not f.endswith(".h") and pos[f] < lasth:
                raise Fail("%s comes before a header" % os.path.basename(f))
    need = set()
    for f in H + [h["src"] for h in H if h["src"]] + p["lone"] + p["cppf"]:
        need |= set(x[0] for x in f["incs"] if isinstance(x[0], str))
    if not p["cpp"] or True:
        first = min(pos.values()) if not p["split"] else min(pos[n] for n in names)
        before = nh[:first]
        missing = [s for s in sorted(need) if "#include <%s>" % s not in before]
        if missing:
            raise Fail("standard headers %s are not included ahead of the code" % missing)
    for fn, t in o.items():
        quoted = re.findall(r'^[ \t]*#[ \t]*include[ \t]*"([^"]*)"', t, re.M)
        wantq = ["./" + name + ".h"] if (p["split"] and fn != name + ".h") else []
        if [os.path.normpath(q) for q in quoted] != [os.path.normpath(q) for q in wantq]:
            raise Fail("%s includes %s" % (fn, quoted))
    nloc = sum(1 for f in H + [h["src"] for h in H if h["src"]] + p["lone"] + p["cppf"] for x in f["incs"] if not isinstance(x[0], str))
    if not p["compile"]:
        return "text"
    # the original files, one by one
    inc = ["-I" + os.path.join(root, d) for d in p["dirs"]]
    stubs = os.path.join(root, "board headers")
    os.makedirs(stubs)
    for k, b in enumerate(BOARD):
        open(os.path.join(stubs, b), "w").write("#pragma once\n#define STUB_%s %d\n" % (b[:-2].upper(), 40 + k))
    srcs = [os.path.join(root, f) for f in files if f.endswith(".c")]
    cpps = [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    W = ["-O0", "-w", "-fno-strict-aliasing", "-I" + stubs]
    usable = [n for n in names]
    main_c = os.path.join(root, "main_o." + ext)
    open(main_c, "w").write(driver(p, usable))
    CC = ["g++", "-std=c++17"] if p["cpp"] else ["gcc", "-std=c11", "-D_POSIX_C_SOURCE=200809L"]
    if p["cpp"]:
        objs = []
        for s in srcs:
            ob = s + ".o"
            sh(["gcc", "-std=c11", "-c", *W, *inc, s, "-o", ob], "the project itself does not compile (harness)", root)
            objs.append(ob)
        sh([*CC, *W, *inc, main_c, *cpps, *objs, "-o", "orig", "-lm"], "the project itself does not compile (harness)", root)
    else:
        sh([*CC, *W, *inc, main_c, *srcs, "-o", "orig", "-lm"], "the project itself does not compile (harness)", root)
    ref = sh([os.path.join(root, "orig")], "the project itself does not run (harness)", root)
    am = os.path.join(root, "out0", "deep") if p["deep"] else os.path.join(root, "out0")
    main_a = os.path.join(root, "main_a." + ext)
    if p["split"]:
        open(main_a, "w").write(driver(p, [name + ".h"]))
        sh([*CC, *W, "-I" + am, main_a, os.path.join(am, name + "." + ext), "-o", "amal", "-lm"], "the amalgamation does not compile", root)
    else:
        open(main_a, "w").write('#include "%s"\n' % os.path.join(am, name + "." + ext) + driver(p, []))
        sh([*CC, *W, main_a, "-o", "amal", "-lm"], "the amalgamation does not compile", root)
    got = sh([os.path.join(root, "amal")], "the amalgamation does not run", root)
    if got != ref:
        raise Fail("the amalgamation behaves differently: %r instead of %r" % (got[:200], ref[:200]))
    return "nontrivial" if nloc >= 3 and need else "small"


def strategy():
    from hypothesis import strategies as st
    WORDS = ["util", "core", "list", "map_x", "my.helper", "x.hash", "Z9", "io-layer", "core2", "embed", "a", "b.c", "dotted.h.name", "UTIL", "9lives", "schema", "q1", "q10", "q2", "Spline", "zz", "_x", "b.h.c", "main_loop", "adv"]
    DIRS = ["src", "src/sub", "src/sub/deeper", "lib", "lib/a b", "other", "other/x[1]", "src/.keep/n"]

    @st.composite
    def project(draw):
        def inc_std(n):
            return [[s, draw(st.integers(0, 7)), 0] for s in draw(st.lists(st.sampled_from(headers), max_size=n, unique=True))]
        cpp = draw(st.integers(0, 5)) == 5
        lib = draw(st.sampled_from(["", "c_stand", "aud_stand"]))
        headers = STD + ([] if cpp else C_ONLY) + ([] if lib == "c_stand" else BOARD)
        nd = draw(st.integers(1, 5))
        dirs = [DIRS[0]] + draw(st.lists(st.sampled_from(DIRS[1:7]), min_size=nd - 1, max_size=nd - 1, unique=True))
        n = draw(st.one_of(st.integers(1, 6), st.integers(1, 16)))
        pool = draw(st.lists(st.sampled_from(WORDS), min_size=n, max_size=n, unique=True))
        rest = [w for w in WORDS if w not in pool]
        # the include graph follows an order that the names do not show
        H = []

        def local(i, choices, most):
            if not choices:
                return []
            js = draw(st.lists(st.sampled_from(choices), max_size=most, unique=True))
            return [[j, draw(st.integers(0, 7)), draw(st.integers(0, 2))] for j in js]

        def base(d):
            return {"dir": draw(st.integers(0, len(dirs) - 1)), "eol": draw(st.integers(0, 2)), "deco": draw(st.integers(0, 7)), "cond": draw(st.integers(0, 63)), "long": 0}
        included = [0] * n
        for i in range(n):
            h = base(0)
            h.update(name=pool[i], val=draw(st.integers(0, 99)), guard=draw(st.integers(0, 1)), externc=draw(st.integers(1 if cpp else 0, 2)), src=None)
            m = draw(st.sampled_from([1, 1, 1, 3]))
            h["incs"] = draw(st.permutations(local(i, list(range(i)), 4 * m) + inc_std(3 * m)))
            if draw(st.booleans()):
                s = base(0)
                own = [[i, draw(st.integers(0, 7)), draw(st.integers(0, 2))]]
                more = local(i, [j for j in range(n) if j != i], 3 * m)
                s["incs"] = own + more + inc_std(3 * m)
                s["long"] = draw(st.sampled_from([0] * 12 + [1, 5]))
                h["src"] = s
            H.append(h)
        cyc = draw(st.integers(0, 5)) == 5
        if cyc:
            a = draw(st.integers(0, n - 1))
            # close a cycle along existing includes, or a header that includes itself
            b, path = a, [a]
            while True:
                nxt = [x[0] for x in H[b]["incs"] if not isinstance(x[0], str)]
                if not nxt or draw(st.booleans()) and len(path) > 1:
                    break
                b = draw(st.sampled_from(nxt))
                path.append(b)
            if not any(x[0] == a for x in H[b]["incs"]):
                H[b]["incs"] = H[b]["incs"] + [[a, draw(st.integers(0, 7)), 0]]
        lone = []
        k = draw(st.integers(0, 2)) if rest else 0
        for w in rest[:k]:
            s = base(0)
            s.update(name=w, incs=local(-1, list(range(n)), 2) + inc_std(2))
            lone.append(s)
        cppf = []
        if cpp:
            for w in rest[k:k + draw(st.integers(0, 2))]:
                s = base(0)
                s.update(name=w, incs=local(-1, list(range(n)), 2) + inc_std(2))
                cppf.append(s)
        if not lone and not any(h["src"] for h in H):
            s = base(0)
            s["incs"] = [[0, 0, 0]]
            H[0]["src"] = s
        b = lambda: draw(st.integers(0, 3)) == 3
        return {"dirs": dirs, "headers": H, "lone": lone, "cppf": cppf, "cpp": cpp, "lib": lib, "cyclic": cyc, "split": not b(), "out": draw(st.sampled_from(["embedDB", "amalgam", "all.one"])),
                "deep": b(), "nosave": b(), "relative": b(), "strarg": b(), "overlap": b(), "brackets": b(), "compile": draw(st.integers(0, 2)) == 0}
    return project()


def worker(argv):
    wid, n, seed, seconds, outp, tmp = int(argv[0]), int(argv[1]), int(argv[2]), float(argv[3]), argv[4], argv[5]
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    servers = Servers(os.path.join(REPO, "amalgamation", "amalgamation.py"))
    stats = {"evaluations": 0, "kinds": {}, "hashes": set(), "samples": [], "fail": None, "tags": {}, "skipped": 0}
    t0 = time.time()

    def tag(k):
        stats["tags"][k] = stats["tags"].get(k, 0) + 1

    @hypothesis.seed(seed * 1000 + wid)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @given(strategy())
    def prop(p):
        if stats["fail"] is None and time.time() - t0 > seconds:
            stats["skipped"] += 1
            return
        if stats["fail"] is not None and time.time() - stats["t"] > 40:
            return  # shrunk for long enough
        stats["evaluations"] += 1
        try:
            k = check(p, servers, tmp)
        except Fail as e:
            if stats["fail"] is None:
                stats["t"] = time.time()
            stats["fail"] = (p, str(e))
            raise
        stats["kinds"][k] = stats["kinds"].get(k, 0) + 1
        for f in ("cpp", "split", "overlap", "nosave", "relative", "brackets", "deep"):
            if p[f]:
                tag(f)
        if p["lone"]:
            tag("sources without a header")
        if any(not h["src"] for h in p["headers"]):
            tag("headers without a source")
        if p["cppf"]:
            tag("C++ files")
        if k in ("nontrivial", "cyclic"):
            stats["hashes"].add(hashlib.sha1(json.dumps(p, sort_keys=True).encode()).hexdigest()[:16])
            if len(stats["samples"]) < 2 and len(p["headers"]) > 2:
                stats["samples"].append(json.dumps(p))
    err = None
    try:
        prop()
    except Fail:
        pass
    except BaseException as e:
        err = repr(e)
    servers.close()
    stats["hashes"] = sorted(stats["hashes"])
    stats["error"] = err if stats["fail"] is None else None
    json.dump(stats, open(outp, "w"))


def real_tree(tmp):
    """the script itself, on a copy of the repository's own files"""
    root = os.path.join(tmp, "real")
    for d in ("src", "lib/EmbedDB-Utility", "amalgamation"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns("__pycache__", "tests"))
    outs = []
    for hs in ("1", "77"):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = hs
        r = subprocess.run(["python3", "-B", os.path.join(root, "amalgamation", "amalgamation.py")], env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if r.returncode:
            raise Fail("the script fails on the repository's own sources: " + r.stdout[-300:])
        d = os.path.join(root, "lib", "Distribution")
        outs.append({f: open(os.path.join(d, f)).read() for f in os.listdir(d)})
    if outs[0] != outs[1]:
        raise Fail("the output for the repository's own sources depends on the interpreter's sets")
    if sorted(outs[0]) != ["embedDB.c", "embedDB.h"]:
        raise Fail("the script wrote %s" % sorted(outs[0]))
    text = norm(outs[0]["embedDB.h"]) + " " + norm(outs[0]["embedDB.c"])
    n = 0
    for d in ("src/embedDB", "src/query-interface", "src/spline", "lib/EmbedDB-Utility"):
        for b, _, fs in os.walk(os.path.join(root, d)):
            for f in fs:
                if f.endswith((".h", ".c")):
                    t = open(os.path.join(b, f)).read()
                    t = norm(re.sub(r'(?m)^[ \t]*#[ \t]*include[ \t]*(<[^>\n]*>|"[^"\n]*")', " ", t))
                    n += 1
                    if t and text.count(t) != 1:
                        raise Fail("the code of %s is in the output %d times" % (f, text.count(t)))
    d = os.path.join(root, "lib", "Distribution")
    sh(["gcc", "-w", "-c", "-std=gnu11", os.path.join(d, "embedDB.c"), "-o", os.path.join(root, "x.o")], "the repository's own amalgamation does not compile", root)
    return n


def main(cid, spec, tier, seed, args):
    sys.path.insert(0, VERIF)
    import check as C
    tmp = tempfile.mkdtemp(prefix="pbt-C26-")
    t0 = time.time()
    try:
        if len(args) > 1 and args[0] == "--replay":
            txt = open(args[1]).read()
            p = json.loads(txt[txt.index("{"):])
            if p.get("real"):
                try:
                    real_tree(tmp)
                    print("passes")
                    return 0
                except Fail as e:
                    print("FAILS: %s" % e)
                    return 1
            s = Servers(os.path.join(REPO, "amalgamation", "amalgamation.py"))
            try:
                print("passes:", check(p, s, tmp))
                return 0
            except Fail as e:
                print("FAILS: %s" % e)
                return 1
            finally:
                s.close()
        rp = os.path.join(VERIF, "replays", "C26-seed%d.json" % seed)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if os.path.exists(rp):
            os.unlink(rp)
        jobs = int(os.environ.get("VERIF_JOBS", "8"))
        n = spec["quick"] if tier == "quick" else spec["thorough"]
        secs = 60 if tier == "quick" else 600
        procs = []
        for w in range(jobs):
            wt = os.path.join(tmp, "w%d" % w)
            os.makedirs(wt)
            o = os.path.join(tmp, "r%d.json" % w)
            procs.append((o, subprocess.Popen(["python3-vt", "-B", os.path.abspath(__file__), "worker", str(w), str(n // jobs + 1), str(seed), str(secs), o, wt])))
        fails = []
        try:
            n_real = real_tree(tmp)
        except (Fail, subprocess.TimeoutExpired) as e:
            n_real = 0
            fails.append(({"real": 1}, str(e)))
        R, errs = [], []
        for o, p in procs:
            p.wait()
            try:
                R.append(json.load(open(o)))
            except Exception as e:
                errs.append("worker gave no result: %s" % e)
        for r in R:
            if r["fail"]:
                fails.append((r["fail"][0], r["fail"][1]))
            if r["error"]:
                errs.append(r["error"])
        harness = [f for f in fails if "(harness)" in f[1]]
        fails = [f for f in fails if "(harness)" not in f[1]]
        kinds, tags, hashes = {}, {}, set()
        for r in R:
            for k, v in r["kinds"].items():
                kinds[k] = kinds.get(k, 0) + v
            for k, v in r["tags"].items():
                tags[k] = tags.get(k, 0) + v
            hashes.update(r["hashes"])
        tags.update(kinds)
        cov = {"evaluations": sum(r["evaluations"] for r in R), "distinct_nontrivial": len(hashes), "rule": RULE, "samples": [s for r in R for s in r["samples"]][:3], "classes": tags, "files_of_the_real_tree": n_real}
        C.write_evidence(cid, spec, tier, seed, cov, time.time() - t0, len(fails))
        if fails:
            fails.sort(key=lambda f: len(json.dumps(f[0])))
            with open(rp, "w") as fh:
                fh.write("# C26: %s\n# replay: python3 check.py C26 --replay FILE\n%s\n" % (fails[0][1].replace("\n", " "), json.dumps(fails[0][0], indent=1)))
            print("VIOLATION property=C26 replay=%s" % rp)
            for f in fails[:8]:
                print("  " + f[1][:300])
            return 1
        if errs or harness:
            print("CHECK FAILED: " + "; ".join(errs + [h[1] + " " + json.dumps(h[0]) for h in harness])[:3000])
            return 2
        print("C26: held on %d generated projects (%d distinct non-trivial), %.0f s" % (cov["evaluations"], len(hashes), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__" and len(sys.argv) > 1 and sys.argv[1] == "worker":
    worker(sys.argv[2:])
