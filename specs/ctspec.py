"""G05: the compile-time helpers of futils.h, decided by witnesses that must and must not compile"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile
from vsa import build
from vsa.run import check
from specs.hdrspec import C, CXX

HEAD = "#include <futils/futils.h>\n"
S = "struct s { char c; short h[3]; struct { int *p; } in; unsigned b; };\n"
# name -> (languages, declarations before the header, witness, extra flags)
GOOD = {
    "array size": ("both", "", S + """
int a[7]; char m[3][5]; struct s t[11]; int (*pa)[4]; const char text[] = "abc"; void *v[2];
CHECK(FUTILS_SIZEOF_ARRAY(a) == 7); CHECK(FUTILS_SIZEOF_ARRAY(m) == 3); CHECK(FUTILS_SIZEOF_ARRAY(m[1]) == 5);
CHECK(FUTILS_SIZEOF_ARRAY(t) == 11); CHECK(FUTILS_SIZEOF_ARRAY(*pa) == 4); CHECK(FUTILS_SIZEOF_ARRAY(text) == 4);
CHECK(FUTILS_SIZEOF_ARRAY(v) == 2); CHECK(FUTILS_SIZEOF_ARRAY(t[0].h) == 3); CHECK(FUTILS_SIZEOF_ARRAY(*(int (*)[6])v[0]) == 6); CHECK(SIZEOF_ARRAY(a) == 7); CHECK(SIZEOF_ARRAY(*pa) == 4);
CHECK(100 / FUTILS_SIZEOF_ARRAY(a) == 14); CHECK(FUTILS_SIZEOF_ARRAY(a) * 2 == 14); CHECK(100 / SIZEOF_ARRAY(m[0]) == 20);
int copy[FUTILS_SIZEOF_ARRAY(a)]; CHECK(sizeof(copy) == sizeof(a));
""", []),
    "text": ("both", "", """
#define NUMBER 42
#define PAIR(x, y) x.y
#define VERSION PAIR(NUMBER, 7)
CHECK(__builtin_strcmp(FUTILS_STRINGIFY(NUMBER), "NUMBER") == 0); CHECK(__builtin_strcmp(FUTILS_TOSTRING(NUMBER), "42") == 0);
CHECK(__builtin_strcmp(TOSTRING(NUMBER), "42") == 0); CHECK(__builtin_strcmp(TOSTRING(VERSION), "42.7") == 0);
CHECK(__builtin_strcmp("v" FUTILS_TOSTRING(VERSION) "!", "v42.7!") == 0); CHECK(__builtin_strcmp(TOSTRING(a + b), "a + b") == 0);
CHECK(__builtin_strcmp(FUTILS_TOSTRING("q\\n"), "\\"q\\\\n\\"") == 0); CHECK(sizeof(TOSTRING(xyz)) == 4);
""", []),
    "member type in C": ("c", "", S + """
CHECK(__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, c), char));
CHECK(__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, h), short[3]));
CHECK(__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, in.p), int *));
CHECK(__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, b), unsigned));
CHECK(!__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, b), int));
TYPEOF_STRUCT_MEMBER(struct s, h) own; CHECK(sizeof(own) == 3 * sizeof(short));
""", []),
    "assertions that hold": ("both", "", """
STATIC_ASSERT(sizeof(char) == 1, "one");
FUTILS_STATIC_ASSERT(sizeof(long) >= sizeof(int), "two");
void in_function(void);
void in_function(void)
{
	STATIC_ASSERT(1 < 2 || 0, "three");
	FUTILS_STATIC_ASSERT(2, "four");
}
""", []),
    "smallest, greatest and bounds of mixed types": ("both", "", """
void use(void);
void use(void)
{
	CHECK(sizeof(MIN((char)1, (char)2)) <= sizeof(int));
	CHECK(sizeof(MAX(1LL, 2)) == sizeof(long long));
	CHECK(sizeof(MIN(1, 2.0)) == sizeof(double));
	CHECK(sizeof(FUTILS_BOUND(1, 2, 3LL)) == sizeof(long long));
}
""", []),
    "own short names are kept": ("both", """
#define SIZEOF_ARRAY(x) 1001
#define TOSTRING(x) 1002
#define MIN(a, b) 1003
#define MAX(a, b) 1004
#define BOUND(a, m, M) 1005
#define STATIC_ASSERT(x, msg) enum { OWN_ASSERT = (x) }
#define TYPEOF_STRUCT_MEMBER(s, m) own_type
typedef struct { char x[77]; } own_type;
""", S + """
int a[3]; STATIC_ASSERT(0 == 1, "own");
CHECK(SIZEOF_ARRAY(a) == 1001); CHECK(TOSTRING(a) == 1002); CHECK(MIN(1, 2) == 1003); CHECK(MAX(1, 2) == 1004);
CHECK(BOUND(1, 2, 3) == 1005); CHECK(OWN_ASSERT == 0); CHECK(sizeof(TYPEOF_STRUCT_MEMBER(struct s, c)) == 77);
CHECK(FUTILS_SIZEOF_ARRAY(a) == 3);
""", ["-Werror=macro-redefined"]),
    "format checked calls that match": ("both", "", """
#ifdef __cplusplus
extern "C"
#endif
void say(int a, const char *f, ...) FUTILS_ATTRIBUTE_FORMAT_PRINTF(2, 3);
void use(void);
void use(void) { say(1, "%d %s %zu", 1, "x", sizeof(int)); say(2, "none"); }
""", ["-Wformat", "-Werror=format", "-Werror=format-extra-args"]),
}
CLS = """
class File {
	FUTILS_DISABLE_COPY(File)
public:
	File() : fd(0) {}
	explicit File(int n) : fd(n) {}
	int fd;
};
"""
GOOD["containing structure has its type"] = ("both", "", S + """
void use(short *h, const unsigned *b, struct s *x);
void use(short *h, const unsigned *b, struct s *x)
{
	struct s *p = FUTILS_CONTAINER_OF((short (*)[3])h, struct s, h), *q = FUTILS_CONTAINER_OF(b, struct s, b);
	CHECK(sizeof(*FUTILS_CONTAINER_OF(&x->c, struct s, c)) == sizeof(struct s));
	CHECK(sizeof(FUTILS_CONTAINER_OF(&x->in, struct s, in)->h) == 3 * sizeof(short));
	p = list_entry(&x->c, struct s, c); (void)p; (void)q;
}
""", ["-Werror=incompatible-pointer-types"])
GOOD["a class that is not copied"] = ("hpp", "", CLS + """
static File one; static File two(3); static int get(const File &f) { return f.fd; }
struct Holder { File f; Holder() : f(2) {} int n() { return get(f); } };
int use(); int use() { File *p = new File(5); int r = get(*p) + get(one) + get(two) + Holder().n(); delete p; return r; }
""", [])
ASSERTS = ["sizeof(int) == 1", "0", "1 - 1", "2 < 1", "1 ? 0 : 1", "sizeof(long) < sizeof(char)"]
BAD = {}
for _m in ("STATIC_ASSERT", "FUTILS_STATIC_ASSERT"):
    for _i, _x in enumerate(ASSERTS):
        BAD["%s(%s) in a file" % (_m, _x)] = ("both", "", "%s(%s, \"no\");\n" % (_m, _x), [])
        BAD["%s(%s) in a function" % (_m, _x)] = ("both", "", "void f(void);\nvoid f(void)\n{\n\t%s(%s, \"no\");\n}\n" % (_m, _x), [])
for _n, _x in {"a text for %d": '"%d", "x"', "a number for %s": '"%s", 1', "an argument which is missing": '"%d"',
               "an argument of another size": '"%ld", 1'}.items():
    BAD["a format with " + _n] = ("both", "", """
#ifdef __cplusplus
extern "C"
#endif
void say(int a, const char *f, ...) FUTILS_ATTRIBUTE_FORMAT_PRINTF(2, 3);
void use(void);
void use(void) { say(1, %s); }
""" % _x, ["-Wformat", "-Werror=format", "-Werror=format-insufficient-args"])


for _n, _x in {"copied": "File b(a);", "copied on initialisation": "File b = a;", "assigned": "File b; b = a;", "passed by value": "take(a);",
               "copied as a member": "Derived d; Derived e(d);", "assigned as a member": "Derived d, e; e = d;",
               "copied from a temporary by value": "File b; b = File(3);"}.items():
    BAD["a class with FUTILS_DISABLE_COPY is " + _n] = ("hpp", "", CLS + """
class Derived : public File { public: Derived() {} };
void take(File f);
void use(File &a); void use(File &a) { %s }
""" % _x, [])
BAD["a pointer to another type than the member's"] = ("both", "", S + """
struct s *use(double *d);
struct s *use(double *d) { return FUTILS_CONTAINER_OF(d, struct s, b); }
""", ["-Werror=incompatible-pointer-types"])
BAD["a containing structure taken for another"] = ("both", "", S + """
struct other { int a; };
struct other *use(unsigned *b);
struct other *use(unsigned *b) { return FUTILS_CONTAINER_OF(b, struct s, b); }
""", ["-Werror=incompatible-pointer-types"])


def compile_(cc, text, extra, d, name):
    f = os.path.join(d, name)
    open(f, "w").write(text)
    if cc[0].startswith("g"):
        extra = [x for x in extra if x not in ("-Werror=macro-redefined", "-Werror=format-insufficient-args")]
    r = subprocess.run([build.tool(cc[0])] + cc[1:] + ["-fsyntax-only"] + (extra or ["-w"]) + ["-I" + os.path.join(build.REPO, "include"), f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, LC_ALL="C"))
    if r.returncode < 0 or "error:" not in r.stdout and r.returncode:
        raise build.Broken("%s: %s" % (" ".join(cc), r.stdout[-500:]))
    if not r.returncode:
        return None
    return next(l for l in r.stdout.splitlines() if "error:" in l).replace(build.REPO + "/", "").replace(d + "/", "")


def where(name):
    """the line of the helper the witness uses"""
    for head, words, key in (("list.h", ("containing structure", "pointer to another"), "define FUTILS_CONTAINER_OF"),
                             ("futils.hpp", ("class",), "define FUTILS_DISABLE_COPY")):
        if any(w in name for w in words):
            return line(head, key)
    key = {"array": "define FUTILS_SIZEOF_ARRAY", "text": "define FUTILS_STRINGIFY", "member": "define TYPEOF_STRUCT_MEMBER",
           "smallest": "define FUTILS_MIN", "own": "ifndef SIZEOF_ARRAY", "format": "define FUTILS_ATTRIBUTE_FORMAT_PRINTF",
           "a": "define FUTILS_ATTRIBUTE_FORMAT_PRINTF"}.get(name.split()[0], "define FUTILS_STATIC_ASSERT")
    return line("futils.h", key)


def line(head, key):
    try:
        for i, l in enumerate(open(os.path.join(build.REPO, "include/futils", head)), 1):
            if key in l:
                return "include/futils/%s:%d" % (head, i)
    except OSError:
        pass
    return "include/futils/" + head


@check("G05", technique="compile and compile-fail witnesses decided by the front ends of clang and gcc", note="complete for the witnesses in specs/ctspec.py in each language version; nothing is run")
def g05(ctx):
    ctx.rule("every witness that uses a compile-time helper rightly compiles; every witness with a false assertion or a wrong format does not")
    d = tempfile.mkdtemp(prefix="vfc.")
    jobs = []
    for table, good in ((GOOD, True), (BAD, False)):
        for name, (lang, before, text, extra) in table.items():
            for cc in (C if lang != "hpp" else []) + (CXX if lang != "c" else []):
                plus = cc in CXX
                # the compiler's own assertion, not the one under test
                own = "#define CHECK(x) %s(x, #x)\n" % ("static_assert" if plus else "_Static_assert")
                jobs.append((name, good, cc, own + before + (HEAD if lang != "hpp" else "#include <futils/futils.hpp>\n") + text, extra))
    try:
        probe = [compile_(cc, HEAD, [], d, "p%d.c" % i) for i, cc in enumerate(C + CXX)]
        for cc, e in zip(C + CXX, probe):
            if e:
                raise build.Broken("futils.h does not compile by itself with %s: %s" % (" ".join(cc), e))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = list(ex.map(lambda x: compile_(x[1][2], x[1][3], x[1][4], d, "w%d.c" % x[0]), enumerate(jobs)))
    finally:
        shutil.rmtree(d)
    for (name, good, cc, text, extra), e in zip(jobs, errs):
        lang = "%s %s" % (cc[0], cc[-1])
        if good and e:
            ctx.violate(where(name), "%s: the right use is refused (%s): %s" % (name, lang, re.sub(r"^\S+: ", "", e)), kind="witness", ident=name)
        if not good and not e:
            ctx.violate(where(name), "%s is accepted (%s)" % (name, lang), kind="witness", ident=name.split("(")[0] + (name if "(" not in name else " false"))
    ctx.lint_result("witnesses that must compile, over C and C++ language versions", sum(j[1] for j in jobs), sorted(GOOD))
    ctx.lint_result("witnesses that must not compile, over C and C++ language versions", sum(not j[1] for j in jobs), sorted(BAD)[:8])
