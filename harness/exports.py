"""C34: what the public header declares can be linked and called by users of
the installed library (shared, with the version script, from C, C++, pkg-config
and cmake)."""
import json, os, re, shutil, subprocess, sys


def declared(header, sh):
    ast = json.loads(subprocess.run(["clang", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", header], check=True, stdout=subprocess.PIPE).stdout)
    fns, cur = [], header
    for n in ast["inner"]:
        loc = n.get("loc", {})
        loc = loc.get("expansionLoc", loc)
        if "file" in loc:
            cur = loc["file"]
        if n["kind"] == "FunctionDecl" and cur == header and n.get("storageClass") != "static" and not any(x["kind"] == "CompoundStmt" for x in n.get("inner", [])):
            if n["name"] not in fns:
                fns.append(n["name"])
    return fns


def exported(so):
    out = subprocess.run(["nm", "-D", "--defined-only", so], check=True, stdout=subprocess.PIPE, text=True).stdout
    return {x.split()[2].split("@")[0] for x in out.splitlines() if len(x.split()) == 3 and x.split()[1] in "TtWiu"}


CALLS = r'''
static char out[256];
static unsigned drawn;
static void write_cb(struct tsm_vte *v, const char *u8, size_t len, void *data) { (void)v; (void)data; if (len < sizeof(out)) memcpy(out, u8, len); }
static int draw_cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned w, unsigned x, unsigned y, const struct tsm_screen_attr *a, tsm_age_t age, void *d)
{ (void)c; (void)id; (void)w; (void)a; (void)age; (void)d; if (len && !y && x < 2 && ch[0] == (x ? 'k' : 'o')) drawn++; return 0; }
static int use(void)
{
	struct tsm_screen *s = 0; struct tsm_vte *v = 0;
	if (tsm_screen_new(&s, 0, 0) || tsm_screen_resize(s, 20, 4) || tsm_vte_new(&v, s, write_cb, 0, 0, 0)) return 10;
	tsm_vte_input(v, "ok", 2);
	tsm_screen_draw(s, draw_cb, 0);
	if (drawn != 2) return 11;
	tsm_vte_unref(v); tsm_screen_unref(s);
	return 0;
}
'''


def consumer(fns, cpp):
    t = "#include <libtsm.h>\n#include <dlfcn.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n" + CALLS
    t += "typedef void (*fn)(void);\nstatic const struct { const char *n; fn f; } T[] = {\n"
    t += "".join("\t{ \"%s\", (fn)%s },\n" % (f, f) for f in fns)
    t += "};\nint main(void)\n{\n\tunsigned i, bad = 0;\n\tvoid *h = dlopen(0, RTLD_NOW);\n"
    t += "\tfor (i = 0; i < sizeof(T) / sizeof(*T); i++) { void *p = dlsym(h, T[i].n); if (!p) { printf(\"not found at run time: %s\\n\", T[i].n); bad++; } else if (p != (void *)T[i].f) { printf(\"resolves to another function: %s\\n\", T[i].n); bad++; } }\n"
    t += "\tif (bad) return 4;\n\treturn use();\n}\n"
    return t


def run(repo, work, sh, env, res):
    """returns a list of (key, message, text) of what failed"""
    bad = []
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    b, inst = work + "/b", work + "/inst"
    sh(["cmake", "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=OFF", "-DBUILD_GTKTSM=OFF", "-DCMAKE_INSTALL_PREFIX=" + inst, "-DCMAKE_INSTALL_LIBDIR=lib", "-S", repo, "-B", b], env=env)
    sh(["ninja", "-C", b, "install"], env=env)
    hdr, so = inst + "/include/libtsm.h", inst + "/lib/libtsm.so"
    if not os.path.exists(hdr) or not os.path.exists(so):
        return [("install", "the installation has no header or no shared library", "")]
    fns = declared(hdr, sh)
    if len(fns) < 50:
        raise RuntimeError("only %d functions found in the header" % len(fns))
    count = res["counters"]
    count["functions_declared"] = len(fns)

    def attempt(what, key, cmd, cwd=None, e=None):
        ee = dict(env); ee.update(e or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=cwd or work, env=ee)
        res["evals"] += 1
        if p.returncode:
            miss = sorted(set(re.findall(r"undefined reference to `(\w+)'", p.stdout)) | set(re.findall(r"(?:not found at run time|resolves to another function): (\w+)", p.stdout)))
            bad.append((key, what + (": " + ", ".join(miss) if miss else " (exit %d)" % p.returncode), p.stdout[-3000:]))
            return None
        return p.stdout

    # 1. the dynamic symbols
    missing = [f for f in fns if f not in exported(so)]
    res["evals"] += len(fns)
    if missing:
        bad.append(("export", "declared in libtsm.h but not exported by the shared library: " + ", ".join(missing), ""))
    # 2. with the version script, as cmake applies it where it knows the compiler
    objs = [os.path.join(d, f) for d, _, fs in os.walk(b + "/src/tsm") for f in fs if f.endswith(".o")] + \
           [os.path.join(d, f) for d, _, fs in os.walk(b) for f in fs if f.endswith(".o") and "/src/tsm/" not in d]
    sh(["gcc", "-shared", "-Wl,--version-script=" + repo + "/src/tsm/libtsm.sym", "-o", work + "/libversioned.so"] + objs, env=env)
    missing = [f for f in fns if f not in exported(work + "/libversioned.so")]
    res["evals"] += len(fns)
    if missing:
        bad.append(("version-script", "declared in libtsm.h but made local by libtsm.sym: " + ", ".join(missing), ""))
    # 3. consumers
    for lang, cc, std in (("c", "gcc", "-std=gnu99"), ("cpp", "g++", "-std=c++11")):
        with open(work + "/use." + lang, "w") as fh:
            fh.write(consumer(fns, lang == "cpp"))
    pce = {"PKG_CONFIG_PATH": inst + "/lib/pkgconfig"}
    flags = attempt("pkg-config does not know the installed library", "pkgconfig", ["pkg-config", "--cflags", "--libs", "libtsm"], e=pce)
    if flags is not None:
        for lang, cc, std in (("c", "gcc", "-std=gnu99"), ("cpp", "g++", "-std=c++11")):
            exe = work + "/use-" + lang
            if attempt("a %s program that uses every declared function does not link" % lang, "link-" + lang, [cc, std, "-w", "use." + lang, "-o", exe] + flags.split() + ["-Wl,-z,now", "-Wl,-rpath," + inst + "/lib", "-ldl"]) is not None:
                attempt("a %s program that uses every declared function fails" % lang, "run-" + lang, [exe])
    if not any(k == "version-script" for k, _, _ in bad):
        if attempt("linking with the versioned library fails", "link-versioned", ["gcc", "-w", "use.c", "-I" + inst + "/include", "-o", work + "/usev", work + "/libversioned.so", "-Wl,-rpath," + work, "-ldl"]) is not None:
            attempt("a program using the versioned library fails", "run-versioned", [work + "/usev"])
    os.makedirs(work + "/cm")
    with open(work + "/cm/CMakeLists.txt", "w") as fh:
        fh.write("cmake_minimum_required(VERSION 3.5)\nproject(use LANGUAGES C)\nfind_package(libtsm REQUIRED)\nadd_executable(use ../use.c)\ntarget_link_libraries(use PRIVATE libtsm::tsm dl)\n")
    if attempt("cmake does not find the installed library", "cmake", ["cmake", "-G", "Ninja", "-Wno-dev", "-DCMAKE_C_FLAGS=-w", "-DCMAKE_PREFIX_PATH=" + inst, "-S", work + "/cm", "-B", work + "/cm/b"]) is not None:
        if attempt("a cmake user of the library does not link", "cmake-link", ["ninja", "-C", work + "/cm/b"]) is not None:
            attempt("a cmake user of the library fails", "cmake-run", [work + "/cm/b/use"])
    res["states"].update(fns)
    res["cases"] += len(fns)
    res["samples"] += ["%d functions: exported, kept by the version script, linked and resolved from C, C++, pkg-config and cmake" % len(fns)] + fns[:3]
    return bad
