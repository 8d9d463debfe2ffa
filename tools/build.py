"""Builds the simulator from the current working tree of the repository.

The code under test is compiled from the unmodified sources with the project's own
flags (plus -fsanitize-coverage=trace-pc, which only inserts calls at basic block
boundaries), archived, and then *retargeted*: objcopy redirects every operating
system / CRT symbol that the simulator implements to the simulator's version.
Nothing in the repository is edited.
"""
import fcntl, glob, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prepare import prepare

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_OUT", os.path.join(VERIF, ".build"))
CC = "/usr/bin/x86_64-w64-mingw32-gcc-posix"
CXX = "/usr/bin/x86_64-w64-mingw32-g++-posix"
PRE = "/usr/bin/x86_64-w64-mingw32-"

LIBS = {
    # name: (globs, exclude, includes, defines, exceptions, coverage, opt)
    "readline": (["readline/readline/*.c", "readline/compat/*.c"], r"/(emacs_keymap|vi_keymap)\.c$",
                 ["readline", "readline/compat", "wildmatch/wildmatch"], ["BUILD_READLINE"], None, False, "-O1"),
    "getopt": (["getopt/*.c"], None, [], [], None, False, "-O1"),
    "wildmatch": (["wildmatch/wildmatch/*.c"], None, [], [], None, False, "-O1"),
    "lua": (["lua/src/*.c"], r"/luac?\.c$", [], ["BUILD_LUA", "BUILD_CLINK_LUA"], None, False, "-O1"),
    "detours": (["detours/*.cpp"], r"/(disolarm|disolarm64|disolia64|uimports)\.cpp$", [], [], "-fno-exceptions", False, "-O0"),
    "clink_lib": (["clink/lib/src/**", "clink/lib/include/**"], None,
                  ["clink/lib/include/lib", "clink/core/include", "clink/terminal/include", "readline", "readline/compat", "wildmatch", "clink/lib/src"],
                  [], "-fno-exceptions", True, "-O0"),
    "clink_lua": (["clink/lua/src/**", "clink/lua/include/**", "clink/lua/scripts/**"], None,
                  ["clink/lua/include/lua", "clink/core/include", "clink/lib/include", "clink/process/include", "clink/terminal/include",
                   "lua/src", "readline", "readline/compat", "wildmatch", "clink/lua/src"], [], "-fno-exceptions", True, "-O0"),
    "clink_core": (["clink/core/src/**", "clink/core/include/**"], None, ["clink/core/include/core", "clink/core/src"], [], "-fno-exceptions", True, "-O0"),
    "clink_terminal": (["clink/terminal/src/**", "clink/terminal/include/**"], None,
                       ["clink/terminal/include/terminal", "clink/core/include", "clink/process/include", "clink/terminal/src"], [], "-fexceptions", True, "-O0"),
    "clink_process": (["clink/process/src/**", "clink/process/include/**"], None,
                      ["clink/core/include", "clink/process/include/process", "clink/process/src"], [], "-fno-exceptions", True, "-O0"),
    "clink_app_common": (["clink/app/src/**", "clink/app/scripts/**"], r"/app/src/(dll|loader)/main\.cpp$",
                         ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lua/include", "clink/process/include",
                          "clink/terminal/include", "getopt", "lua/src", "readline", "readline/compat", "detours"], [], "-fno-exceptions", True, "-O0"),
}
HARNESS_INC = ["clink/app/src", "clink/core/include", "clink/lib/include", "clink/lib/include/lib", "clink/lua/include",
               "clink/process/include", "clink/terminal/include", "lua/src", "readline", "readline/compat", "getopt"]
OSLIBS = "version shlwapi rpcrt4 gdi32 ole32 dbghelp kernel32 user32 advapi32 shell32 oleaut32 uuid comdlg32".split()


def sources(globs, exclude):
    out = []
    for g in globs:
        if g.endswith("**"):
            base = os.path.join(REPO, g[:-2])
            for d, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".c", ".cpp")):
                        out.append(os.path.join(d, f))
        else:
            out += sorted(glob.glob(os.path.join(REPO, g)))
    if exclude:
        out = [f for f in out if not re.search(exclude, f)]
    return out


def write_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def linker_script():
    text = subprocess.run([PRE + "ld", "--verbose"], capture_output=True, text=True, check=True).stdout
    text = text.split("==================================================")[1]
    # The writable state of the code under test is grouped, so that the simulator can
    # give every simulated process its own copy of it.
    group = """  .sutdata BLOCK(__section_alignment__) :
  {
    sut_data_start = . ;
    *libsut_*.a:*(.data)
    *libsut_*.a:*(SORT(.data$*))
    *sc_*.cpp.o(SORT(.data$*))
    . = ALIGN(64);
    *libsut_*.a:*(.bss)
    *libsut_*.a:*(SORT(.bss$*))
    *sc_*.cpp.o(SORT(.bss$*))
    *libsut_*.a:*(COMMON)
    . = ALIGN(64);
    sut_data_end = . ;
  }
"""
    i = text.index("  /* The Cygwin32 library uses")
    return text[:i] + group + text[i:]


def generate():
    os.makedirs(OUT, exist_ok=True)
    gen = os.path.join(OUT, "gen")
    os.makedirs(gen, exist_ok=True)
    prepare(REPO, gen)
    build_root = os.path.join(REPO, ".build", "gmake")
    common = ['-DHAVE_CONFIG_H', '-DHANDLE_MULTIBYTE', '-DDEBUG', '-D_DEBUG', f'-DCLINK_BUILD_ROOT=\\"{build_root}\\"',
              '-D__MSVCRT_VERSION__=0x0601', '-D_WIN32_WINNT=0x0601', '-DWINVER=0x0601', f'-I{gen}',
              '-w', '-ffunction-sections', '-fdata-sections', f'-include {VERIF}/sim/utf8.h', f'-idirafter{gen}/shim']
    n = []
    n.append(f"""ninja_required_version = 1.8
builddir = {OUT}
rule cc
  command = {CC} -MMD -MF $out.d $flags -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cxx
  command = {CXX} -MMD -MF $out.d $flags -c $in -o $out
  depfile = $out.d
  deps = gcc
rule ar
  command = rm -f $out && {PRE}ar qcT $out.tmp.a @$out.rsp 2>/dev/null; rm -f $out.tmp.a && {PRE}ar qc $out @$out.rsp
  rspfile = $out.rsp
  rspfile_content = $in
rule redef
  command = python3 {VERIF}/tools/redef.py $out $in
  restat = 1
rule retarget
  command = {PRE}objcopy --redefine-syms={OUT}/redefs.txt$sc $lib $out
rule link
  command = {CXX} -static -Wl,-T,{OUT}/link.ld -Wl,--disable-dynamicbase -Wl,--image-base=0x140000000 -Wl,--stack=16777216 $wrap -o $out @$out.rsp $libs
  rspfile = $out.rsp
  rspfile_content = $in
""")
    simsrc = sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp")))
    simobjs = []
    hflags = [f for c in common for f in [c.replace("-fdata-sections", "")] if f] + [f"-I{REPO}/{d}" for d in HARNESS_INC] + [f"-I{VERIF}/sim", "-std=c++17", "-fpermissive", "-O1", "-g1", "-fexceptions"]
    for s in simsrc:
        b = os.path.basename(s)
        o = f"{OUT}/obj/sim/{b}.o"
        if b.startswith("sim_"):
            n.append(f"build {o}: cxx {s}\n  flags = -D_WIN32_WINNT=0x0601 -w -I{VERIF}/sim -std=c++17 -fpermissive -O1 -g1 -fexceptions")
        else:
            # Scenarios call both the simulator and the code under test, and are
            # retargeted like the latter.
            n.append(f"build {o}.0: cxx {s}\n  flags = {' '.join(hflags)}")
            n.append(f"build {o}: retarget {o}.0 | {OUT}/redefs.txt\n  lib = {o}.0\n  sc = .sc")
        simobjs.append(o)
    coreobjs = [o for o in simobjs if os.path.basename(o).startswith("sim_")]
    n.append(f"build {OUT}/redefs.txt: redef {' '.join(coreobjs)} | {VERIF}/tools/redef.py")
    libs = []
    for name, (g, ex, inc, defs, exc, cov, opt) in LIBS.items():
        objs = []
        flags = list(common) + [opt, "-g1"] + [f"-D{d}" for d in defs]
        if name in ("readline",):
            pass
        flags += [f"-I{REPO}/{d}" for d in inc]
        cxx = ["-std=c++17", "-fpermissive"] + ([exc] if exc else [])
        if cov:
            flags.append("-fsanitize-coverage=trace-pc")
        for s in sources(g, ex):
            o = f"{OUT}/obj/{name}/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
            if s.endswith(".c"):
                n.append(f"build {o}: cc {s}\n  flags = {' '.join(flags)}")
            else:
                n.append(f"build {o}: cxx {s}\n  flags = {' '.join(flags + cxx)}")
            objs.append(o)
        a = f"{OUT}/obj/lib{name}.a"
        n.append(f"build {a}: ar {' '.join(objs)}")
        r = f"{OUT}/obj/libsut_{name}.a"
        n.append(f"build {r}: retarget {a} | {OUT}/redefs.txt\n  lib = {a}")
        libs.append(r)
    write_if_changed(f"{OUT}/link.ld", linker_script())
    wraps = ["pthread_create", "pthread_join", "pthread_detach", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
             "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_timedwait",
             "pthread_cond_signal", "pthread_cond_broadcast", "pthread_self", "nanosleep", "nanosleep64", "clock_gettime", "clock_gettime64"]
    wrap = " ".join(f"-Wl,--wrap={w}" for w in wraps)
    wl = "-Wl,--start-group " + " ".join(libs) + " -Wl,--end-group " + " ".join(f"-l{x}" for x in OSLIBS)
    n.append(f"build {OUT}/clinksim.exe: link {' '.join(simobjs)} | {' '.join(libs)} {OUT}/link.ld\n  libs = {wl}\n  wrap = {wrap}")
    n.append(f"default {OUT}/clinksim.exe")
    write_if_changed(f"{OUT}/build.ninja", "\n".join(n) + "\n")


def build(quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        generate()
        p = subprocess.run(["ninja", "-C", OUT, "-f", f"{OUT}/build.ninja"], capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write(p.stdout[-8000:] + p.stderr[-4000:])
            raise SystemExit("build failed")
        return time.time() - t


if __name__ == "__main__":
    print(f"built in {build():.1f}s")
