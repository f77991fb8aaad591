"""The table of checks: harness, size (cases per engine and flavour), rule."""
import re, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


def rule(f):
    m = re.search(r'Check pbt::theCheck = \{"C\d\d", "((?:[^"\\]|\\.)*)"', open(os.path.join(H, f)).read())
    return m.group(1)


CHECKS = {}


def add(cid, quick, thorough, **kw):
    f = cid.lower() + ".cpp"
    if kw.get("runner"):
        CHECKS[cid] = dict(quick=quick, thorough=thorough, **kw)
        return
    CHECKS[cid] = dict(harness=f, quick=quick, thorough=thorough, rule=rule(f), **kw)


add("C01", 24000, 300000)
add("C02", 24000, 300000)
add("C03", 24000, 300000)
add("C04", 16000, 250000)
add("C05", 24000, 300000)
add("C06", 20000, 250000)
add("C07", 24000, 300000)
add("C08", 24000, 300000)
add("C09", 24000, 300000)
add("C10", 20000, 250000)
add("C11", 16000, 250000)
add("C12", 32000, 250000)
add("C13", 24000, 300000)
add("C14", 60000, 1500000)
add("C15", 150000, 4000000)
add("C16", 50000, 600000)
add("C17", 50000, 600000)
add("C18", 50000, 600000)
add("C19", 50000, 600000)
add("C20", 40000, 500000)
add("C21", 24000, 300000)
add("C22", 24000, 300000)
add("C23", 24000, 300000)
add("C24", 50000, 400000, flavours=["src"], desktop=False, inc=["-I{H}/stub", "-I{R}/lib/SdFat/src", "-I{R}/lib/SD-Wrapper", "-I{R}/lib/SD-File-Interface", "-I{R}/lib/Dataflash-Wrapper"],
    repo_sources=["lib/Dataflash-File-Interface/dataflashFileInterface.c"], extra=["sd_fat.cpp", "sd_wrap.cpp", "sd_iface.c"],
    technique="property-based testing (stateful model-based generation) of the adaptors over modelled devices; the SD adaptor runs over the repository's own wrapper and FAT library")
add("C25", 30000, 300000, flavours=["all"], driver="c25drv.cpp", variants=lambda f: [("src", "src", []), ("dist", "dist", []), ("regen", "regen", [])])
add("C30", 16000, 200000, technique="differential property-based testing: the same generated program over different leftover memory contents, with shrinking", driver="c25drv.cpp", variants=lambda f: [("zero", f, ["-ftrivial-auto-var-init=zero"]), ("pattern", f, ["-ftrivial-auto-var-init=pattern"])])
PIC = ["-g", "-fPIC", "-fvisibility=hidden"]
add("C31", 16000, 200000, technique="differential property-based testing of three builds on the same generated programs, one of them trapping undefined operations, with shrinking", driver="c25drv.cpp", variants=lambda f: [
    ("checked", f, ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]),
    ("gcc", f, ["-O2", "-funsigned-char"], {"cc": "gcc", "san": PIC}),
    ("o3", f, ["-O3", "-DPRINT_ERRORS"], {"san": PIC})])
add("C33", 16000, 200000, technique="differential property-based testing of a 32-bit and a 64-bit build on the same generated programs, with shrinking", driver="c25drv.cpp", x32=True, variants=lambda f: [("m64", f, [])])
add("C26", 1600, 30000, runner="c26", technique="property-based testing (Hypothesis) of generated C projects: text invariants, metamorphic order independence, and differential compile-and-run against the separate files", note="Generated projects through the real script; evidence, not proof, for what was not generated. Base names are unique, local headers exist, and directives are not inside block comments.")
add("C28", 16000, 250000)
add("C34", 16000, 250000)
add("C35", 40000, 500000, cdefs=["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc"], inc=["-I{H}/stub", "-I{R}/lib/SD-Wrapper", "-I{R}/lib/SD-File-Interface", "-I{R}/lib/Dataflash-Wrapper", "-I{R}/lib/Dataflash-File-Interface"], extra=["oom_sd.c", "oom_df.c"],
    technique="property-based testing with generated memory faults against the outcome with enough memory, with shrinking")
add("C36", 20000, 250000, technique="differential property-based testing of a build with and one without PRINT_ERRORS, everything printed being captured and compared with the state, with shrinking", driver="c36drv.cpp", variants=lambda f: [("silent", f, []), ("loud", f, ["-DPRINT_ERRORS"])])
add("C39", 20000, 250000, technique="differential property-based testing of the build for boards, with a modelled serial port, and the one for the desktop on the same generated programs, with shrinking", driver="c39drv.cpp", variants=lambda f: [
    ("desktop", f, ["-DPRINT_ERRORS"]), ("board", f, ["-DPRINT_ERRORS", "-DARDUINO"], {"inc": ["{H}/board", "{R}/lib/Serial-Wrapper"], "extra": ["{R}/lib/Serial-Wrapper/serial_c_iface.cpp"] if f == "src" else []})])
add("C40", 8000, 100000, threads=3, threaded="c40drv.cpp", no_fuzz=True, technique="property-based testing of generated programs in generated schedules of threads, against each program run alone and a race detector, with shrinking")
add("C41", 24000, 300000)
add("C37", 24000, 300000, technique="stateful property-based testing with generated crash points and lost writes against a model of the history, with shrinking")
add("C38", 24000, 300000)
add("C32", 24000, 250000)
add("C29", 20000, 250000)
add("C27", 200000, 5000000)
