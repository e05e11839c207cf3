"""Extract the verified text from /repo's working tree: clang's own LLVM IR (unoptimised, with debug info) of every
source file under contract, linked into one module.  Nothing is rewritten by hand."""
import subprocess, os, hashlib, concurrent.futures as cf
LL = "/usr/lib/llvm-18/bin/"
CC = ["varint_bigendian", "addrcache", "headerparser", "decodetable", "codetable", "instruction_map", "encodetable",
      "vcdiffengine", "blockhash", "vcdecoder", "jsonwriter", "vcencoder", "logging"]
COMMON = ["-O0", "-g", "-fstandalone-debug", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-S", "-emit-llvm", "-w"]
class ExtractError(Exception): pass
def sources(repo, tool=False):
    out = [os.path.join(repo, "src", c + ".cc") for c in CC]
    have = set(out)
    # a source file added next to these (e.g. a helper moved out) is extracted too
    for f in sorted(os.listdir(os.path.join(repo, "src"))):
        p = os.path.join(repo, "src", f)
        if f.endswith(".cc") and not f.endswith("_test.cc") and (tool or not f.startswith("vcdiff_main")) and p not in have and "test" not in f and "unittest" not in f:
            out.append(p)
    return [p for p in out if os.path.exists(p)] + [os.path.join(repo, "src/zlib/adler32.c")]
def extract(repo, outdir, cfg, tool=False, defines=()):
    os.makedirs(outdir, exist_ok=True)
    def one(p):
        o = os.path.join(outdir, os.path.basename(p) + ".ll")
        if p.endswith(".c"):
            cmd = [LL + "clang"] + COMMON
        else:
            cmd = [LL + "clang++", "-std=gnu++17", "-fno-exceptions"] + COMMON
        cmd += ["-D" + d for d in defines] + ["-I", cfg, "-I", repo + "/src", "-I", repo + "/src/zlib", p, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise ExtractError("%s: %s" % (p, r.stderr[-2000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(one, sources(repo, tool)))
    allp = os.path.join(outdir, "all.ll")
    r = subprocess.run([LL + "llvm-link", "-S"] + lls + ["-o", allp], capture_output=True, text=True)
    if r.returncode: raise ExtractError(r.stderr[-2000:])
    return allp
if __name__ == "__main__":
    import sys
    print(extract(sys.argv[1], sys.argv[2], os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cfg"), tool=True))
