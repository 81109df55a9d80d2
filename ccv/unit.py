"""Mechanical extraction: compile an instantiation unit against /repo's current
headers with clang and read back the LLVM IR and the record layouts."""
import os, re, subprocess, hashlib, shutil, tempfile
import ll
from core import Unsupported
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18"
FLAGS = ["-std=c++20", "-O0", "-g0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-Xclang", "-fdump-record-layouts"]

class ExtractError(Exception): pass

class Layout:
    def __init__(s, txt):
        s.rec = {}; cur = None; name = None
        for ln in txt.split("\n"):
            if ln.startswith("*** Dumping AST Record Layout"): cur = []; name = None; continue
            if cur is None: continue
            m = re.match(r"^\s*(\d+)(?::[\d-]+)? \| ( *)(.*)$", ln)
            if m:
                d = len(m.group(2)) // 2
                if name is None: name = re.sub(r"^(class|struct|union) ", "", m.group(3)).replace(" (empty)", ""); continue
                cur.append((int(m.group(1)), d, m.group(3)))
                continue
            m = re.match(r"^\s*\| \[sizeof=(\d+),", ln)
            if m and name is not None:
                s.rec.setdefault(name, (int(m.group(1)), cur)); cur = None
    def find(s, rx, pick=None):
        ks = [k for k in s.rec if re.search(rx, k)]
        ex = [k for k in ks if re.fullmatch(rx, k)]
        if ex: ks = ex
        if not ks: raise Unsupported("no record layout for " + rx)
        if len(ks) > 1:
            if len({repr(s.rec[k]) for k in ks}) > 1 and pick is None: raise Unsupported(f"ambiguous record {rx}: {ks[:3]}")
        return Rec(s, ks[0], *s.rec[ks[0]])

class Rec:
    def __init__(s, lay, name, size, mem): s.lay = lay; s.name = name; s.size = size; s.mem = mem
    def members(s): return [(o, t) for o, d, t in s.mem if d == 1]
    def off(s, name, ty=None, nth=0):
        """offset of direct member `name`; if it was renamed, of the unique (nth)
        direct member whose type matches ty"""
        for o, t in s.members():
            if re.search(r"(^|[ *&])" + re.escape(name) + r"( \(empty\))?$", t): return o
        if ty:
            c = [o for o, t in s.members() if re.search(ty, t)]
            if len(c) > nth: 
                return c[nth]
        raise Unsupported(f"member {name} of {s.name} not found")

class Unit:
    def __init__(s, src, workdir, extra=()):
        s.src = src
        base = os.path.join(workdir, os.path.basename(src).replace(".cpp", ""))
        s.ll_path = base + ".ll"
        s.cmd = [CLANG, *FLAGS, *extra, "-I", os.path.join(REPO, "include"), "-S", "-emit-llvm", src, "-o", s.ll_path]
        p = subprocess.run(s.cmd, capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            raise ExtractError("clang failed on " + src + "\n" + p.stderr[-3000:])
        s.layout = Layout(p.stdout)
        s.mod = ll.Module(s.ll_path)
        s.sha = hashlib.sha256(open(s.ll_path, "rb").read()).hexdigest()
    def fn(s, rx, pick=None):
        """mangled name of the unique function whose demangled name matches rx"""
        c = [n for n in s.mod.funcs if re.search(rx, s.mod.dem[n])]
        if pick: c = [n for n in c if pick(n)]
        # C1/C2 and D1/D2 duplicates
        if len(c) > 1:
            d = [n for n in c if re.fullmatch(rx, s.mod.dem[n])]
            if d: c = d
        if len(c) > 1:
            d = [n for n in c if s.mod.dem[n][re.search(rx, s.mod.dem[n]).end():].strip() in ("", "const", "const &", "&", "&&")]
            if d: c = d
        if len(c) > 1:
            seen = {}
            for n in c: seen.setdefault(s.mod.dem[n], n)
            if len(seen) == 1: c = [sorted(c, key=lambda n: ("C2" in n or "D2" in n), reverse=True)[0]]
        if not c: raise Unsupported("no function " + rx)
        if len(c) > 1: raise Unsupported(f"ambiguous function {rx}: " + "; ".join(s.mod.dem[n][:150] for n in c[:4]))
        return c[0]
