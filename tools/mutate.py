"""Mutation campaign: apply random single-site changes to the library, keep those that build and pass the stable tests,
and run the checks on them until one reports a violation. Survivors are printed for reading.

Usage: mutate.py WORKERS COUNT SEED OUT [FILE...]      (works on copies under /tmp/mut.*)"""
import os, random, re, shutil, subprocess, sys, threading

V, R = "/verif", "/repo"
JSON = "C10 C01 C21 C05 C11 C22 C09 C08 C12 C27 C26 C13 C06 C07 C14 C03 C02 C04 C20 C23 C15".split()
FILES = {
    "Code/Json4C4/C4Json.cpp": JSON, "Code/Json4C4/C4Json.h": JSON,
    "Code/Terathon/TSMap.cpp": ["C16", "C22", "C10"], "Code/Terathon/TSMap.h": ["C16", "C22", "C10", "C05", "C13"],
    "Code/Terathon/TSArray.h": ["C17", "C25", "C26", "C13", "C05", "C10"],
    "Code/Terathon/TSString.cpp": ["C18", "C25", "C13", "C12"], "Code/Terathon/TSString.h": ["C18", "C25", "C13", "C12", "C10"],
    "Code/Terathon/TSText.cpp": ["C24", "C28", "C19", "C18", "C20", "C02", "C06"], "Code/Terathon/TSText.h": ["C24", "C19", "C18"],
    "Code/Terathon/TSBasic.h": ["C28", "C10", "C17", "C18", "C16"], "Code/Terathon/TSMath.cpp": ["C28"], "Code/Terathon/TSMath.h": ["C28"], "Code/Terathon/TSPlatform.h": ["C28", "C18"], "Code/Terathon/TSSimd.h": ["C29", "C28"],
}
SUBS = [(r"<=", "<"), (r"(?<![<\w])<(?![<=\w])", "<="), (r"(?<![>-])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\+\+", "--"), (r"--", "++"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\b(\d+)\b", "+1"), (r"\b(\d+)\b", "-1"), (r"!(?=[\w(])", ""),
        (r"\bif \(", "if (!("), (r"^.*;$", "DEL"), (r"^.*;$", "DEL"), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "&="), (r"&(?= )", "|"), (r"<<", ">>"), (r">>", "<<"),
        (r"\bnullptr\b", "0"), (r"Status::k\w+", "STATUS"), (r"return (\w+);", "RET")]


def active(path):
    """Lines that this platform compiles."""
    src = os.path.join(R, path)
    inc = ["-I" + os.path.join(R, "Code", d) for d in ("Json4C4", "Terathon")]
    o = subprocess.run(["g++", "-std=c++17", "-E", "-C", "-x", "c++"] + inc + [src], capture_output=True, text=True, errors="replace").stdout
    got, cur, n = set(), "", 0
    for l in o.split("\n"):
        m = re.match(r'# (\d+) "(.*?)"', l)
        if m:
            n, cur = int(m.group(1)), m.group(2)
            continue
        if l.strip() and os.path.realpath(cur) == os.path.realpath(src):
            got.add(n)
        n += 1
    return got


def sites(path):
    out = []
    live = active(path)
    lines = open(os.path.join(R, path), newline="").read().split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if i + 1 not in live:
            continue
        if "/*" in s:
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or "alignas" in s or re.match(r"^[-\d.e, ]+(};)?$", s) or s.startswith(("//", "#", "template", "*", "@")) or s.startswith("typedef") or "extern template" in s or s.startswith("friend"):
            continue
        code = l.split("//")[0].rstrip()
        if re.match(r'^\s*(TERATHON_API|C4_\w+|inline|static|extern|virtual)?\s*(const )?[\w:]+[ *&]+\w+\(.*\)( const)?( override)?( noexcept)?;$', code) and "return" not in code and "=" not in code:
            continue  # a declaration
        for k, (pat, new) in enumerate(SUBS):
            for m in re.finditer(pat, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                if new == "DEL":
                    if re.match(r"^\s*(const |u?int\w*|machine|char|bool|auto|type|String|friend|using|return;|[\w:<>]+ [*&]?\w+( =.*)?;)", code) and "return" not in code:
                        continue
                    r = ";"
                elif new in ("+1", "-1"):
                    r = str(int(m.group(1)) + int(new)) if m.group(1)[0] != "0" or m.group(1) == "0" else None
                    if r is None or r == "-1" and new == "-1" and False:
                        continue
                elif new == "if (!(":
                    e = code.rstrip()
                    if not e.endswith(")"):
                        continue
                    out.append((path, i, m.start(), code[:m.start()] + "if (!(" + code[m.end():] + ")"))
                    continue
                elif new == "0":
                    continue
                elif new == "STATUS":
                    r = "Status::kFloatInvalid" if m.group(0) != "Status::kFloatInvalid" else "Status::kOk"
                elif new == "RET":
                    continue
                else:
                    r = new
                out.append((path, i, m.start(), code[:m.start()] + r + code[m.end():]))
    return lines, out


def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    workers, count, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or list(FILES)
    cand = []
    for f in files:
        lines, s = sites(f)
        cand += s
    random.Random(seed).shuffle(cand)
    cand = cand[:count]
    print(len(cand), "mutants")
    lock, it, log = threading.Lock(), iter(cand), open(outp, "a")
    tally = {}

    def work(w):
        base = "/tmp/mut.%d.%d" % (seed, w)
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/r")
        sh("git -C %s archive HEAD | tar x -C %s/r; mkdir v && git -C %s archive HEAD | tar x -C %s/v; rm -rf v/seeded" % (R, base, V, base), base)
        rc, o = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && cmake --build _b -j4", base + "/r")
        assert rc == 0, o
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            path, i, col, new = m
            full = os.path.join(base, "r", path)
            orig = open(full, newline="").read()
            lines = orig.split("\n")
            cr = "\r" if lines[i].endswith("\r") else ""
            old = lines[i]
            lines[i] = new + cr
            open(full, "w", newline="").write("\n".join(lines))
            rc, o = sh("cmake --build _b -j4", base + "/r")
            res = "nobuild"
            if rc == 0:
                rc, o = sh("rm -rf _b/bin/Data; cmake -E copy_directory Data _b/bin/Data; ctest --test-dir _b -j5 --timeout 30", base + "/r", 200)
                res = "tests"
                if rc == 0:
                    res = "SURVIVED"
                    for c in FILES[path]:
                        rc, o = sh("VERIF_REPO=%s/r python3 ./check %s" % (base, c), base + "/v")
                        if rc == 1:
                            res = "caught " + c
                            break
                        if rc != 0:
                            res = "SURVIVED? rc %d %s %s" % (rc, c, o[-200:].replace("\n", " "))
                            if rc == 124:
                                break
            open(full, "w", newline="").write(orig)
            with lock:
                tally[res.split(" ")[0]] = tally.get(res.split(" ")[0], 0) + 1
                if res not in ("nobuild", "tests"):
                    log.write("%s\t%s:%d\t%s\t=>\t%s\n" % (res, path, i + 1, old.strip(), new.strip()))
                    log.flush()
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(tally)
    log.write("# done %s\n" % tally)


main()
