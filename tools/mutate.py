#!/usr/bin/env python3
"""Systematic small changes to the code, to find out what the checks do not notice.

mutate.py list [FILE-SUBSTRING]        print the mutants
mutate.py run SHARD/OF [FILE-SUBSTRING] [SAMPLE]   in a private mount namespace (PLANT_SCRATCH), try every SAMPLE-th mutant:
    build the harness, run the checks that watch this file; if none objects, run the stable tests
Results go to $PLANT_SCRATCH/mutants.jsonl. ONLY=FILE: just the mutants named there; CHECKS="C11 C12": run those checks instead
of the ones that watch the file (is each property's own check able to notice?).
"""
import json, os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("PLANT_SCRATCH", "/tmp/mu")
REPO = "/repo"
FILES = {
    "src/rules.rs": ["C04"],
    "src/decompose/mod.rs": ["C04", "C06", "C02"],
    "src/lex/mod.rs": ["C07", "C09", "C08"],
    "src/lex/selmaho/classify.rs": ["C10"],
    "src/lex/selmaho/mod.rs": ["C10"],
    "src/lex/selmaho/display.rs": ["C10"],
    "src/lex/token.rs": ["C07"],
    "src/span.rs": ["C19"],
    "src/parse/cst/rules/mod.rs": ["C13"],
    "src/parse/cst/rules/connectives.rs": ["C13"],
    "src/parse/cst/rules/mekso.rs": ["C13"],
    "src/parse/cst/rules/selmaho.rs": ["C13", "C12"],
    "src/parse/cst/rules/helpers.rs": ["C13", "C12"],
    "src/parse/cst/error.rs": ["C14"],
    "src/parse/cst/mod.rs": ["C14", "C13"],
    "src/parse/cst/parse_trait.rs": ["C14", "C13"],
    "src/parse/tree_node.rs": ["C12", "C13", "C11"],
    "macros/src/derive_parse.rs": ["C13", "C14"],
    "macros/src/derive_tree_node.rs": ["C12", "C13"],
}

def close(s, i):
    """index of the bracket closing the one at i"""
    pairs = {"(": ")", "[": "]", "{": "}"}
    stack = []
    while i < len(s):
        ch = s[i]
        if ch == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif ch == "'" and re.match(r"'(\\.|[^\\])'", s[i:]):
            i += len(re.match(r"'(\\.[^']*|[^\\])'", s[i:]).group(0)) - 1
        elif s.startswith("//", i):
            i = s.index("\n", i)
        elif ch in pairs:
            stack.append(pairs[ch])
        elif stack and ch == stack[-1]:
            stack.pop()
            if not stack:
                return i
        i += 1
    return -1

def items(s, a, b):
    """top-level comma-separated items of s[a:b] as ranges (angle brackets count)"""
    out, i, start, angle = [], a, a, 0
    while i < b:
        ch = s[i]
        if ch in "([{":
            i = close(s, i)
        elif ch == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif s.startswith("//", i):
            i = s.index("\n", i)
        elif ch == "<":
            angle += 1
        elif ch == ">" and s[i - 1] not in "-=":
            angle -= 1
        elif ch == "," and angle == 0:
            out.append((start, i))
            start = i + 1
        i += 1
    if s[start:b].strip():
        out.append((start, b))
    return out

def lists(s, opener):
    for m in re.finditer(opener, s):
        a = m.end() - 1
        b = close(s, a)
        if b > 0:
            yield a + 1, b

def gen_file(path):
    s = open(f"{REPO}/{path}").read()
    end = len(s)
    m = re.search(r"#\[cfg\(test\)\]\nmod", s)
    if m:
        end = m.start()
    out = []
    def add(op, a, b, new):
        if a < end and s[a:b] != new:
            out.append((op, a, b, new))
    def plain(t):
        return re.fullmatch(r"\s*\w{1,2}\s*", t)
    def delete_and_swap(a, b, op, minimum):
        its = [(x, y) for x, y in items(s, a, b) if s[x:y].strip()]
        if len(its) >= minimum:
            for x, y in its:
                add(op + "-delete", x, min(y + 1, b), "")
        for (x1, y1), (x2, y2) in zip(its, its[1:]):
            if "nots" in op or op == "group" or plain(s[x1:y1]) and plain(s[x2:y2]):
                continue
            add(op + "-swap", x1, y2, s[x2:y2] + "," + s[x1:y1])
    if path == "src/rules.rs":
        for a, b in lists(s, r"\b(?:or|seq)!\["):
            if s[a:b].lstrip().startswith("longest"):
                a += s[a:b].index(">") + 1
            delete_and_swap(a, b, s[a - 4:a - 2].strip("!") + "!", 2)
        for m in re.finditer(r"\.and_(?:not|peek)\(", s):
            b = close(s, m.end() - 1)
            add("chain-delete", m.start(), b + 1, "")
        for m in re.finditer(r"\n\tnot!\(", s):
            b = close(s, m.end() - 1)
            add("not-delete", m.start(), b + 2, "")
        for m in re.finditer(r"consonant_rule!\(\w, \"\w+\"((?:, \w+)*)\);", s):
            delete_and_swap(m.start(1) + 1, m.end(1), "nots", 1) if m.group(1) else None
        for m in re.finditer(r"group!\(\w+: \[", s):
            delete_and_swap(m.end(), close(s, m.end() - 1), "group", 2)
        for m in re.finditer(r"repeat\((\d),|repeat\(\n\t*(\d),", s):
            g = 1 if m.group(1) else 2
            add("repeat", m.start(g), m.end(g), str(1 - int(m.group(g)) if m.group(g) in "01" else 1))
        for m in re.finditer(r"\bopt\(", s):
            b = close(s, m.end() - 1)
            add("opt-required", m.start(), b + 1, s[m.end():b])
        for m in re.finditer(r"\b(stressed|explicitly_stressed|unstressed)_(vowel|syllable|diphthong)\b", s):
            if s[m.start() - 3:m.start()] != "fn ":
                add("stress", m.start(), m.end(), {"vowel": "vowel", "syllable": "syllable", "diphthong": "diphthong"}[m.group(2)])
    elif path.startswith("src/parse/cst/rules/"):
        for m in re.finditer(r"pub enum \w+(?:<[^>]*>)? \{", s):
            delete_and_swap(m.end(), close(s, m.end() - 1), "variant", 2)
        for m in re.finditer(r"(?:pub struct \w+(?:<[^>]*>)?|\n\t\w+)\s*[({]", s):
            a = m.end()
            b = close(s, a - 1)
            if b < 0 or "fn " in s[m.start():a] or s[m.start():a].strip().startswith(("fn", "impl", "let", "match", "if")):
                continue
            its = [(x, y) for x, y in items(s, a, b) if s[x:y].strip()]
            for x, y in its:
                if "Option<" in s[x:y] or "many0" in s[x:y] or "Frees<" in s[x:y]:
                    add("field-delete", x, min(y + 1, b), "")
            for (x1, y1), (x2, y2) in zip(its, its[1:]):
                add("field-swap", x1, y2, s[x2:y2] + "," + s[x1:y1])
        for m in re.finditer(r"Option<", s):
            i, depth = m.end(), 1
            while depth:
                depth += {"<": 1, ">": -1}.get(s[i], 0)
                i += 1
            add("required", m.start(), i, s[m.end():i - 1])
        for m in re.finditer(r"\"many[01]\"", s):
            add("many", m.start(), m.end(), '"many1"' if "0" in m.group(0) else '"many0"')
        for m in re.finditer(r"#\[parse\(([^)\n]*)\)\]", s):
            if "with" not in m.group(1):
                add("attr-delete", m.start(), m.end(), "")
            nots = [(x, y) for x, y in items(s, m.start(1), m.end(1))]
            if len(nots) > 1:
                for x, y in nots:
                    if "with" not in s[x:y]:
                        add("attr-part", x, min(y + 1, m.end(1)), "")
        for m in re.finditer(r"#\[cut\] ?", s):
            add("cut", m.start(), m.end(), "")
        for m in re.finditer(r"WithFree<'arena, ", s):
            i, depth = m.end(), 1
            while depth:
                depth += {"<": 1, ">": -1}.get(s[i], 0)
                i += 1
            add("no-frees", m.start(), i, s[m.end():i - 1])
        if path.endswith("selmaho.rs"):
            a = s.index("\ntoken_types! {") + 14
            for m in re.finditer(r"\n\t(?=[A-Z]\w*,)", s[a:s.index("\n}", a)]):
                add("no-indicators", a + m.end(), a + m.end(), "#[no_indicators] ")
    # generic operators everywhere
    generic = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
               (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"),
               (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.rev\(\)", ""), (r" \+ ", " - "), (r" - ", " + "),
               (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"min_by_key", "max_by_key"), (r"\bany\(", "all("), (r"\ball\(", "any("),
               (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.or_else\(", ".and_then("), (r"(?<=\.\.)=", "")]
    if path in ("src/lex/selmaho/mod.rs", "src/lex/selmaho/display.rs", "src/lex/selmaho/classify.rs"):
        # tables: a sample is enough
        for m in list(re.finditer(r'b?"([^"\n]+)" =>|=> \(?(?:Self::)?(\w+)', s))[::9]:
            g = 1 if m.group(1) else 2
            add("table", m.start(g), m.end(g), m.group(g)[:-1] + ("x" if g == 1 else ""))
    if path != "src/lex/selmaho/mod.rs":
        for pat, new in generic:
            for m in re.finditer(pat, s):
                line = s[s.rfind("\n", 0, m.start()) + 1:s.find("\n", m.start())]
                if line.strip().startswith(("//", "#", "///", "where", "impl", "pub trait", "fn", "pub fn", "macro_rules")) or "log::" in line or "assert" in line:
                    continue
                add("op" + pat, m.start(), m.end(), new)
        for m in re.finditer(r"\n(\t+)(self\.[\w.]+ (?:[-+]?=) [^;\n]+;|[\w.]+\.(?:push|next|extend|insert|clear|truncate)\([^;\n]*\);)", s):
            add("stmt-delete", m.start(2), m.end(2), "")
        for m in re.finditer(r"\b(?<![\w.#'\"])([0-9]+)\b(?![\w.'\"])", s):
            if path in ("src/decompose/mod.rs", "src/lex/mod.rs", "src/span.rs", "src/parse/cst/rules/helpers.rs", "src/parse/tree_node.rs", "src/parse/cst/rules/selmaho.rs"):
                line = s[s.rfind("\n", 0, m.start()) + 1:s.find("\n", m.start())]
                if not line.strip().startswith(("//", "#")) and "assert" not in line:
                    add("const", m.start(), m.end(), str(int(m.group(1)) + 1))
    seen, res = set(), []
    for op, a, b, new in out:
        t = s[:a] + new + s[b:]
        h = hashlib.sha1(t.encode()).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        res.append({"file": path, "line": s.count("\n", 0, a + len(s[a:b]) - len(s[a:b].lstrip())) + 1, "op": op, "old": s[a:b].strip(), "new": new.strip(), "a": a, "b": b, "raw": new})
    return res

def mutants(sub=""):
    return [m for f in FILES if sub in f for m in gen_file(f)]

def name(m):
    cut = lambda t: re.sub(r"\s+", " ", t)[:70]
    return f"{m['file']}:{m['line']} {m['op']} [{cut(m['old'])}] -> [{cut(m['new'])}]" + (f" {m['a']}" if not m["old"] else "")

def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace")

def inner(shard, of, sub, sample):
    ms = mutants(sub)
    ms.sort(key=lambda m: hashlib.sha1(name(m).encode()).hexdigest())
    ms = ms[:len(ms) // sample]
    if os.environ.get("ONLY"):
        wanted = [l.rstrip("\n") for l in open(os.environ["ONLY"])]
        ms = [m for m in mutants(sub) if name(m) in wanted]
    done = set()
    log = SCRATCH + "/mutants.jsonl"
    if os.path.exists(log):
        done = {json.loads(l)["name"] for l in open(log)}
    for k, m in enumerate(ms):
        if k % of != shard or name(m) in done:
            continue
        p = f"{REPO}/{m['file']}"
        src = open(p).read()
        r = {"name": name(m), "file": m["file"]}
        try:
            open(p, "w").write(src[:m["a"]] + m["raw"] + src[m["b"]:])
            b = sh("cd /verif && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build -q --offline --locked --manifest-path harness/Cargo.toml --target-dir target")
            if b.returncode:
                r["result"] = "does not build"
            else:
                r["result"] = "survived"
                for c in os.environ.get("CHECKS", "").split() or FILES[m["file"]]:
                    o = sh(f"cd /verif && VERIF_SEED=1 timeout 300 ./check.sh {c} quick")
                    if o.returncode:
                        r["result"] = f"caught by {c}"
                        r["how"] = o.stdout[-400:]
                        break
                if r["result"] == "survived":
                    t = sh(f"bash /opt/vp/test.sh {SCRATCH}/mo.json")
                    try:
                        out = json.load(open(f"{SCRATCH}/mo.json"))
                        passed = set(out.get("passed", out.get("stable", [])))
                        bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
                    except Exception:
                        bad = ["no result"]
                    r["tests_failing"] = len(bad)
                    r["bad"] = bad[:3]
        finally:
            open(p, "w").write(src)
        with open(log, "a") as f:
            f.write(json.dumps(r) + "\n")
        if r["result"] == "survived":
            print("SURVIVED", r["name"], "tests failing:", r["tests_failing"], flush=True)

def main():
    cmd = sys.argv[1]
    if cmd == "list":
        ms = mutants(sys.argv[2] if len(sys.argv) > 2 else "")
        for m in ms:
            print(name(m))
        from collections import Counter
        print(Counter(m["file"] for m in ms), file=sys.stderr)
    elif cmd == "run":
        os.makedirs(SCRATCH + "/verif", exist_ok=True)
        if not os.path.exists(SCRATCH + "/verif/target"):
            subprocess.run(f"cp -a {VERIF}/target {SCRATCH}/verif/target", shell=True)
        subprocess.run(f"rm -rf {SCRATCH}/repo; cp -a /repo {SCRATCH}/repo", shell=True, check=True)
        subprocess.run(f"cd {VERIF} && find {SCRATCH}/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + ; tar c --exclude=./target --exclude=./.git . | tar x -C {SCRATCH}/verif", shell=True, check=True)
        os.execvp("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {SCRATCH}/repo /repo && mount --bind {SCRATCH}/verif /verif && exec python3 /verif/tools/mutate.py inner \"$@\"", "x", *sys.argv[2:]])
    elif cmd == "inner":
        shard, of = map(int, sys.argv[2].split("/"))
        inner(shard, of, sys.argv[3] if len(sys.argv) > 3 else "", int(sys.argv[4]) if len(sys.argv) > 4 else 1)

main()
