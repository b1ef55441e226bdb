#!/usr/bin/env python3
"""Generate and confirm planted bugs.

plant.py gen [ID...]       write seeded/<id>/ from tools/bugs.py
plant.py try ID... [--no-check] [--check PROP,...]
    in a private mount namespace (copies of /repo and /verif laid over the real ones): build, run the stable
    tests, run the demonstration with and without the change, and run the property's check against it
"""
import json, os, subprocess, sys, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("PLANT_SCRATCH", "/tmp/pl")

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use sneturfahi::lex::{Error, Selmaho, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{decompose, lex, Arena, Cst, Span};

fn words(text: &str) -> Vec<&str> {
	decompose(text).map(|span| &text[span.start as usize..span.end as usize]).collect()
}
fn toks(text: &str) -> Vec<Token> {
	lex(text).collect::<Result<Vec<_>, _>>().unwrap()
}
/// e.g. "Koha:mi Gismu:klama"; an experimental word has a star after its class
fn classes(text: &str) -> String {
	toks(text)
		.iter()
		.map(|t| format!("{:?}{}:{}", t.selmaho, if t.experimental { "*" } else { "" }, &text[t.span.start as usize..t.span.end as usize]))
		.collect::<Vec<_>>()
		.join(" ")
}
fn show(node: &dyn TreeNode, text: &str, out: &mut String) {
	let mut kids = 0;
	out.push('(');
	out.push_str(node.name());
	node.for_each_child(&mut |kid| {
		kids += 1;
		out.push(' ');
		show(kid, text, out);
	});
	if kids == 0 {
		if let (Some(start), Some(end)) = (node.start_location(), node.end_location()) {
			out.push(':');
			out.push_str(&text[start as usize..end as usize]);
		}
	}
	out.push(')');
}
/// the tree, or the index of the token the error points at
fn tree(text: &str) -> Result<String, usize> {
	let tokens = toks(text);
	let arena = Arena::new();
	let ret = match Cst::parse(&tokens, &arena) {
		Ok(cst) => {
			let mut out = String::new();
			show(cst.root(), text, &mut out);
			Ok(out)
		}
		Err(error) => Err(tokens.len() - error.location.len()),
	};
	ret
}
/// the words of the leaves in order
fn leaves(text: &str) -> Vec<String> {
	fn walk(node: &dyn TreeNode, text: &str, out: &mut Vec<String>) {
		let mut kids = 0;
		node.for_each_child(&mut |kid| {
			kids += 1;
			walk(kid, text, out);
		});
		if kids == 0 {
			if let (Some(start), Some(end)) = (node.start_location(), node.end_location()) {
				out.push(text[start as usize..end as usize].to_string());
			}
		}
	}
	let tokens = toks(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).ok().unwrap();
	let mut out = vec![];
	walk(cst.root(), text, &mut out);
	out
}
'''

DEMO = r'''#!/bin/bash
# run in the repository's root: exit 0 if the demonstration passes
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat >"$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sneturfahi = { path = "$repo" }
@DEPS@
[profile.dev]
debug = 0
incremental = false
[workspace]
END
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
if ! cargo build --offline -q --manifest-path "$tmp/Cargo.toml" >"$tmp/log" 2>&1; then
	cat "$tmp/log"
	exit 2
fi
timeout 100 "$tmp/target/debug/demo"
'''

def load():
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import bugs
    return {b["id"]: b for b in bugs.BUGS}

def gen(b):
    d = f"{VERIF}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {tmp} && cd {tmp} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
        for f, old, new in b["edits"]:
            p = f"{tmp}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(PRELUDE + "\n" + b["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", b.get("deps", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")

def inner(b, props):
    """inside the namespace"""
    r = {"id": b["id"], "property": b["property"]}
    sh = lambda cmd, **kw: subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)
    d = f"{VERIF}/seeded/{b['id']}"
    sh("git -C /repo checkout -q -- . && git -C /repo clean -fdq -e target")
    demo = tempfile.mkdtemp()
    for n in os.listdir(d):
        if n not in ("patch.diff", "meta.json"):
            shutil.copy(f"{d}/{n}", demo)
    run_demo = lambda: sh(f"cd /repo && timeout 300 bash {demo}/demo.sh")
    try:
        p = run_demo()
        r["demo_clean"] = p.returncode
        if p.returncode:
            r["demo_clean_out"] = (p.stdout + p.stderr)[-1500:]
        p = sh(f"git -C /repo apply {d}/patch.diff")
        if p.returncode:
            r["apply"] = p.stderr
            return r
        p = sh("bash /opt/vp/build.sh")
        r["build"] = p.returncode
        if p.returncode:
            r["build_out"] = p.stderr[-3000:]
            return r
        sh(f"bash /opt/vp/test.sh {demo}/out.json")
        out = json.load(open(f"{demo}/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(out.get("passed", out.get("stable", [])))
        bad = [t for t in stable if t not in passed]
        r["tests_failing"] = len(bad)
        if bad:
            r["tests_bad"] = bad[:5]
        p = run_demo()
        r["demo_bug"] = p.returncode
        r["demo_bug_out"] = (p.stdout + p.stderr)[-300:]
        for prop in props:
            t = time.time()
            p = sh(f"cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED', '1')} VERIF_TIER=quick timeout 900 ./check.sh {prop} quick")
            lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            r["check_" + prop] = {"rc": p.returncode, "violation": lines[:1], "secs": round(time.time() - t, 1), "tail": p.stdout[-600:] + p.stderr[-300:]}
    finally:
        sh("git -C /repo checkout -q -- . && git -C /repo clean -fdq -e target")
        shutil.rmtree(demo)
    return r

def main():
    bugs = load()
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "gen":
        for i in args or bugs:
            gen(bugs[i])
    elif cmd == "try":
        if not os.path.exists(SCRATCH + "/verif/target"):
            os.makedirs(SCRATCH + "/verif", exist_ok=True)
            subprocess.run(f"rsync -a --delete {VERIF}/target/ {SCRATCH}/verif/target/ || cp -a {VERIF}/target {SCRATCH}/verif/", shell=True)
        if not os.path.exists(SCRATCH + "/repo"):
            subprocess.run(f"cp -a /repo {SCRATCH}/repo", shell=True, check=True)
        # the working state of /verif, but its own build output
        subprocess.run(f"cd {VERIF} && find {SCRATCH}/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + ; tar c --exclude=./target --exclude=./.git . | tar x -C {SCRATCH}/verif", shell=True, check=True)
        subprocess.run(f"git -C {SCRATCH}/repo fetch -q /repo HEAD && git -C {SCRATCH}/repo checkout -q -- . && git -C {SCRATCH}/repo checkout -q --detach FETCH_HEAD", shell=True, check=True)
        os.execvp("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {SCRATCH}/repo /repo && mount --bind {SCRATCH}/verif /verif && exec python3 /verif/tools/plant.py inner \"$@\"", "x", *args])
    elif cmd == "inner":
        no_check = "--no-check" in args
        only = None
        if "--check" in args:
            i = args.index("--check")
            only = args[i + 1].split(",")
            del args[i:i + 2]
        ids = [a for a in args if not a.startswith("--")] or list(bugs)
        for i in ids:
            b = bugs[i]
            r = inner(b, [] if no_check else (only or [b["property"]]))
            with open(SCRATCH + "/results.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")
            ok = r.get("demo_clean") == 0 and r.get("build") == 0 and r.get("tests_failing") == 0 and r.get("demo_bug") not in (0, None)
            checks = {k[6:]: (v["rc"], v["secs"], bool(v["violation"])) for k, v in r.items() if k.startswith("check_")}
            print(("VALID  " if ok else "INVALID"), i, "" if ok else {k: v for k, v in r.items() if not k.startswith("check_")}, "CAUGHT" if any(c[0] == 1 and c[2] for c in checks.values()) else "MISSED" if checks else "", checks, flush=True)

main()
