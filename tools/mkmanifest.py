#!/usr/bin/env python3
"""Writes MANIFEST.json (run after editing; the output is committed)."""
import json, os
T={
"C01":("runtime monitoring: crash, overflow, CPU-time and rule-event monitors in isolated worker processes","No panic, abort, stack or integer overflow or unexplained amount of work in any execution observed. Overflow checks on, 8 MB stack. Inputs for which the grammar itself needs exponentially many steps are known findings (four probed by name) and otherwise skipped."),
"C02":("runtime monitoring: online invariant monitor on the stream of spans","Cover, order and boundary laws on every word sequence observed."),
"C03":("runtime monitoring: metamorphic monitor over cut and re-spaced texts","Compares executions of the real code with each other; no model trusted."),
"C04":("runtime monitoring against an executable reference model (memoising PEG interpreter)","Trusts spec/morphology.peg as the statement of the morphology; short strings over reduced alphabets exhaustively, longer ones sampled."),
"C05":("runtime monitoring: metamorphic monitor over inserted commas","Compares executions of the real code with each other."),
"C06":("runtime monitoring: history monitor against a sequential cursor model","Random histories of word, verbatim, clone and size-query calls; trusts the morphology model only for what lies inside a run."),
"C07":("runtime monitoring against a reference lexer automaton","Trusts data/cmavo.tsv, spec/morphology.peg and the reference lexer."),
"C08":("runtime monitoring: round-trip monitor on generated quotations","What was quoted is known by construction."),
"C09":("runtime monitoring with injected truncation at every position","Trusts the reference lexer for where quotations lie."),
"C10":("runtime monitoring of classification over the whole vocabulary","Every dictionary cmavo in several spellings on every run; near misses sampled. Trusts data/cmavo.tsv."),
"C11":("runtime monitoring: trace (leaf) monitor on trees","Oracle is the input itself."),
"C12":("runtime monitoring: structural invariant monitor on every tree node","Oracle is the leaves below each node."),
"C13":("runtime monitoring against an executable reference model (memoising PEG interpreter)","Trusts spec/grammar.peg as the statement of the grammar."),
"C14":("runtime monitoring of errors against the reference grammar","Trusts spec/grammar.peg; what else an error says is only checked for agreement with its location."),
"C15":("runtime monitoring: metamorphic monitor over decorated texts","Where ordinary words are is read off the reference derivation."),
"C16":("runtime monitoring: metamorphic monitor over joined texts","Compares executions of the real code with each other."),
"C17":("runtime monitoring: determinism monitor across histories, placements, arenas, log levels and threads, against pristine processes","Every result is compared with the one a freshly forked process gives."),
"C18":("counting allocator on repeated sessions, AddressSanitizer, Miri (thorough)","Exact allocator balance per session; sanitizers see only what the workload executes."),
"C19":("runtime monitoring of span operations against a byte-set model","All quadruples of 7 positions at the bottom, middle and top of the range, extreme and random ones."),
"C20":("runtime monitoring of resources: allocator high-water mark, rule events, CPU time, small stacks","Laws on measured work; CPU time only backs up the exact counts."),
"C21":("runtime monitoring: stack automaton over the log records of every call","Each single call's records are checked; outcomes of outermost rules against the reference morphology."),
"C22":("runtime monitoring of the built program's output and exit status","Trusts the reference models; interactive mode not exercised."),
"C23":("runtime monitoring: metamorphic monitor over spelled-out texts","Compares executions of the real code with each other."),
"C24":("runtime monitoring: metamorphic monitor over written-out terminators","Where terminators are elided is read off the reference derivation."),
}
checks=[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":"exploration","level_note":n} for i,(t,n) in T.items()]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo: everything is observed through the public interface, the log records and the allocator. ./check.sh ID replay FILE judges a saved case. known-findings.txt lists findings and fixes."}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")
