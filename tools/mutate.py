#!/usr/bin/env python3
"""Development aid (not a check): applies small syntactic changes to copies of the sources and reports which checks notice them.
  mutate.py OUT.jsonl PER_FILE SEED [file-regex]      works in /tmp/m, 8 workers, one core each"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
OUT, PER, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
RX = sys.argv[4] if len(sys.argv) > 4 else "."
I, B = "src/include/pdaaal/", "src/pdaaal-bin/"
MAP = {
 I+"AutomatonPath.h": ["D03", "S02", "S01"], I+"NFA.h": ["N01", "N02", "A01"], I+"PAutomaton.h": ["A01", "P01", "J01"], I+"PAutomatonProduct.h": ["S01", "S03", "S04", "S02", "C01", "J01"],
 I+"PDA.h": ["D01", "S02", "S01", "A01", "J01"], I+"PDAFactory.h": ["A02"], I+"Solver.h": ["S01", "S03", "S04", "S02", "S05"], I+"SolverInstance.h": ["S01", "A02", "J01", "S04"], I+"Weight.h": ["W01", "S03", "S04", "J01"],
 I+"cegar/AbstractionMapping.h": ["C02", "C01"], I+"cegar/AbstractionPAutomaton.h": ["C01"], I+"cegar/AbstractionPDA.h": ["C01"], I+"cegar/AbstractionSolverInstance.h": ["C01"], I+"cegar/CegarPdaFactory.h": ["C01"], I+"cegar/Refinement.h": ["C02", "C01"],
 I+"internal/PAutomaton.h": ["A01", "S02", "S01", "S03", "S04", "S05"], I+"internal/PAutomatonAlgorithms.h": ["S03", "S04", "S02", "A01", "S01"], I+"internal/PDA.h": ["D01", "S01", "S05", "S02"], I+"internal/PDA.cpp": ["D01", "S01"],
 I+"internal/PdaSaturation.h": ["S01", "S03", "S04", "S05", "S02"], I+"internal/Reducer.h": ["R01"], I+"internal/Reducer.cpp": ["R01"], I+"parsing/NfaParserGrammar.h": ["N02", "P01"], I+"parsing/NfaParser.cpp": ["N02"],
 I+"utils/SaxHandlerHelpers.h": ["J01", "J02"], I+"utils/flags.h": ["D02"], I+"utils/fut_set.h": ["D02"], I+"utils/more_algorithms.h": ["D02", "D01", "C02"], I+"utils/ptrie_interface.h": ["D04"], I+"utils/vector_set.h": ["D02"], I+"utils/vector_printer.h": ["D02", "W01"], I+"utils/workset.h": ["D02", "S03", "S04"], I+"utils/absl_hash.h": ["D04"],
 B+"Verifier.h": ["L01"], B+"main.cpp": ["L01"], B+"parsing/PAutomatonJsonParser.h": ["J01", "J02"], B+"parsing/PAutomatonParser.h": ["P01"], B+"parsing/Parsing.cpp": ["L01"], B+"parsing/Parsing.h": ["L01"], B+"parsing/PdaJsonParser.h": ["J01", "J02"], B+"parsing/SaxHandlerDispatch.h": ["J01", "J02"], B+"parsing/SolverInstanceJsonParser.h": ["J01", "J02", "L01"], B+"utils/json_stream.h": ["L01"],
}
def muts(line):
    out = []; body = line.rstrip("\r\n"); eol = line[len(body):]
    code = re.sub(r"//.*", "", body); s = code.strip()
    if not s or s.startswith(("#", "*", "/*", "template", "using", "namespace", "assert", "static_assert", "struct", "class", "friend", "typename", "public", "private")): return out
    def sub(pat, rep, tag):
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if new != code: out.append((tag, new + eol))
    for a, b in [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), (r"\|\|", "&&")]: sub(r"(?<= )" + a + r"(?= )", b, f"{a}->{b}")
    sub(r"(?<=[\w\)] )<(?= [\w\(])", "<=", "<"); sub(r"(?<=[\w\)] )>(?= [\w\(])", ">=", ">")
    sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false")
    sub(r"(?<= )\+(?= )", "-", "+"); sub(r"(?<= )-(?= )", "+", "-")
    sub(r"\b0\b(?!x)", "1", "0->1"); sub(r"\b1\b", "0", "1->0"); sub(r"\b1\b", "2", "1->2")
    sub(r"\bif \((?!constexpr)(.*)\) \{", r"if (!(\1)) {", "negate"); sub(r"\bif \((?!constexpr)(.*)\) \{", r"if ((\1) && false) {", "never"); sub(r"(?<!else )\bif \((?!constexpr)(.*)\) \{", r"if ((\1) || true) {", "always")
    sub(r"\bif \((?!constexpr)([^{}]*)\) (return|continue|break|throw)", r"if (!(\1)) \2", "negate")
    sub(r"\bfor \((.*); (.*); (.*)\)", r"for (\1; \2 && false; \3)", "loop")
    sub(r"\bmin\b", "max", "min"); sub(r"\bmax\b", "min", "max"); sub(r"\bback\(\)", "front()", "back"); sub(r"\bfront\(\)", "back()", "front"); sub(r"\brbegin\b", "begin", "rbegin"); sub(r"\bemplace_back\b", "emplace_front", "eb")
    sub(r"\b_from\b", "_to", "from"); sub(r"\b_to\b", "_from", "to"); sub(r"\.first\b", ".second", "first"); sub(r"\.second\b", ".first", "second"); sub(r"\bPUSH\b", "SWAP", "op"); sub(r"\bSWAP\b", "PUSH", "op"); sub(r"\bPOP\b", "NOOP", "op"); sub(r"\bNOOP\b", "POP", "op")
    sub(r"\b(\w+)\((\w+), (\w+)\)", r"\1(\3, \2)", "args"); sub(r"\((\w+), (\w+), (\w+)([,)])", r"(\1, \3, \2\4", "args"); sub(r"std::move\((\w+)\)", r"\1", "move")
    if s in ("break;", "continue;"): out.append(("del", eol)); 
    elif re.match(r"^[\w\.\->\[\]\(\)\*:+]+[\w\)\]](\(.*\)| = .*| \+= .*|\+\+);$", s) and not re.match(r"^(return|auto|const|size_t|bool|int)\b", s): out.append(("del", eol))
    return out
def main():
    r = random.Random(SEED); todo = []
    for f, checks in MAP.items():
        if not re.search(RX, f): continue
        lines = open("/repo/" + f, newline="").readlines(); c = []
        start = next(i for i, l in enumerate(lines) if l.startswith(("#include", "namespace", "#ifndef")))
        incomment = False
        for i, l in enumerate(lines):
            if i < start or "operator<<" in l: continue
            for tag, new in muts(l): c.append((f, i, tag, new))
        r.shuffle(c); n = min(len(c), max(PER // 3, PER * len(lines) // 300)); todo += c[:n]
    r.shuffle(todo); print(len(todo), "mutants", flush=True)
    slots = Queue()
    for k in range(8):
        d = f"/tmp/m/w{k}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "__pycache__")); shutil.copytree("/repo/src", d + "/repo/src"); p = d + "/verif/checks.py"; t = re.sub(r"cases=(\d+)", lambda m: f"cases={int(m[1]) // 4}", open(p).read()); open(p, "w").write(t); slots.put(d)
    out = open(OUT, "a")
    def one(m):
        f, i, tag, new = m; d = slots.get()
        try:
            p = f"{d}/repo/{f}"; orig = open(p, newline="").readlines(); ls = list(orig); ls[i] = new; open(p, "w", newline="").writelines(ls); res, killer = "survived", ""
            try:
                for c in MAP[f]:
                    try: q = subprocess.run(["python3", "run.py", c], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="1", TMPDIR="/tmp/m"), capture_output=True, text=True, errors="replace", timeout=1500); rc = q.returncode
                    except subprocess.TimeoutExpired: res = "timeout"; killer = c; break
                    if rc == 1: res, killer = "killed", c + " " + (re.search(r"\[([^\]]+)\]", q.stdout) or [0, ""])[1]; break
                    if rc == 2: res = "invalid" if "BUILD-ERROR" in q.stdout else "noanswer"; killer = c; break
            finally: open(p, "w", newline="").writelines(orig)
            out.write(json.dumps(dict(file=f, line=i + 1, tag=tag, old=orig[i].strip(), new=new.strip(), res=res, by=killer)) + "\n"); out.flush()
        finally: slots.put(d)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, todo))
main()
