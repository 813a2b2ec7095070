#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of /repo's sources, one at a time, in a scratch worktree; which does no check notice?
   mutate.py WORKTREE OUT.jsonl [--seed N] [--count N] [--files a,b] [--budget S]
Survivors are either equivalent (behaviour unchanged) or gaps of the checks: they are read by hand."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "cloudini_lib/"
FILES = {
    L + "src/v5_codec.cpp": "C01 C09 C18 C04 C17 C10 C05 C08 C22",
    L + "src/v4_codec.cpp": "C01 C02 C03 C04 C17 C10 C05 C08 C09 C22",
    L + "src/field_encoder.cpp": "C01 C02 C03 C05 C09 C08 C22",
    L + "src/field_decoder.cpp": "C01 C02 C03 C04 C17 C09 C10",
    L + "include/cloudini_lib/field_encoder.hpp": "C01 C02 C03 C05 C09 C08 C22",
    L + "include/cloudini_lib/field_decoder.hpp": "C01 C02 C03 C04 C17 C09 C10",
    L + "include/cloudini_lib/encoding_utils.hpp": "C01 C02 C03 C04 C05 C09 C10 C22",
    L + "src/cloudini.cpp": "C01 C06 C23 C10 C05 C22 C08 C09 C04 C12 C07",
    L + "src/chunk_writer.cpp": "C01 C07 C05 C08 C22",
    L + "src/codec_common.cpp": "C01 C02 C22 C04 C05 C09 C17 C06",
    L + "src/codec_common.hpp": "C01 C02 C22 C04 C05 C09 C17",
    L + "src/ros_msg_utils.cpp": "C11 C14 C13 C12 C21 C15 C24",
    L + "include/cloudini_lib/ros_msg_utils.hpp": "C11 C21 C14 C13 C12",
    L + "include/cloudini_lib/contrib/nanocdr.hpp": "C11 C12 C15",
    L + "src/wasm_functions.cpp": "C15 C20",
    L + "src/pcl_conversion.cpp": "C16 C26",
    L + "include/cloudini_lib/pcl_conversion.hpp": "C16 C26",
    L + "include/cloudini_lib/yaml_parser.hpp": "C06 C23",
    L + "tools/src/mcap_converter.cpp": "C19",
    L + "tools/src/cloudini_rosbag_converter.cpp": "C19",
    L + "tools/src/mcap_cutter.cpp": "C27",
    L + "tools/src/pcd_to_cloudini_converter.cpp": "C26",
    "cloudini_ros/src/conversion_utils.cpp": "C25",
    "cloudini_ros/src/cloudini_publisher_plugin.cpp": "C25",
    "cloudini_ros/src/cloudini_subscriber_plugin.cpp": "C25",
    "cloudini_ros/src/cloudini_subscriber_pcl.cpp": "C25",
    "cloudini_ros/src/topic_converter.cpp": "C25",
    "cloudini_py/cloudini_decoder.py": "C20",
}
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r" << (?=[\w(]+[;,) ])", " >> "), (r" >> ", " << "),
    (r"\b0\b(?![.x])", "1"), (r"\b1\b(?!\.)", "2"), (r"\b([2-9]|[1-9]\d+)\b(?![.x])", lambda m: str(int(m.group(0)) - 1)),
    (r"\bif \((?!constexpr)", "if (!("), (r"\bif \((?!constexpr)", "if (false && ("), (r"\+= ", "-= "), (r"\+\+", "--"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bstd::max", "std::min"), (r"\bstd::min", "std::max"), (r"\bint64_t\b", "int32_t"), (r"\buint64_t\b", "uint32_t"), (r"\bsize_t\b", "uint16_t"),
    (r"\bnot ", ""), (r" and ", " or "), (r"\breturn ([^;]{1,60});", "return {};"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
    (r"^(\s+)([A-Za-z_][^;{}]*(?:\(|=|\+\+)[^;{}]*);$", r"\1;"),
]


def mutants(text, py):
    lines = text.split("\n")
    out, block = [], False
    for n, l in enumerate(lines):
        s = l.strip()
        if "/*" in s:
            block = True
        if block or not s or s.startswith(("//", "#", "*", "using", "namespace", "template", "include", "import", "extern")):
            if "*/" in s:
                block = False
            continue
        code = l.split(" //")[0].split("  # ")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                q = code[:m.start()].count('"') - code[:m.start()].count('\\"')
                if q % 2:  # inside a string
                    continue
                if "std::endl" in code or "cout" in code or "cerr" in code or "RCLCPP" in code or "throw" in code and "if" not in code:
                    continue
                rep = m.expand(b) if isinstance(b, str) else b(m)
                new = code[:m.start()] + rep + code[m.end():]
                if rep.startswith("if (!(") or rep.startswith("if (false"):
                    # close the added bracket at the end of the condition
                    depth, i = 0, m.end() - 1
                    while i < len(code):
                        if code[i] == "(":
                            depth += 1
                        elif code[i] == ")":
                            depth -= 1
                            if depth == 0:
                                break
                        i += 1
                    if i == len(code):
                        continue
                    new = code[:m.start()] + rep + code[m.end():i] + ")" + code[i:]
                if new != code:
                    out.append((n, new + l[len(code):]))
    return lines, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("wt")
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--files", default="")
    ap.add_argument("--budget", default="8")
    a = ap.parse_args()
    assert os.path.realpath(a.wt) != "/repo"
    rng = random.Random(a.seed)
    files = [f for f in FILES if not a.files or any(x in f for x in a.files.split(","))]
    pool = []
    for f in files:
        t = open(os.path.join(a.wt, f)).read()
        lines, ms = mutants(t, f.endswith(".py"))
        rng.shuffle(ms)
        pool.append([(f, n, new) for n, new in ms])
    # as many of each file, weighted by the square root of its size
    order = []
    for p in pool:
        k = len(p) ** 0.5
        order += [((i + rng.random()) / k, m) for i, m in enumerate(p)]
    order.sort(key=lambda x: x[0])
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ev = tempfile.mkdtemp(prefix="mutate-evid-")
    env = dict(os.environ, VERIF_REPO=a.wt, VERIF_SEED="1", VERIF_TIER="quick", VERIF_FIRST="1", VERIF_BUDGET=a.budget, VERIF_EVID=ev)
    count = 0
    for _, (f, n, new) in order:
        if count >= a.count:
            break
        path = os.path.join(a.wt, f)
        orig = open(path).read()
        lines = orig.split("\n")
        if (f, n + 1, new.strip()) in done:
            continue
        old = lines[n]
        lines[n] = new
        with open(path, "w") as o:
            o.write("\n".join(lines))
        t0, verdict, by = time.time(), "SURVIVED", ""
        try:
            for flavour in ("fast", "rest"):
                for c in FILES[f].split():
                    ph = ["--phase", "fast"] if flavour == "fast" else []
                    if flavour == "fast" and c in ("C07", "C20"):
                        continue
                    r = subprocess.run(["python3", V + "/run.py", c] + ph, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1:
                        verdict, by = "caught", c + " " + r.stdout.splitlines()[0][:150]
                        break
                    if r.returncode != 0:
                        verdict, by = ("invalid", "") if "compilation of" in r.stdout or "link failed" in r.stdout else ("broken", c + " " + r.stdout[-300:])
                        break
                if verdict != "SURVIVED":
                    break
        finally:
            with open(path, "w") as o:
                o.write(orig)
        if verdict != "invalid":
            count += 1
        rec = dict(verdict=verdict, file=f, line=n + 1, old=old.strip(), new=new.strip(), by=by, s=round(time.time() - t0))
        with open(a.out, "a") as o:
            o.write(json.dumps(rec) + "\n")
    shutil.rmtree(ev)


main()
