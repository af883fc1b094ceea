"""Development aid (no check uses it): small changes of the code under test, one at a time in a
scratch copy, to see which of them the checks notice.

python3-vt tools/mutate.py MODULE[:FUNCTION] COUNT SEED OUT.jsonl PROP,PROP,...
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"

CMP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//")}


def mutants(text, function):
    tree = ast.parse(text)
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def skip(node):
        src = ast.get_source_segment(text, node) or ""
        return "_logger" in src or "message" in src or "msg" in src or "add_argument" in src

    def visit(node, active, in_func):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef):
                active = function is None or node.name == function or active and function is not None
                in_func = True
            body = node.body
            for child in body:
                visit(child, active, in_func)
            return
        if active and in_func:
            emit(node)
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.stmt) or not (isinstance(node, ast.stmt) and skip(node) and not isinstance(node, (ast.If, ast.For, ast.While, ast.With, ast.Try))):
                visit(child, active, in_func)

    def emit(n):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and skip(n) and not isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            mid = raw[a:b].decode()
            op = OPS[type(n.ops[0])]
            for new in CMP[op]:
                if op in mid:
                    out.append((a, b, mid.replace(op, new, 1), n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = raw[a:b].decode()
            old, new = BIN[type(n.op)]
            if old in mid:
                out.append((a, b, mid.replace(old, new, 1), n.lineno))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, b = span(n)
            if isinstance(n.value, bool):
                out.append((a, b, str(not n.value), n.lineno))
            elif isinstance(n.value, int):
                out.append((a, b, str(n.value + 1), n.lineno))
            else:
                out.append((a, b, repr(n.value * 1.01 + (0.001 if n.value == 0 else 0)), n.lineno))
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0].end_lineno, n.values[0].end_col_offset), pos(n.values[1].lineno, n.values[1].col_offset)
            mid = raw[a:b].decode()
            w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            out.append((a, b, mid.replace(*w), n.lineno))
        elif isinstance(n, ast.Attribute) and n.attr.startswith("nan") and n.attr != "nan":
            a, b = span(n)
            out.append((a, b, raw[a:b].decode().replace(n.attr, n.attr[3:]), n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            c, d = span(n.operand)
            out.append((a, b, raw[c:d].decode(), n.lineno))
        if isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            if isinstance(n, ast.If):
                out.append((a, b, "not (" + raw[a:b].decode() + ")", n.lineno))
                out.append((a, b, "False", n.lineno))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            out.append((a, b, "pass", n.lineno))

    for child in tree.body:
        visit(child, function is None, False)
    return raw, out


def main():
    target, count, seed, out, props = sys.argv[1:6]
    module, _, function = target.partition(":")
    path = os.path.join(SRC, "climate_indices", module + ".py")
    raw, muts = mutants(open(path).read(), function or None)
    rng = random.Random(int(seed))
    rng.shuffle(muts)
    props = props.split(",")
    done = 0
    scratch = "/tmp/mutate.%d" % os.getpid()
    for a, b, new, line in muts:
        if done >= int(count):
            break
        changed = raw[:a] + new.encode() + raw[b:]
        try:
            compile(changed, path, "exec")
        except SyntaxError:
            continue
        done += 1
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree(SRC, scratch + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        with open(scratch + "/src/climate_indices/%s.py" % module, "wb") as f:
            f.write(changed)
        env = dict(os.environ, VERIF_SRC=scratch + "/src", VERIF_SHRINK_S="0")
        caught, notes = None, []
        start = time.monotonic()
        for p in props:
            try:
                r = subprocess.run(["python3-vt", os.path.join(HERE, "run.py"), p], env=env, capture_output=True, text=True, timeout=900)
                text = r.stdout + r.stderr
                if "VIOLATION" in r.stdout:
                    caught = p
                    break
                if r.returncode:
                    notes.append([p, r.returncode, text[-300:]])
                    if "cannot be imported" in text:
                        caught = "import"
                        break
            except subprocess.TimeoutExpired:
                notes.append([p, "timeout", ""])
        rec = {"module": module, "line": line, "old": raw[a:b].decode(), "new": new, "source": raw.decode().split("\n")[line - 1].strip(), "caught": caught, "notes": notes, "s": round(time.monotonic() - start, 1)}
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
    shutil.rmtree(scratch, ignore_errors=True)


main()
