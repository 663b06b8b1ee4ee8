#!/usr/bin/env python3
"""Apply hand-written behaviour-preserving rewrites (tools/hand/*.py) to a copy of /repo/src.

usage: hand.py DST [file ...]
A rewrite file consists of blocks that start with '#@ path qualname' (replace that function or
class member), '#+ path qualname' (insert after it), or '#% path' followed by a python replace pair
old/new separated by a line '#=' (textual)."""
import ast, os, re, shutil, sys, textwrap, glob


def find(tree, qual):
    node = tree
    for part in qual.split("."):
        idx = 0
        m = re.match(r"(.*)#(\d+)$", part)
        if m:
            part, idx = m.group(1), int(m.group(2))
        c = [n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part]
        node = c[idx]
    return node


def apply(dst, text, name):
    blocks = re.split(r"^(?=#[@+%] )", text, flags=re.M)
    for b in blocks:
        if not b.startswith(("#@ ", "#+ ", "#% ")):
            continue
        head, body = b.split("\n", 1)
        kind, rest = head[:2], head[3:].split()
        path = os.path.join(dst, "src", "modopt", rest[0])
        src = open(path).read()
        if kind == "#%":
            old, new = re.split(r"^#=\n", body, flags=re.M)
            assert src.count(old.rstrip("\n")) >= 1, (name, rest, old)
            src = src.replace(old.rstrip("\n"), new.rstrip("\n"))
        else:
            n = find(ast.parse(src), rest[1])
            lines = src.split("\n")
            start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            ind = " " * n.col_offset
            new = textwrap.indent(textwrap.dedent(body).strip("\n"), ind).split("\n")
            if kind == "#@":
                lines[start:n.end_lineno] = new
            else:
                lines[n.end_lineno:n.end_lineno] = [""] + new
            src = "\n".join(lines)
        ast.parse(src)
        open(path, "w").write(src)


def main():
    dst = sys.argv[1]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo/src", dst + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    files = sys.argv[2:] or sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hand", "*.txt")))
    for f in files:
        apply(dst, open(f).read(), f)


main()
