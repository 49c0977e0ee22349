"""
Constants that are in the sources now and were not there when the machinery was built (contracts/constants.json).

A change of the code often depends on a threshold or a special value. The scenarios choose their inputs at random, and
these constants (and their neighbours) are among the values that they choose: nothing else depends on them.
"""
import ast
import collections
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "contracts", "constants.json")


def constants(root):
    """{file: {repr of a constant: times}}"""
    found = {}
    for folder, _, files in os.walk(os.path.join(root, "soil")):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(folder, f)
            try:
                tree = ast.parse(open(path, encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            c = collections.Counter()
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs and isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool):
                    c[repr(n.value)] += 1
            found[os.path.relpath(path, root)] = dict(sorted(c.items()))
    return found


def novel(root):
    """(numbers, texts)"""
    forced = os.environ.get("SOIL_NOVEL")       # to test the scenarios
    if forced:
        values = list(ast.literal_eval(forced))
    else:
        try:
            known = json.load(open(FILE))
        except OSError:
            return [], []
        values = []
        for f, c in constants(root).items():
            for k, n in c.items():
                if n > known.get(f, {}).get(k, 0):
                    values.append(ast.literal_eval(k))
    nums = [v for v in values if isinstance(v, (int, float)) and v == v and abs(v) < 1e9]
    texts = [v for v in values if isinstance(v, str) and len(v) < 40]
    return sorted(set(nums)), sorted(set(texts))


if __name__ == "__main__":
    import sys
    json.dump(constants(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(FILE, "w"), indent=0, sort_keys=True)
