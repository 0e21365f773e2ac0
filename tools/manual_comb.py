"""Evaluation aid: random combinations of the hand-written rewrites of one function (COUNT, SEED); every verdict must be EQ or UND."""
import ast, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
text = list(M.R)
import manual_ref2 as M2
import manual_ref3 as M3
rng = random.Random(int(os.environ.get("SEED", "1")))
src = {fn: open(M.SRC + "/" + fn).read() for fn in os.listdir(M.SRC) if fn.endswith(".py")}
groups = {}
for id, file, name, subs in M2.SUBS:
    groups.setdefault((file, name), []).append((id, subs))
for id, file, pairs in text:
    a = ast.parse(src[file])
    b = src[file]
    for o, n in pairs:
        b = b.replace(o, n, 1)
    b = ast.parse(b)
    fa = {f.name: ast.dump(f) for f in a.body if isinstance(f, ast.FunctionDef)}
    ch = [f.name for f in b.body if isinstance(f, ast.FunctionDef) and f.name in fa and ast.dump(f) != fa[f.name]]
    if len(ch) == 1:
        groups.setdefault((file, ch[0], "text"), []).append((id, pairs))
out, seen = [], set()
keys = sorted(k for k in groups if len(groups[k]) > 1)
count = int(os.environ.get("COUNT", "150"))
tries = 0
while len(out) < count and tries < count * 60:
    tries += 1
    k = rng.choices(keys, [len(groups[k]) for k in keys])[0]
    s = src[k[0]]
    if len(k) == 2:
        fd = next(n for n in ast.parse(s).body if isinstance(n, ast.FunctionDef) and n.name == k[1])
        seg = ast.get_source_segment(s, fd)
        if isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant):
            fd.body = fd.body[1:]
        code = ast.unparse(fd)
    else:
        seg = code = s
    used = []
    for id, subs in rng.sample(groups[k], len(groups[k])):
        if len(used) == rng.choice((2, 3, 4, 5)):
            break
        c = code
        if all(o in c for o, n in subs):
            for o, n in subs:
                if o not in c:
                    break
                c = c.replace(o, n, 1)
            else:
                try:
                    ast.parse(c)
                except SyntaxError:
                    continue
                code = c
                used.append(id)
    if len(used) < 2 or frozenset(used) in seen:
        continue
    seen.add(frozenset(used))
    out.append(("+".join(used), k[0], ((seg, code),)))
if __name__ == "__main__":
    M.main(out, sys.argv[1:])
