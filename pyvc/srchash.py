"""Hash of the text the obligations of a property are generated from: functions under contract without docstrings and comments."""
import ast, hashlib, os, sys


def strip(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.Module, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
            x.body = x.body[1:] or [ast.Pass()]
    return n


def text(repo, names):
    """names: dotted function names; the module-level statements of their modules count too"""
    out, mods = [], {}
    for f in sorted(names):
        mod, fn = f.rsplit('.', 1)
        p = os.path.join(repo, *mod.split('.'))
        p = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if mod not in mods:
            try: t = mods[mod] = strip(ast.parse(open(p).read()))
            except (OSError, SyntaxError) as e: t = mods[mod] = None; out.append(f'{mod}: {type(e).__name__}'); continue
            for n in t.body:
                if not isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.append(ast.dump(n))
        t = mods[mod]
        if t is None: continue
        hit = [n for n in t.body if isinstance(n, ast.FunctionDef) and n.name == fn]
        out.append(f + ':' + '|'.join(ast.dump(n) for n in hit))
    return hashlib.sha256('\n'.join(out).encode()).hexdigest()


if __name__ == '__main__': print(text(sys.argv[1], sys.argv[2:]))
