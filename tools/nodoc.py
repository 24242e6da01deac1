"""print a source file without docstrings/comments (development helper)"""
import ast, sys
for f in sys.argv[1:]:
    t = ast.parse(open(f).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
    print('####', f); print(ast.unparse(t))
