"""Fields of the repository's classes: what changed with respect to the reference tree (fields.json).

The contracts speak of fields by name. A class whose fields were renamed is read with the old names (alpha-conversion of
attribute names, applied to the syntax tree); a field a class gained is no part of any contract: it is left out of the
comparison of states, and reading it from an object that exists already is outside the verifier's reach.
"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFERENCE = os.path.join(HERE, 'fields.json')
PACKAGES = ['cache_dependencies', 'django_cache_dependencies']
SKIP = {'tests', 'testproject', 'migrations', '__pycache__'}


def sources(repo):
    for p in PACKAGES:
        for d, ds, fs in os.walk(os.path.join(repo, p)):
            ds[:] = sorted(x for x in ds if x not in SKIP)
            for f in sorted(fs):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    try:
                        with open(path) as h:
                            yield os.path.relpath(path, repo), ast.parse(h.read())
                    except SyntaxError:
                        pass


def writes(cls):
    """Attributes the methods of a class write on their first parameter, in the order of the text."""
    out = []
    for fn in ast.walk(cls):
        if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
            continue
        me = fn.args.args[0].arg
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id == me and n.attr not in out:
                out.append(n.attr)
    return sorted(out, key=lambda a: position(cls, a))


def position(cls, attr):
    return min((n.lineno, n.col_offset) for n in ast.walk(cls)
               if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr)


def survey(repo):
    """({module file.class: [fields]}, all attribute names and identifiers that occur)."""
    classes, names = {}, set()
    for path, tree in sources(repo):
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                classes[path + ':' + n.name] = writes(n)
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                names.add(n.value)
    return classes, names


def differences(repo):
    """(renamed fields {new: old}, fields gained, fields that vanished in another way)."""
    if not os.path.exists(REFERENCE):
        return {}, set(), set()
    with open(REFERENCE) as f:
        ref = json.load(f)
    known = set(ref['names'])
    classes, names = survey(repo)
    renamed, gained, lost, bad = {}, set(), set(), set()
    for c, old in ref['classes'].items():
        now = classes.get(c)
        if now is None:
            continue
        missing = [a for a in old if a not in now]
        new = [a for a in now if a not in known]
        if missing and len(missing) == len(new):
            for n, o in zip(new, missing):
                if renamed.get(n, o) != o:
                    bad.add(n)
                renamed[n] = o
        else:
            gained.update(new)
            if new:
                lost.update(missing)
    for c, now in classes.items():
        if c not in ref['classes']:
            gained.update(a for a in now if a not in known)
    for n in bad:
        lost.add(renamed.pop(n))
        gained.add(n)
    return renamed, gained - set(renamed), lost


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.names.get(n.attr, n.attr)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'setattr', 'hasattr', 'delattr') and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value in self.names:
            n.args[1] = ast.copy_location(ast.Constant(self.names[n.args[1].value]), n.args[1])
        return n


def record(repo):
    classes, names = survey(repo)
    with open(REFERENCE, 'w') as f:
        json.dump({'classes': classes, 'names': sorted(names)}, f, indent=0, sort_keys=True)
        f.write('\n')
