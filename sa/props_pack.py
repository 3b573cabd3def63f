"""What is installed is all that is needed: packages, modules, style sheets and the files they name."""
import ast
import fnmatch
import os
import re

import front
from absint import AnalysisError
from props import prop


def const(n):
    """The value of a constant expression of setup.py."""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, (ast.List, ast.Tuple)):
        return [const(x) for x in n.elts]
    if isinstance(n, ast.Dict):
        return {const(k): const(v) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and not n.keywords:
        if isinstance(n.func.value, ast.Constant):
            return n.func.value.value.join(const(n.args[0]))
        return '/'.join(str(const(x)) for x in n.args)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return const(n.left) + const(n.right)
    raise AnalysisError('setup.py line %s: not a constant' % getattr(n, 'lineno', '?'))


def packages(repo):
    """Directories of the library that are packages (those of tests aside)."""
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, 'bglib')):
        ds[:] = sorted(x for x in ds if os.path.exists(os.path.join(d, x, '__init__.py')))
        if '__init__.py' in fs:
            out.append(os.path.relpath(d, repo).replace(os.sep, '.'))
    return out


@prop('P01', 'The arguments of setup() are evaluated as constants and compared with the packages, the imports of installed modules and the files that the style sheets name.',
      ['every package of the library is installed', 'what installed modules import of the library is installed', 'style sheets and the files they name are installed', 'what is to be installed exists'],
      ['setuptools installs every module of a listed package and the files that match its package_data.'])
def p01(chk, tier):
    repo = front.REPO
    setup = os.path.join(repo, 'setup.py')
    if not os.path.exists(setup):
        raise AnalysisError('setup.py is gone')
    files = [setup] + front.bglib_files()
    trees, dig = front.parse_files(files)
    calls = [n for n in ast.walk(trees[setup]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setup']
    if len(calls) != 1:
        raise AnalysisError('setup.py: no call of setup')
    kw = {k.arg: k.value for k in calls[0].keywords}
    listed, data = const(kw['packages']), const(kw['package_data'])
    where = 'setup.py:%d' % calls[0].lineno
    have = packages(repo)
    for p in have:
        chk.count('packages')
        if p not in listed:
            chk.violation('every package is installed', p, where, 'the package %s is not in packages' % p)
    for p in listed:
        if p not in have:
            chk.violation('what is to be installed exists', p, where, 'there is no package %s' % p)
    mods = {}
    for f in files[1:]:
        r = os.path.relpath(f, repo)
        m = r[:-3].replace(os.sep, '.')
        mods[m[:-9] if m.endswith('.__init__') else m] = f

    def owner(m):
        return m if m in have else m.rpartition('.')[0]
    for m, f in sorted(mods.items()):
        if owner(m) not in listed:
            continue
        for n in ast.walk(trees[f]):
            if isinstance(n, ast.Import):
                names = [(a.name, None) for a in n.names]
            elif isinstance(n, ast.ImportFrom) and n.module:
                names = [(n.module, a.name) for a in n.names]
            else:
                continue
            for name, sub in names:
                if name.split('.')[0] != 'bglib':
                    continue
                chk.count('imports')
                full = name + '.' + sub if sub and name + '.' + sub in mods else name
                if full in mods and owner(full) not in listed:
                    chk.violation('what is imported is installed', '%s imports %s' % (m, full), '%s:%d' % (os.path.relpath(f, repo), n.lineno),
                                  '%s is not installed' % full)
    for p, pats in sorted(data.items()):
        for pat in pats:
            chk.count('patterns')
    res = os.path.join(repo, 'bglib', 'image', 'resource')
    pats = data.get('bglib.image.resource', [])

    def installed(r):
        return any(r.count('/') == pat.count('/') and fnmatch.fnmatchcase(r, pat) for pat in pats)
    for d in sorted(os.listdir(res)):
        sheet = os.path.join(res, d, 'default.css')
        if not os.path.exists(sheet):
            continue
        chk.count('style_sheets')
        if not installed(d + '/default.css'):
            chk.violation('style sheets are installed', d + '/default.css', where, 'the style sheet of the theme %s is not installed' % d)
            continue
        with open(sheet, encoding='latin-1') as f:
            for no, line in enumerate(f, 1):
                for u in re.findall(r'uri\(\s*"([^"]*)"\s*\)', line):
                    r = os.path.normpath(os.path.join(d, u)).replace(os.sep, '/')
                    chk.count('files_named')
                    if not os.path.exists(os.path.join(res, r)):
                        chk.violation('files of style sheets are installed', r, 'bglib/image/resource/%s/default.css:%d' % (d, no), 'there is no file %s' % r)
                    elif not installed(r):
                        chk.violation('files of style sheets are installed', r, 'bglib/image/resource/%s/default.css:%d' % (d, no), 'no pattern of package_data matches %s' % r)
    for pat in pats:
        hit = False
        for root, ds, fs in os.walk(res):
            for f in fs:
                r = os.path.relpath(os.path.join(root, f), res).replace(os.sep, '/')
                hit = hit or r.count('/') == pat.count('/') and fnmatch.fnmatchcase(r, pat)
        if not hit:
            chk.violation('what is to be installed exists', pat, where, 'no file matches %s' % pat)
    chk.functions = {'setup.py', 'bglib/image/resource/*/default.css'}
    for k, n in (('packages', 5), ('imports', 40), ('patterns', 5), ('style_sheets', 5), ('files_named', 100)):
        chk.need(k, n)
