"""which functions of /repo/src/valor_lite are under contract, used through a contract, or inlined; and which are not reached"""
import ast, pathlib, sys, json
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from vc import run

SRC = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else '/repo/src')


def functions():
    for f in sorted((SRC / 'valor_lite').rglob('*.py')):
        mod = '.'.join(f.relative_to(SRC).with_suffix('').parts)

        def walk(body, pre):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield f'{pre}.{n.name}'
                elif isinstance(n, ast.ClassDef):
                    yield from walk(n.body, f'{pre}.{n.name}')
        yield from walk(ast.parse(f.read_text()).body, mod)


if __name__ == '__main__':
    cons = run.load()
    under = {}
    for n, c in cons.items():
        under.setdefault(c.target, []).append(n)
    fs = list(functions())
    hit = [f for f in fs if f in under]
    print(f'{len(hit)} of {len(fs)} functions are targets of a contract ({len(cons)} contracts)')
    for f in fs:
        if f not in under:
            print('  -', f.removeprefix('valor_lite.'))
