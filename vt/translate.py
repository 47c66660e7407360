"""Mirror /repo's *.py files, translated from Python 2 to Python 3, into a build directory.

    translate.py REPO BUILD_DIR

Uses the stock lib2to3 fixers, plus the two language differences below that
they do not cover. Files are translated again only when they (or this script)
changed; files gone from REPO are removed. A file that does not parse is
copied as it is, so that it is a SyntaxError in the mirror too, and the exit
code is 3.
"""
import ast
import hashlib
import os
import shutil
import sys
import warnings

warnings.simplefilter("ignore")
from lib2to3 import fixer_base, refactor


class FixMethodtype(fixer_base.BaseFix):
    """types.MethodType(func, obj, cls) -> types.MethodType(func, obj).

    Python 3 dropped the third argument (im_class).
    """
    BM_compatible = True
    PATTERN = """
    power< 'types' trailer< '.' 'MethodType' >
        trailer< '(' args=arglist< any ',' any ',' any > ')' > >
    """

    def transform(self, node, results):
        args = results["args"]
        for child in list(args.children[3:]):
            child.remove()


class Tool(refactor.RefactoringTool):
    def get_fixers(self):
        pre, post = super().get_fixers()
        post.append(FixMethodtype(self.options, self.fixer_log))
        return pre, post

    def log_message(self, msg, *args):
        pass
    log_debug = log_message


STOCK = set(refactor.get_fixers_from_package("lib2to3.fixes"))


def translate(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    if not text.strip():
        return text
    if not text.endswith("\n"):
        text += "\n"
    try:
        # Already in the grammar both versions share: print() is a function.
        ast.parse(text, path)
        tool = Tool(STOCK - {"lib2to3.fixes.fix_print"}, {"print_function": True})
    except SyntaxError:
        tool = Tool(STOCK)
    try:
        out = str(tool.refactor_string(text, path))
    except Exception as e:
        raise SyntaxError(f"{path}: {e}")
    ast.parse(out, path)
    return out


def main(repo, dest):
    with open(__file__, "rb") as f:
        own = f.read()
    cache = dest.rstrip("/") + ".hashes"
    os.makedirs(cache, exist_ok=True)
    wanted, bad = set(), 0
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d != "__pycache__")
        for name in sorted(files):
            src = os.path.join(root, name)
            rel = os.path.relpath(src, repo)
            if name.startswith("."):
                continue
            wanted.add(rel)
            out = os.path.join(dest, rel)
            with open(src, "rb") as f:
                data = f.read()
            # fix_import looks at which modules lie beside the file.
            beside = "\n".join(sorted(x for x in os.listdir(root) if x != "__pycache__")).encode()
            digest = hashlib.sha256(own + b"\0" + beside + b"\0" + data).hexdigest()
            stamp = os.path.join(cache, rel.replace(os.sep, "%"))
            if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == digest:
                continue
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.exists(stamp):
                os.remove(stamp)
            if not name.endswith(".py"):
                shutil.copyfile(src, out)
            else:
                try:
                    text = translate(src)
                except (SyntaxError, ValueError, RecursionError) as e:
                    print(f"does not parse: {src}: {e}", file=sys.stderr)
                    shutil.copyfile(src, out)
                    bad += 1
                    continue
                with open(out, "w", encoding="utf-8") as f:
                    f.write(text)
            with open(stamp, "w") as f:
                f.write(digest)
    for root, dirs, files in os.walk(dest):
        for name in files:
            path = os.path.join(root, name)
            if os.path.relpath(path, dest) not in wanted:
                os.remove(path)
    return 3 if bad else 0


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:3]))
