"""S02: documentation arrives at its declaration and never becomes code."""
from . import common, surf, surfrun
from .rig import java_deps, python_deps
from .surf import java_tool

RULE = "a case is one documented or undocumented member of a generated interface, non-trivial when it has a comment; distinct by declaration and comment text"


def main():
    ck = common.Check("S02", RULE, ["declarations are read back by clang++ (AST), javac (syntax tree) and the Python interpreter"])
    common.build_fgen()
    java_tool(), java_deps(), python_deps()
    n = 60 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 50), ("java", 60), ("python", 16)) for i in range(rd * k, rd * k + k)]

    def job(x):
        lang, i = x
        if not ck.violations and not ck.over(700):
            surfrun.explore(ck, lang, i, "S02", surf.WEIRD, True)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
