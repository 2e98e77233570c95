"""S01: the generated code declares what the interface declares, and nothing else."""
from . import common, surfrun
from .rig import java_deps, python_deps
from .surf import java_tool

RULE = "a case is one member (or enum item) of a generated interface, non-trivial when it has arguments, a result, an alias or a value; distinct by declaration"


def main():
    ck = common.Check("S01", RULE, ["declarations are read back by clang++ (AST), javac (syntax tree) and the Python interpreter"])
    common.build_fgen()
    java_tool(), java_deps(), python_deps()
    n = 60 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 50), ("java", 60), ("python", 16)) for i in range(rd * k, rd * k + k)]

    def job(x):
        lang, i = x
        if not ck.violations and not ck.over(700):
            surfrun.explore(ck, lang, i, "S01")
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
