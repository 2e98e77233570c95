"""T01: C++ threads sharing objects: calls exclude each other, nothing is lost, nothing is freed early or twice."""
from . import conc_run

RULE = ("a case is one call of a generated C++ method in a program of several threads; it is non-trivial when another thread's call of the same shared object was under way when it began, "
        "or the object was made, given up or handed over by another thread; distinct by method signature, way to the object and interface")


def main():
    return conc_run.check("T01", "cpp", RULE, ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer", "threads of the operating system on all cores; no control over the schedule beyond yields at random places"])


if __name__ == "__main__":
    from . import common
    common.main(main)
