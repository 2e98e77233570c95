"""T02: Java threads sharing objects: calls exclude each other, nothing is lost, nothing is freed early or twice."""
from . import conc_run

RULE = ("a case is one call of a generated Java method in a program of several threads with a running garbage collector; it is non-trivial when another thread's call of the same shared object was under way when it began, "
        "or the object was made, given up or handed over by another thread; distinct by method signature, number of threads and interface")


def main():
    return conc_run.check("T02", "java", RULE, ["OpenJDK 17 with -Xcheck:jni; System.gc() and finalizers run all the time", "threads of the operating system on all cores; no control over the schedule beyond yields at random places"])


if __name__ == "__main__":
    from . import common
    common.main(main)
