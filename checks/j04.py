"""J04  delta packing of the Java runtime."""
from dv import jharness as h
from dv import jarray as ja
from dv.runner import Case

TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), loops cut with inductive invariants, discharged by z3"
FUNCTIONS = ["DeltaContext.init", "DeltaContext.bitSizeOf", "DeltaContext.read", "DeltaContext.write", "DeltaContext.finishInit, bitSizeOfDescriptor, bitSizeOfUnpacked, "
             "readDescriptor, readUnpacked, writeDescriptor, writeUnpacked, bitLength (inlined)", "PackedArrayTraits.IntegralPackedArrayTraits.*",
             "ArrayTraits.IntegralArrayTraitsBase.*", "Array.bitSizeOfPacked", "Array.initializeOffsetsPacked", "Array.writePacked", "Array.readPacked",
             "Array.resetRawArray, setElementToRawArray, checkIfPackable (inlined)"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics, BigInteger as exact integers; dv.jloops: loop cutting", "z3",
           "induction over the ghost functions (each step is proved, the induction is on paper)"]
ASSUMPTIONS = ["callee contracts: the stream methods write/read exactly their items (J01, J02), element traits write bitSizeOf(element) bits and read them back",
               "elements lie between -2^63 and 2^64-1 and take 1 to 72 bits (all packable zserio types); at most 2^24 elements (sizes are Java ints)"]
NOTE = ("all sequences of any length up to 2^24 (loop invariants over ghost maximum and prefix sums); case split over the maximum delta width: "
        "wider than the limit, none, one element, and - quick tier - widths 0, 1, 7, 31, 62; the thorough tier proves all widths 0..62")
BOUNDED = ["quick tier: element sequences whose maximum delta width is not one of 0, 1, 7, 31, 62 are covered by the concrete cross-check only; the thorough tier proves them too"]
prepare = h.prepare
QUICK = [0, 1, 7, 31, 62]


def cases(tier):
    cs = [Case("ghost-relation", ja.ghost_relation), Case("never-larger", ja.never_larger), Case("bounds-lemma", ja.bounds_lemma)]
    for m in ["none", "one", "wide"] + (QUICK if tier == "quick" else list(range(ja.LIM + 1))):
        for op in ("read", "write", "initializeOffsets", "bitSizeOf"):
            for const in (False, True):
                if const and (m != 7 and tier == "quick" or op in ("read", "write") and m != 7):
                    continue    # the element size enters through the size computation only
                for auto in (False, True):
                    for off in (False, True):
                        if auto != off and m not in ("one", 7) or const and (auto or off) and m != 7:
                            continue
                        for packed in ((True, False) if type(m) is int else (False,)):
                            cs.append(Case("%s-width-%s%s%s%s%s" % (op, m, "-const" if const else "", "-auto" if auto else "", "-offsets" if off else "",
                                                                    "-packed" if packed else ""), ja.make(op, m, const, auto, off, packed), limit_s=600))
    return cs


def search(seed, budget, hints):
    return h.search("JSearch", "J04", seed, budget, hints)
