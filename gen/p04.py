"""P04: lists as sequences, maps as ordered dictionaries."""
import heapgen
import p07


def run():
    c = heapgen.run("P04", "elems", heapgen.mix(set=16, append=12, get=8, getdef=6, contains=8, erase=16, size=8, empty=6, index=8, merge=8, clear=5),
                    3, 1, 3500, 60000, ops=["ops_heap", "ops_num"])
    c.validate("into", "TraceNum", [x for x in p07.into_cases(c.rng("into"), c.n(400, 3000)) if not x["path"]])
    return c.finish()
