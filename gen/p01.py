"""P01: sharing on assignment, independence of scalars, isolation of deep copies."""
import heapgen


def run():
    c = heapgen.run("P01", "share", heapgen.mix(assign=25, newvar=10, clear=8, erase=8, set=12, append=8), 3, 2, 3500, 60000)
    return c.finish()
