"""P03: references and lazy elements."""
import heapgen


def run():
    c = heapgen.run("P03", "refs", heapgen.mix(at=18, ref=8, rebind=8, atpath=8, read=10, exists=8, newvar=6, erase=10, drop=2), 2, 4, 4000, 60000)
    return c.finish()
