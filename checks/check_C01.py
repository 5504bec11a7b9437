import gens
def run(c): gens.run(c, ["bms"])
