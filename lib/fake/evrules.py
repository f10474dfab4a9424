"""Rules for the EarthVision data source: values reveal the arguments they were called with."""


def get_rules(faultblock, zone):
    k = {"": 0.0, "Bay": 1000.0, "East Bay": 2000.0}[faultblock] + {"": 0.0, "Upper zone": 100.0, "Lower": 200.0}[zone]
    if not zone:
        return lambda x, y, depth: (int(k), depth)   # the program has to cope with integers
    return lambda x, y, depth: (k + x + y / 4.0, depth)
