REGISTRY = {}
for fam, pids in {
    "curve": "C01 C02 C03 C04 C05 C06 C07 C08",
    "surface": "S01 S02 S03 S04 S05 S06 S07",
    "memview": "M01 M02",
    "spatial": "T01 V01 A01",
    "bezier": "N05 N06",
    "meet": "G03",
    "step": "E01",
    "cross": "I01 I02 I03",
    "algebra": "Q01 N01 N02 N03 N04 R01 L01",
    "geom": "H01 H02 P01 G01 G02 G04 X01 X02 X03",
}.items():
    for p in pids.split():
        REGISTRY[p] = fam
NOT_APPLICABLE = {}
