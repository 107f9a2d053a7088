INDEX = {}
for _m, _ids in {
    "spatial": "S01 S02 S03 S04 S05 S06 S07 S08 S09",
    "limiting": "L01 L02 L03 L04 L05 L06 N01 N02",
    "fluxes": "F01 F02 F03 F04 F05 F06 F07 F08 F09 F10",
    "setup": "I01 I02 I03 I04 I05",
    "basisenh": "B01 E01",
    "plots": "P01 P02",
    "analysis": "A01 A02",
    "timeint": "T01 T02 T03 T04 T05 T06 T07",
}.items():
    for _i in _ids.split():
        INDEX[_i] = _m
