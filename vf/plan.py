"""Per property: the batteries of histories and the models that decide it."""
from . import batteries as B
from . import models as M

ASSUME = ["TLC evaluates the specification correctly",
          "the executor in harness/ reports what the library returned (it computes no expectation)"]

# (name, generator, number of histories quick, thorough)
PLAN = {
    "C01": {"batteries": [("walk", B.walk, 2500, 20000), ("touch", B.touch, 300, 4000)]},
    "C02": {"batteries": [("touch", B.touch, 2500, 20000)]},
    "C03": {"batteries": [("damaged", B.damaged, 1500, 20000), ("every_cut", B.every_cut, 900, 20000),
                          ("junk", B.junk, 300, 4000)]},
    "C04": {"batteries": [("pixels", B.pixels, 2500, 20000), ("big_pixels", B.big_pixels, 300, 3000)]},
    "C05": {"batteries": [("randaccess", B.randaccess, 2500, 20000)]},
    "C06": {"batteries": [("records", B.records, 4000, 30000)]},
    "C07": {"batteries": [("chains", B.chains, 4000, 30000)]},
    "C08": {"batteries": [("lookups", B.lookups, 4000, 30000)]},
    "C09": {"batteries": [("cells", B.cells, 2500, 20000), ("big_tables", B.big_tables(("rows", "repeat", "columns")), 200, 2000)]},
    "C10": {"batteries": [("vla", B.vla, 2500, 20000), ("big_arrays", B.big_tables(("heap",)), 160, 1600)]},
    "C11": {"batteries": [("selseek", B.selseek, 3000, 30000), ("big_tables", B.big_tables(("rows", "rows", "columns", "repeat")), 200, 2000)]},
    "C12": {"batteries": [("tiles_geometry", B.tiles_geometry, 900, 8000), ("tiles_gzip", B.tiles_gzip, 1500, 15000), ("tiles_big", B.tiles_big, 32, 240)]},
    "C13": {"batteries": [("tiles_rice", B.tiles_rice, 1500, 15000), ("tiles_long", B.tiles_long, 16, 160)]},
    "C14": {"batteries": [("tiles_float", B.tiles_float, 1200, 12000), ("tiles_wrap", B.tiles_wrap, 48, 400)]},
    "C15": {"batteries": [("arrivals", B.arrivals, 2500, 20000), ("arrivals_damaged", B.arrivals_damaged, 1500, 20000), ("arrivals_big", B.arrivals_big, 150, 1500)]},
    "C16": {"batteries": [("gzipped", B.gzipped, 2000, 20000), ("gz_damaged", B.gz_damaged, 1500, 20000), ("gz_big", B.gz_big, 60, 600)]},
    "C17": {"batteries": [("shown", B.shown, 2500, 20000)]},
    "C18": {"batteries": [("reports", B.reports, 3000, 30000)]},
    "C19": {"batteries": [("accept", B.accept, 3000, 30000)]},
    "C20": {"batteries": [("all_readers", B.all_readers, 2000, 20000)]},
    "C21": {"batteries": [("columns", B.columns, 3000, 30000), ("big_tables", B.big_tables(("columns", "repeat")), 100, 1000)]},
}

# (module of the specification, how its behaviours become cases, most of them replayed quick, thorough)
MODELS = {
    "C01": [("MC_Walk", M.walk, 1500, 60000)],
    "C02": [("MC_Walk", M.walk, 2500, 60000)],
    "C03": [("MC_Walk", M.walk, 2500, 60000), ("MC_Text", M.structural, 1500, 60000)],
    "C04": [("MC_Image", M.image, 2000, 60000)],
    "C05": [("MC_Image", M.image, 2000, 60000)],
    "C06": [("MC_Text", M.batched(M.text_fields), 4000, 100000), ("MC_Number", M.batched(M.number_fields), 5000, 300000)],
    "C07": [("MC_Continue", M.chain, 2000, 60000)],
    "C08": [("MC_Number", M.batched(M.number_fields), 5000, 300000), ("MC_Continue", M.chain, 1000, 60000)],
    "C09": [("MC_Cursor", M.cursor, 3000, 60000)],
    "C10": [("MC_Vla", M.vla, 1700, 60000)],
    "C11": [("MC_Cursor", M.cursor, 6000, 60000)],
    "C12": [("MC_Tiling", M.tiling, 2400, 60000)],
    "C13": [("MC_Rice", M.rice, 2500, 60000)],
    "C14": [("MC_Dither", M.dither, 2500, 60000)],
    "C15": [("MC_Async", M.arrival, 4000, 60000)],
    "C16": [("MC_Walk", M.walk_gz, 1500, 30000)],
    "C17": [("MC_Tiling", M.tiling_shown, 2400, 30000)],
    "C18": [("MC_Walk", M.walk_cli, 3000, 30000)],
    "C19": [("MC_Accept", M.accept, 8000, 200000), ("MC_Number", M.structural, 2000, 60000), ("MC_Text", M.structural, 1200, 60000)],
    "C20": [("MC_Walk", M.walk, 2500, 60000)],
    "C21": [("MC_Columns", M.columns, 2928, 60000)],
}

NOT_YET = {}
