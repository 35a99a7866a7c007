"""Harnesses and properties known to check.py."""
HARNESSES = {
    "mod": {"sources": [("mod.cc", ["-DVP_DIM=%d" % d]) for d in (1, 2, 3)] + [("mod.cc", ["-DVP_MAIN"])],
            "libs": ["src/baf"]},
    "eval": {"sources": [("eval.cc", ["-DVP_DIM=%d" % d]) for d in (1, 2, 3, 4)] + [("eval.cc", ["-DVP_MAIN"])],
             "libs": ["src/baf"]},
    "io": {"sources": [("io.cc", [])], "libs": ["src/baf", "src/io", "src/io/executables", "pugixml"],
           "programs": ["src/io/executables"]},
    "tools": {"sources": [("tools.cc", [])], "libs": ["src/baf", "src/spl"]},
    "iga": {"sources": [("iga.cc", [])], "libs": ["src/baf", "src/io", "pugixml"], "link": ["-larmadillo"]},
    "conc": {"sources": [("conc.cc", [])], "libs": ["src/baf", "src/io", "pugixml"], "san": "tsan", "link": ["-lpthread"]},
}
PROPS = {
    "C01": {"parts": [{"harness": "eval", "cases": (1600, 40000)}]},
    "C02": {"parts": [{"harness": "eval", "cases": (4800, 120000)}]},
    "C03": {"parts": [{"harness": "eval", "cases": (480, 5000)}]},
    "C04": {"parts": [{"harness": "eval", "cases": (12000, 400000)}]},
    "C10": {"parts": [{"harness": "eval", "cases": (6400, 120000)}]},
    "C11": {"parts": [{"harness": "eval", "cases": (560, 6000)}]},
    "C05": {"parts": [{"harness": "mod", "cases": (7200, 120000)}]},
    "C06": {"parts": [{"harness": "mod", "cases": (9600, 180000)}]},
    "C07": {"parts": [{"harness": "mod", "cases": (6400, 120000)}]},
    "C08": {"parts": [{"harness": "mod", "cases": (9600, 200000)}]},
    "C09": {"parts": [{"harness": "mod", "cases": (3200, 50000)}]},
    "C14": {"parts": [{"harness": "io", "cases": (6400, 120000)}]},
    "C15": {"parts": [{"harness": "io", "cases": (8000, 160000)}]},
    "C16": {"parts": [{"harness": "io", "cases": (8000, 160000)}]},
    "C17": {"parts": [{"harness": "io", "cases": (4800, 80000)}]},
    "C18": {"parts": [{"harness": "io", "cases": (3600, 50000)}]},
    "C19": {"parts": [{"harness": "io", "cases": (36000, 600000)}]},
    "C13": {"parts": [{"harness": "conc", "cases": (120, 1500), "shards": 4}]},
    "C20": {"parts": [{"harness": "tools", "cases": (3200, 30000)}]},
    "C21": {"parts": [{"harness": "tools", "cases": (9600, 180000)}]},
    "C22": {"parts": [{"harness": "tools", "cases": (16000, 400000)}]},
    "C23": {"parts": [{"harness": "tools", "cases": (120000, 4000000)}]},
    "C24": {"parts": [{"harness": "tools", "cases": (120000, 4000000)}]},
    "C25": {"parts": [{"harness": "tools", "cases": (200000, 6000000)}]},
    "C26": {"parts": [{"harness": "iga", "cases": (600, 6000)}]},
    "C12": {"parts": [{"harness": "mod", "cases": (6400, 120000)}]},
}
