"""Which harness binaries decide which property, with how many cases."""
SOURCES = {
    "h_model": {"src": ["h_model.cxx"]},
    "h_time": {"src": ["h_time.cxx"]},
    "h_scan": {"src": ["h_scan.cxx"]},
    "h_cmp": {"src": ["h_cmp.cxx"]},
    "h_num": {"src": ["h_num.cxx"]},
    "h_bytes": {"src": ["h_bytes.cxx"]},
    "h_legacy": {"src": ["h_legacy.cxx"]},
    "h_schema": {"src": ["h_schema.cxx"]},
    "h_managed": {"src": ["h_managed.cxx"]},
    "h_misc": {"src": ["h_misc.cxx"]},
    "h_token": {"src": ["h_token.cxx"] + [f"h_token_{u}.cxx" for u in ("s1", "s2", "n1", "n2", "l1", "l2", "c1", "c2")],
                "flags": "-O0"},
    "h_print": {"src": ["h_print.cxx", "h_print_alt.cxx"], "lib": False},
    "h_bits": {"src": ["h_bits.cxx", "h_bits_alt.cxx"], "lib": False},
}


def run(bin, harness, quick, thorough=None, variant="rel", **kw):
    d = dict(bin=bin, harness=harness, quick=quick, variant=variant, **kw)
    if thorough:
        d["thorough"] = thorough
    return d


PLAN = {
    "C01": [
        run("h_model", "map_model", 1500000),
        run("h_model", "map_model", 150000, variant="asan"),
    ],
    "C02": [
        run("h_model", "round_trip", 1500000),
        run("h_model", "round_trip", 150000, variant="asan"),
    ],
    "C03": [
        run("h_model", "accounting", 1500000),
        run("h_model", "accounting", 150000, variant="asan"),
    ],
    "C04": [
        run("h_model", "refusals", 1500000),
        run("h_model", "refusals", 150000, variant="asan"),
    ],
    "C05": [
        run("h_bytes", "hostile", 1500000),
        run("h_bytes", "hostile", 300000, variant="asan"),
        run("h_bytes", "verdict", 300000, variant="asan"),
    ],
    "C06": [
        run("h_bytes", "verdict", 3000000),
        run("h_bytes", "verdict", 200000, variant="asan"),
    ],
    "C07": [
        run("h_model", "nulls", 1500000),
        run("h_model", "nulls", 150000, variant="asan"),
    ],
    "C08": [
        run("h_num", "numbers", 200000),
        run("h_num", "numbers", 25000, variant="asan"),
    ],
    "C09": [
        run("h_scan", "scan_random", 2000000),
        run("h_scan", "scan_sweep", 290, enumerated="index lengths 0..289, every position of the match, placements against page borders"),
        run("h_scan", "scan_random", 500000, variant="clang"),
    ],
    "C10": [
        run("h_schema", "dictionary", 300000, 20000000),
        run("h_schema", "imports", 300000, 20000000),
        run("h_schema", "opaque", 200000, 10000000),
        run("h_schema", "limits", 400, 20000),
        run("h_schema", "imports", 20000, 1000000, variant="asan"),
        run("h_schema", "opaque", 20000, 1000000, variant="asan"),
    ],
    "C11": [
        run("h_model", "iteration", 800000),
        run("h_model", "iteration", 80000, variant="asan"),
    ],
    "C12": [
        run("h_model", "growing", 300000),
        run("h_model", "growing_limits", 10000),
        run("h_model", "growing", 15000, variant="asan"),
        run("h_model", "growing_limits", 150, variant="asan"),
    ],
    "C13": [
        run("h_legacy", "c_api", 600000, 20000000),
        run("h_legacy", "c_api", 60000, 2000000, variant="asan"),
        run("h_legacy", "c_readers", 1000000, 20000000),
        run("h_legacy", "c_readers", 150000, 2000000, variant="asan"),
    ],
    "C14": [
        run("h_time", "time_convert", 3000000),
        run("h_time", "time_days", 49711, enumerated="every day of 1970..2106"),
        run("h_time", "time_now", 300000),
        run("h_time", "time_convert", 300000, variant="asan"),
    ],
    "C15": [
        run("h_print", "int_random", 400000),
        run("h_print", "int_random", 100000, variant="asan"),
        run("h_print", "int_sweep32", 4096, enumerated="all 2^32 32-bit values, signed and unsigned"),
    ],
    "C16": [
        run("h_print", "double_print", 60000),
        run("h_print", "double_print", 10000, variant="asan"),
        run("h_print", "double_print", 20000, variant="clang"),
        run("h_print", "double_quality", 3000, 20000),
    ],
    "C17": [
        run("h_bits", "bits", 300000),
        run("h_bits", "bits", 60000, variant="asan"),
        run("h_bits", "bits", 200000, variant="clang"),
        run("h_bits", "bits_sweep", 256, enumerated="structured operand blocks"),
        run("h_bits", "arena", 200000, variant="asan"),
        run("h_bits", "arena", 300000),
    ],
    "C18": [
        run("h_managed", "handles", 400000, 20000000),
        run("h_managed", "handles", 60000, 2000000, variant="asan"),
        run("h_managed", "by_default", 500000, 20000000),
        run("h_managed", "by_default", 60000, 2000000, variant="asan"),
        run("h_managed", "threads", 1500, 60000),
        run("h_managed", "threads", 300, 10000, variant="asan"),
    ],
    "C19": [
        run("h_cmp", "cmp_binary", 2000000),
        run("h_cmp", "cmp_fields", 1000000),
        run("h_cmp", "cmp_binary", 400000, variant="asan"),
        run("h_cmp", "cmp_fields", 200000, variant="asan"),
    ],
    "C20": [
        run("h_token", "attributes", 400000, 20000000),
        run("h_token", "layout", 1, 1, enumerated="every member of the sample structures"),
        run("h_token", "static_tokens", 15000, 1000000),
        run("h_token", "static_tokens", 1500, 60000, variant="asan"),
        run("h_token", "attributes", 30000, 1000000, variant="asan"),
    ],
    "C21": [
        run("h_misc", "views", 1500000, 60000000),
        run("h_misc", "ranges", 1500000, 60000000),
        run("h_misc", "guards", 1500000, 100000000),
        run("h_misc", "text", 400000, 10000000),
        run("h_misc", "views", 100000, 2000000, variant="asan"),
        run("h_misc", "ranges", 100000, 2000000, variant="asan"),
        run("h_misc", "text", 50000, 1000000, variant="asan"),
    ],
    "C22": [
        run("h_managed", "twins", 800000, 40000000),
        run("h_managed", "twins", 60000, 3000000, variant="asan"),
    ],
}
