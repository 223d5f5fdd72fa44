# Which harnesses and families decide which property.
ICDAR = ['-DTOOL="tools/Icdar17KwsEval.cc"']
SIMPLE = ['-DSIMPLE_TOOL', '-DTOOL="tools/SimpleKwsEval.cc"']
HARNESSES = {
    "matcher": {"src": "matcher.cc"},
    "eventset": {"src": "eventset.cc"},
    "geometry": {"src": "geometry.cc"},
    "values": {"src": "values.cc"},
    "assess": {"src": "assess.cc"},
    "meta_icdar": {"src": "e2e_meta.cc", "flags": ICDAR, "e2e": True},
    "meta_simple": {"src": "e2e_meta.cc", "flags": SIMPLE, "e2e": True},
    "reader_icdar": {"src": "reader.cc", "flags": ICDAR, "e2e": True},
    "reader_simple": {"src": "reader.cc", "flags": SIMPLE, "e2e": True},
    "faults_icdar": {"src": "faults.cc", "flags": ICDAR, "e2e": True},
    "faults_simple": {"src": "faults.cc", "flags": SIMPLE, "e2e": True},
    "cmd_icdar": {"src": "cmd.cc", "flags": ICDAR, "e2e": True},
    "cmd_simple": {"src": "cmd.cc", "flags": SIMPLE, "e2e": True},
    "mapper": {"src": "mapper.cc"},
    "boot_script": {"src": "boot_api.cc", "flags": ["-DSCRIPTED"]},
    "boot_real": {"src": "boot_api.cc"},
    "boot_icdar": {"src": "boot.cc", "flags": ICDAR, "e2e": True},
    "boot_simple": {"src": "boot.cc", "flags": SIMPLE, "e2e": True},
    "curves_icdar": {"src": "curves.cc", "flags": ICDAR, "e2e": True},
    "curves_simple": {"src": "curves.cc", "flags": SIMPLE, "e2e": True},
    "dump_icdar": {"src": "dump.cc", "flags": ICDAR, "e2e": True},
    "dump_simple": {"src": "dump.cc", "flags": SIMPLE, "e2e": True},
    "eval_icdar": {"src": "e2e_eval.cc", "flags": ICDAR, "e2e": True},
    "eval_simple": {"src": "e2e_eval.cc", "flags": SIMPLE, "e2e": True},
    "safe_icdar": {"src": "safe.cc", "flags": ICDAR, "e2e": True},
    "safe_simple": {"src": "safe.cc", "flags": SIMPLE, "e2e": True},
    "safe_icdar_san": {"src": "safe.cc", "flags": ICDAR, "e2e": True, "san": True},
    "safe_simple_san": {"src": "safe.cc", "flags": SIMPLE, "e2e": True, "san": True},
}
# The harnesses of the other properties, built with the sanitizers and the checked
# containers; only crashes, reports and executions without end count there.
for _n in ("matcher", "eventset", "geometry", "values", "assess", "mapper", "boot_real", "reader_icdar", "reader_simple", "cmd_icdar", "boot_icdar", "curves_icdar", "dump_icdar", "eval_icdar", "meta_icdar", "faults_icdar"):
    HARNESSES[_n + "_san"] = dict(HARNESSES[_n], san=True, safety=True)
PLAN = {
    "C01": {"runs": [("eval_icdar", "")]},
    "C02": {"runs": [("eval_simple", "")]},
    "C03": {"runs": [("matcher", "C03"), ("dump_icdar", "C03"), ("dump_simple", "C03")]},
    "C04": {"runs": [("matcher", "C04"), ("dump_icdar", "C04"), ("dump_simple", "C04")]},
    "C05": {"runs": [("eventset", "")]},
    "C06": {"runs": [("geometry", "C06")]},
    "C07": {"runs": [("geometry", "C07"), ("dump_icdar", "C07"), ("dump_simple", "C07")]},
    "C08": {"runs": [("values", "C08")]},
    "C09": {"runs": [("values", "C09")]},
    "C10": {"runs": [("assess", "C10")]},
    "C11": {"runs": [("assess", "C11")]},
    "C12": {"runs": [("assess", "C12")]},
    "C13": {"runs": [("assess", "C13")]},
    "C14": {"runs": [("assess", "C14")] + [("meta_icdar", "C14"), ("meta_simple", "C14")]},
    "C15": {"runs": [("meta_icdar", "C15"), ("meta_simple", "C15")]},
    "C16": {"runs": [("meta_icdar", "C16"), ("meta_simple", "C16")]},
    "C17": {"runs": [("reader_icdar", "C17"), ("reader_simple", "C17")]},
    "C18": {"runs": [("faults_icdar", "C18"), ("faults_simple", "C18")]},
    "C19": {"runs": [("faults_icdar", "C19"), ("faults_simple", "C19")]},
    "C20": {"runs": [("cmd_icdar", "C20"), ("cmd_simple", "C20")]},
    "C21": {"runs": [("cmd_icdar", "C21"), ("cmd_simple", "C21")]},
    "C22": {"runs": [("mapper", "C22")]},
    "C23": {"runs": [("boot_script", "C23"), ("boot_real", "C23"), ("boot_icdar", "C23"), ("boot_simple", "C23")]},
    "C24": {"runs": [("boot_icdar", "C24"), ("boot_simple", "C24")]},
    "C25": {"runs": [("curves_icdar", "C25"), ("curves_simple", "C25")]},
    "C26": {"runs": [("dump_icdar", "C26"), ("dump_simple", "C26")]},
    "C27": {"runs": [("cmd_icdar", "C27"), ("cmd_simple", "C27")]},
    "C28": {"runs": [("assess", "C28")] + [("meta_icdar", "C28"), ("meta_simple", "C28")]},
    "C29": {
        "runs": [("safe_icdar_san", ""), ("safe_simple_san", ""), ("safe_icdar", ""), ("safe_simple", ""),
                 ("geometry_san", "C06_all$,C06_large,C06_docs,C07_edge,C07_thin,C07_moved"),
                 ("eventset_san", "box_watched$,box_search_op,box_places,box_many,box_crowd,box_lines,box_copies,box_names,plain_"),
                 ("values_san", "C08_sort,C09_ops3,C09_errors"),
                 ("mapper_san", "C22_names,C22_long_names,C22_partition,C22_identity,C22_events$"),
                 ("matcher_san", "C03_close,C03_plain,C03_reuse,C03_scaled"),
                 ("assess_san", "C10_matches,C10_long,C11_long,C11_curves,C12_long,C12_huge,C13_near"),
                 ("boot_real_san", "C23_percentile$,C23_seeds$,C23_interval")],
        "budget": 420,
        "thorough_runs": [("values_san", "C09_ops$"), ("reader_icdar_san", "C17_lines,C17_words,C17_long,C17_fields"), ("reader_simple_san", "C17_words,C17_mapped"), ("cmd_icdar_san", "C20_odd,C20_spelling,C20_many,C27_texts,C27_types"), ("curves_icdar_san", "C25_sample$,C25_tool_groups"), ("boot_icdar_san", "C24_groups"), ("meta_icdar_san", "C15_names,C15_words")]},
}
