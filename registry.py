"""What each check is made of: its harness, the tools it runs, and its bounds."""
ALL = ["spoc_compress", "spoc_decompress", "spoc_diff", "spoc_filter", "spoc_info", "spoc_merge", "spoc_srs", "spoc_tile", "spoc_tool", "spoc_transform"]
EXAMPLES = ["noop", "stream_averaging", "generate_infinite_points"]
CHECKS = {
    "C01": {"src": "C01.cpp"},
    "C02": {"src": "C02.cpp", "san_fraction": 0.1},
    "C03": {"src": "C03.cpp", "tools": ["spoc_compress", "spoc_decompress"]},
    "C04": {"src": "C04.cpp", "san_fraction": 0.05},
    "C05": {"src": "C05.cpp", "san_fraction": 0.1, "fuzz": ["bytes", "mutations"], "tools": ALL + EXAMPLES},
    "C06": {"src": "C06.cpp", "tools": ALL + EXAMPLES, "san_tools": [], "san_fraction": 0.15, "level": "fault_enumeration"},
    "C07": {"src": "C07.cpp", "san_fraction": 0.1},
    "C08": {"src": "C08.cpp", "san_fraction": 0.1},
    "C09": {"src": "C09.cpp", "tools": ["spoc_srs", "spoc_tool"], "san_tools": [], "san_fraction": 0.1},
    "C10": {"src": "C10.cpp"},
    "C11": {"src": "C11.cpp"},
    "C12": {"src": "C12.cpp"},
    "C13": {"src": "C13.cpp"},
    "C14": {"src": "C14.cpp", "tools": ["spoc_filter"], "san_fraction": 0.1, "app_headers": ["filter"]},
    "C15": {"src": "C15.cpp", "tools": ["spoc_filter"], "san_fraction": 0.1, "app_headers": ["filter"]},
    "C16": {"src": "C16.cpp", "san_fraction": 0.1},
    "C17": {"src": "C17.cpp", "san_fraction": 0.1},
    "C18": {"src": "C18.cpp", "app_headers": ["transform"]},
    "C19": {"src": "C19.cpp", "tools": ["spoc_transform"], "san_fraction": 0.1, "app_headers": ["transform"]},
    "C20": {"src": "C20.cpp"},
    "C21": {"src": "C21.cpp", "tools": ["spoc_filter"], "san_fraction": 0.1, "app_headers": ["filter"]},
    "C22": {"src": "C22.cpp", "tools": ["spoc_filter"], "san_tools": [], "san_fraction": 0.1},
    "C23": {"src": "C23.cpp", "tools": ["spoc_filter"], "san_fraction": 0.1, "app_headers": ["filter"]},
    "C24": {"src": "C24.cpp", "tools": ["spoc_transform"], "san_fraction": 0.1, "app_headers": ["transform"]},
    "C25": {"src": "C25.cpp", "tools": ["spoc_transform"], "san_fraction": 0.1, "app_headers": ["transform"]},
    "C26": {"src": "C26.cpp", "tools": ["spoc_transform"], "san_fraction": 0.1, "app_headers": ["transform"]},
    "C27": {"src": "C27.cpp", "tools": ["spoc_tool"], "san_fraction": 0.1, "app_headers": ["tool"]},
    "C28": {"src": "C28.cpp", "tools": ["spoc_tool"], "san_fraction": 0.1, "app_headers": ["tool"]},
    "C29": {"src": "C29.cpp", "tools": ["spoc_tool"], "san_fraction": 0.04, "app_headers": ["tool"]},
    "C30": {"src": "C30.cpp", "tools": ["spoc_tool"], "san_fraction": 0.1, "app_headers": ["tool"]},
    "C31": {"src": "C31.cpp", "tools": ["spoc_tile"], "san_tools": [], "san_fraction": 0.1, "app_headers": ["tile"]},
    "C32": {"src": "C32.cpp", "tools": ["spoc_tile"], "san_tools": [], "san_fraction": 0.1},
    "C33": {"src": "C33.cpp", "tools": ["spoc_merge", "spoc_tile"], "san_tools": [], "san_fraction": 0.1, "app_headers": ["merge"]},
    "C34": {"src": "C34.cpp", "tools": ["spoc_diff"], "san_tools": [], "san_fraction": 0.1, "app_headers": ["diff"]},
    "C37": {"src": "C37.cpp"},
    "C35": {"src": "C35.cpp", "tools": ["spoc_info"], "san_tools": [], "san_fraction": 0.1, "app_headers": ["info"]},
    "C36": {"src": "C36.cpp", "tools": ["spoc_srs"], "san_tools": [], "san_fraction": 0.1},
    "C39": {"src": "C39.cpp", "tools": ["spoc_tool"], "san_tools": []},
    "C40": {"src": "C40.cpp", "python": True, "variants": ["rel"]},
    "C42": {"src": "C42.cpp", "tools": ALL, "san_tools": [], "san_fraction": 0.04, "tsan_fraction": 0.04, "variants": ["rel", "san", "tsan"]},
    "C41": {"src": "C41.cpp", "tools": ["spoc_transform"] + EXAMPLES, "app_headers": ["transform"], "san_fraction": 0.05},
    "C43": {"src": "C43.cpp", "tools": ALL, "san_tools": [], "app_headers": ["transform"], "san_fraction": 0.02},
    "C44": {"src": "C44.cpp", "tools": ALL, "san_tools": [], "app_headers": ["transform"], "san_fraction": 0.02},
    "C45": {"src": "C45.cpp", "app_headers": ["transform", "diff", "filter", "info", "merge"], "variants": ["rel", "san", "tsan"], "san_fraction": 0.1, "tsan_fraction": 0.1},
    "C46": {"src": "C46.cpp"},
    "C47": {"src": "C47.cpp"},
    "C49": {"src": "C49.cpp", "app_headers": ["transform", "tool"]},
    "C50": {"src": "C50.cpp", "app_headers": ["transform", "diff", "filter", "info", "merge", "tile", "tool"]},
    "C48": {"src": "C48.cpp", "tools": ALL, "app_headers": ["transform", "diff", "filter", "info", "merge", "tile", "tool"], "variants": ["rel"]},
    "C51": {"src": "C51.cpp", "tools": ["spoc_filter", "spoc_tool", "spoc_tile"], "san_tools": [], "san_fraction": 0.05, "app_headers": ["tool", "tile"]},
    "C52": {"src": "C52.cpp", "tools": ALL + ["noop"], "init_tools": True, "preload": "surround", "app_headers": ["transform", "diff", "filter", "info", "merge"], "variants": ["rel"]},
    "C53": {"src": "C53.cpp", "sources": True, "variants": ["rel"]},
    "C38": {"src": "C38.cpp", "tools": ALL, "san_tools": [], "app_headers": ["transform"], "san_fraction": 0.03},
}
