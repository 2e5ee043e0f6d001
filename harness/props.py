# Budget (seconds of search) and variants for each property
PROPS = {
    "T01": {"quick": 20, "thorough": 240},
    "T02": {"quick": 20, "thorough": 180},
    "M01": {"quick": 20, "thorough": 240},
    "M02": {"quick": 15, "thorough": 180},
    "M03": {"quick": 12, "thorough": 120},
    "Q01": {"quick": 30, "thorough": 240},
    "Q02": {"quick": 20, "thorough": 240},
    "Q04": {"quick": 15, "thorough": 180},
    "Q05": {"quick": 20, "thorough": 180},
    "S01": {"quick": 20, "thorough": 180},
    "S02": {"quick": 15, "thorough": 180},
    "C01": {"quick": 12, "thorough": 120},
    "C02": {"quick": 10, "thorough": 120},
    "D09": {"quick": 15, "thorough": 120},
    "D01": {"quick": 45, "thorough": 300},
    "D03": {"quick": 30, "thorough": 240},
    "D02": {"quick": 35, "thorough": 240},
    "D04": {"quick": 30, "thorough": 240},
    "D05": {"quick": 45, "thorough": 300},
    "D06": {"quick": 45, "thorough": 300},
    "D07": {"quick": 35, "thorough": 300},
    "D08": {"quick": 35, "thorough": 300},
    "F02": {"quick": 45, "thorough": 300},
    "F03": {"quick": 50, "thorough": 400},
    "F01": {"quick": 45, "thorough": 300},
    "C03": {"quick": 20, "thorough": 240},
    "C04": {"quick": 25, "thorough": 240},
    "C05": {"quick": 12, "thorough": 180},
    "D10": {"quick": 25, "thorough": 240},
}
