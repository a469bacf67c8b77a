"""Which simulated scenarios decide which property, and how much of them."""
TIERS = {
    # runs: simulated runs per check; cap: wall seconds before workers stop early;
    # mult: halves of the budget below;
    # gate: every n-th run is replayed from its recorded decisions and compared; min: seconds to minimise
    "quick": {"runs": 120000, "cap": 150, "gate": 100, "min": 20, "mult": 3},
    "thorough": {"runs": 6000000, "cap": 780, "gate": 1000, "min": 60},
    # for surveys with tools/mutate.py: a tenth of quick, without minimisation
    "mut": {"runs": 120000, "cap": 60, "gate": 1000, "min": 0, "of": "quick", "scale": 10},
}
P, N, A = "plain", "ndebug", "asan"
CHECKS = {
    "C01": {"plan": [("quota", P, 2), ("quota", N, 3)], "budget": {"quick": 8000000, "thorough": 200000000}},
    "C02": {"plan": [("lifo", P, 2), ("lifo", N, 2)], "budget": {"quick": 800000}},
    "C03": {"plan": [("arena", P, 2), ("arena", N, 2)], "budget": {"quick": 200000}},
    "C04": {"plan": [("arena", P, 2), ("arena", N, 2)], "budget": {"quick": 200000}},
    "C06": {"plan": [("lessor", P, 1), ("lessor", N, 1)], "budget": {"quick": 5000000, "thorough": 100000000}},
    "C07": {"plan": [("scache", P, 1), ("scache", N, 1)]},
    "C08": {"plan": [("scache", P, 1), ("scache", N, 1)]},
    "C09": {"plan": [("pool", P, 1), ("pool", N, 1)], "budget": {"quick": 250000}},
    "C10": {"plan": [("pool", P, 1), ("pool", N, 1)], "budget": {"quick": 250000}},
    "C11": {"plan": [("small", P, 1), ("small", N, 1)], "budget": {"quick": 60000}},
    "C12": {"plan": [("small", P, 1), ("small", N, 1)], "budget": {"quick": 60000}},
    "C13": {"plan": [("region", P, 1), ("region", N, 1)]},
    "C14": {"plan": [("lsregion", P, 1), ("lsregion", N, 1)], "budget": {"quick": 700000}},
    "C15": {"plan": [("lsregion", P, 1), ("lsregion", N, 1)], "budget": {"quick": 700000}},
    "C16": {"plan": [("ibuf", P, 1), ("ibuf", N, 1)], "budget": {"quick": 90000}},
    "C17": {"plan": [("obuf", P, 1), ("obuf", N, 1)], "budget": {"quick": 35000}},
    "C18": {"plan": [("obuf", P, 1), ("obuf", N, 1)], "budget": {"quick": 35000}},
    "C19": {"plan": [("matras", P, 1), ("matras", N, 1)], "budget": {"quick": 700000}},
    "C20": {"plan": [("matras", P, 1), ("matras", N, 1)], "budget": {"quick": 700000}},
    "C21": {"plan": [("matras", P, 1), ("matras", N, 1)], "budget": {"quick": 700000}},
    "C22": {"plan": [("static", P, 1), ("static", N, 1)]},
    "C23": {"plan": [("system", P, 1), ("system", N, 1)]},
    "C24": {"plan": [("system", A, 2), ("obuf", A, 1), ("ibuf", A, 1), ("lsregion", A, 1), ("scache", A, 1), ("pool", A, 1), ("small", A, 1), ("region", A, 1)]},
    "C05": {"plan": [("quota", N, 1), ("lifo", N, 1), ("arena", N, 2)], "budget": {"quick": 200000}},
    "C28": {"plan": [("feat", P, 1), ("feat", N, 1)], "budget": {"quick": 1000000, "thorough": 40000000}},
}
NA = {
    "C25": "Pure in-memory data structure macros driven by one caller: no threads, time, I/O, allocation or fault for the property to depend on; a simulator would only be a random-input test of a pure function.",
    "C26": "Pure pointer manipulation by one caller: no schedule, fault, time or I/O can influence the outcome.",
    "C27": "A pure arithmetic function of its inputs: nothing for a scheduler or fault injector to decide. What depends on it in histories (objects never smaller than requested) is decided under C11.",
}
