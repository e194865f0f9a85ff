"""What each check is made of."""
CHECKS = {
    "C01": dict(sources=["C01.cpp"]),
    "C02": dict(sources=["C02.cpp"]),
    "C03": dict(sources=["C03.cpp"]),
    "C04": dict(sources=["C04.cpp"]),
    "C05": dict(sources=["C05.cpp"]),
    "C06": dict(sources=["C06.cpp"]),
    "C07": dict(sources=["C07.cpp"]),
    "C08": dict(sources=["C08.cpp"]),
    "C09": dict(sources=["C09.cpp"]),
    "C10": dict(sources=["C10.cpp"]),
    "C11": dict(sources=["C11.cpp"]),
    "C12": dict(sources=["C12.cpp"]),
    "C13": dict(sources=["C13.cpp"]),
    "C14": dict(sources=["C14.cpp"]),
    "C15": dict(sources=["C15.cpp", "C15b.cpp", "C15c.cpp"]),
    "C16": dict(sources=["C16.cpp"]),
    "C17": dict(sources=["C17.cpp"]),
    "C18": dict(sources=["C18.cpp"]),
    "C19": dict(sources=["C19.cpp"]),
    "C20": dict(sources=["C20.cpp"]),
    "C21": dict(sources=["C21.cpp"]),
    "C22": dict(sources=["C22.cpp"]),
    "C23": dict(sources=["C23.cpp"]),
    "C24": dict(sources=["C24.cpp"]),
    "C25": dict(sources=["C25.cpp", "C25v.cpp"] + ["C25/backend%d.cpp" % i for i in range(8)]),
    "C26": dict(sources=["C26.cpp"], single=["C26single.cpp"], repo_sources=["bindings/c/src/%s" % f for f in ("algorithm.c", "converter.cpp", "core.c", "spectral.c", "statistics.c", "windowing.c")]),
    "C27": dict(sources=["C27.cpp", "C27io.cpp", "C26.cpp", "C03.cpp", "C05.cpp", "C07.cpp", "C08.cpp", "C16.cpp", "C18.cpp"],
                repo_sources=["bindings/c/src/%s" % f for f in ("algorithm.c", "converter.cpp", "core.c", "spectral.c", "statistics.c", "windowing.c")]
                + ["bindings/python/src/%s.cpp" % f for f in ("package", "algorithm", "windowing", "statistics", "spectral", "converter", "core", "string", "oscillator", "auditory", "feature_temporal", "feature_spectral", "feature_statistics", "filter", "io")],
                flags=["-DVP_PYTHON", "-DMODULE_NAME=pedsp", "-I/usr/include/python3.12", "-I%s/bindings/python/include" % __import__("os").environ.get("VERIF_REPO", "/repo")],
                repo_flags=["-std=c++14"],
                libs=["-lboost_numpy312", "-lboost_python312", "-lpython3.12"]),
    "C28": dict(sources=["C28.cpp"]),
    "C29": dict(sources=["C29.cpp"]),
    "C30": dict(sources=["C30.cpp"]),
    "C31": dict(sources=["C31.cpp"]),
    "C32": dict(sources=["C32.cpp"]),
    "C34": dict(fallback=["-DVP_RANDOM_ACCESS_ONLY"], sources=["C34.cpp"] + ["C34/%s.cpp" % f for f in ("algorithms", "features", "filters", "statistics", "transforms")]),
    "C35": dict(sources=["C35.cpp"], oracle="generated histories of pools of objects against an object that replays the history of its own alone"),
    "C33": dict(sources=["C33.cpp"], attempts=40, san=["-fsanitize=thread"], repo_sources=["bindings/c/src/%s" % f for f in ("spectral.c", "statistics.c", "windowing.c")]),
}

# the deciding step of each, for MANIFEST.json
ORACLE = {
    "C01": "generated signals and destinations against the definition of each operation in long double",
    "C02": "generated sequences and values against a plain scan",
    "C03": "generated intervals and counts against evenly spaced points in long double",
    "C04": "generated values against the formulas, round trips and monotonicity",
    "C05": "generated frequencies against the formulas, round trips and monotonicity",
    "C06": "generated data against textbook definitions with forward error bounds, and metamorphic shift, scale and order laws",
    "C07": "generated frames and frame histories against the definitions, and exact scaling laws",
    "C08": "generated spectra against the formulas with conditioning-aware bounds, and scaling laws",
    "C09": "generated signals of every length against the defining sums, inverses and Parseval's theorem",
    "C10": "stateful histories of transforms over several engines, every call against the defining sum",
    "C11": "generated sequences against direct time-domain sums",
    "C12": "generated lengths and windows against closed formulas and symmetry",
    "C13": "stateful histories of biquads and cascades against the difference equation with propagated error bounds",
    "C14": "generated designs against the response of the analogue formulas and the laws of each type",
    "C15": "generated designs of every type and order against the response of the transformed analogue prototype",
    "C16": "stateful histories against a model holding the last W samples",
    "C17": "stateful histories against a bounded deque model, with counted element lifetimes",
    "C18": "stateful histories of samples and setters against the waveform at the accumulated time",
    "C19": "generated parameters, statistical tests of the drawn samples at error rates below 1e-9, scripted engines against exact models",
    "C20": "stateful histories and round trips through files, with libsndfile as the second reader and writer",
    "C21": "stateful histories of open/seek/read/close against a position model; mutated files against libsndfile",
    "C22": "generated signals against the continuous signal, block histories against one call",
    "C23": "generated tags and mutated files against TagLib used directly",
    "C24": "generated byte and wide strings against a byte-level model and round trips",
    "C25": "stateful environment histories against a map, captured logger output against a message model",
    "C26": "generated buffers through the C interface against long double references, in double and float builds",
    "C27": "Python embedded in the harness: generated arrays of any element type and layout against the same references, wrong arguments must raise, stateful histories of its classes",
    "C28": "generated samples and stateful gate histories against the curves and a stage model",
    "C29": "generated integers and reals against number theory and long double formulas",
    "C30": "stateful histories of the library's own types side by side with the standard library's, with counted element lifetimes",
    "C32": "generated containers, pointers, conditions and messages against the standard library's helpers and a message model",
    "C33": "generated programs of calls in several threads under a race detector, against the same calls one after another",
    "C34": "the same generated elements in lists, deques, strided and reversed ranges against arrays",
    "C31": "generated lists and orders of public headers compiled as units of their own and linked in pairs",
}
for _k, _v in ORACLE.items():
    CHECKS[_k].setdefault("oracle", _v)
