"""What each check runs: workloads, amounts, and how cases are counted."""


def part(w, n, procs, thorough_procs, exe="vt", thorough_n=None, **kw):
    p = {"w": w, "n": n, "procs": procs, "exe": exe, **kw}
    t = {"procs": thorough_procs, "timeout": 900}
    if thorough_n:
        t["n"] = thorough_n
    p["thorough"] = t
    return p


VIRTUAL = "Time is virtual (Go's faketime runtime): it advances only when every goroutine waits."
UNIT = "The simulated unit and the reference codecs in harness/ref and harness/sim state the documented protocol."

PLANS = {
    "C01": {
        "parts": [part("c01", 1, 8, 8, arg="enum", shards=8), part("c01", 3000, 24, 400)],
        "min": 5000, "assumptions": [UNIT],
        "rule": "a packet (command, payload) marshalled and/or read back under a split of the stream; distinct by command class, payload delimiter pattern, length and split mode",
    },
    "C02": {
        "parts": [part("c02", 1, 16, 16, arg="enum", shards=16), part("c02", 3000, 32, 800)],
        "min": 5000, "assumptions": [UNIT],
        "rule": "one query answered with a mutated reply; distinct by request kind, mutation kind and position",
    },
    "C03": {
        "parts": [part("c03", 1, 8, 8, arg="enum", shards=8), part("c03", 4000, 24, 400)],
        "min": 5000, "assumptions": [UNIT],
        "rule": "one decoded or refused payload; distinct by kind, length and value pattern",
    },
    "C04": {
        "parts": [part("c04", 1, 8, 8, arg="enum", shards=8), part("c04", 2000, 24, 400)],
        "min": 5000, "assumptions": [UNIT],
        "rule": "one setter call; distinct by setter, arguments and outcome",
    },
    "C05": {
        "parts": [part("c05", 300, 32, 800), part("c05", 6000, 4, 40, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "a history of concurrent calls on one connection; distinct by the order of requests on the line",
    },
    "C06": {
        "parts": [part("c06", 1, 8, 8, arg="enum", shards=8), part("c06", 2000, 32, 800)],
        "min": 2000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one call against a reply plan; distinct by call, connection kind and plan",
    },
    "C07": {
        "parts": [part("c07", 5, 1, 8, exe="e2e", daemon="daemon", timeout=300, thorough_n=20), part("c07", 300, 32, 800), part("c07", 4000, 4, 40, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "a burst of faults followed by health; distinct by the sequence of faults",
    },
    "C08": {
        "parts": [part("c08", 400, 32, 800), part("c08", 8000, 4, 40, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "a concurrent history checked for linearizability; distinct by the order of commands at the unit",
    },
    "C09": {
        "parts": [part("c09", 60, 320, 6000), part("c09", 600, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "an API reading compared with the unit's log of readings; distinct by kind and position in the log",
    },
    "C10": {
        "parts": [part("c10", 6000, 2, 8, arg="long", timeout=300, thorough_n=12000), part("c10", 360, 80, 1200)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "an API reading judged for age, or a period judged for query counts; distinct by kind, state and fault phase",
    },
    "C11": {
        "parts": [part("c11", 80, 320, 6000), part("c11", 800, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one SetFanSpeed call; distinct by arguments, mode before, fault and outcome",
    },
    "C12": {
        "parts": [part("c12", 80, 320, 6000), part("c12", 800, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one SetComfortTemp call; distinct by argument, temperature before, fault and outcome",
    },
    "C13": {
        "parts": [part("c13", 80, 320, 6000), part("c13", 800, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one SetFanProfile call; distinct by arguments, profile before, fault and outcome",
    },
    "C14": {
        "parts": [part("c14", 20, 480, 8000), part("c14", 300, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one FlushCache call; distinct by cache, encoding, faults and outcome",
    },
    "C15": {
        "race": True, "workers": 10,
        "parts": [part("c15", 14, 6, 48, exe="race", thorough_n=40, args=["lib", "srv"], timeout=200),
                  part("c15d", 15, 1, 4, exe="e2e", daemon="racedaemon", timeout=300, thorough_n=120),
                  part("c20", 8, 1, 4, exe="e2e", daemon="racedaemon", timeout=300),
                  part("c18", 8, 1, 4, exe="e2e", daemon="racedaemon", timeout=300, arg="contract")],
        "min": 500, "assumptions": ["The race detector sees synchronisation through the Go runtime only; slow tickers are sped up by an overlay of time.NewTicker."],
        "rule": "an operation executed under the race detector; distinct by operation and phase",
    },
    "C16": {
        "parts": [part("c16", 120, 160, 3000), part("c16", 1200, 8, 80, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "one API call judged for an answer in bounded time; distinct by call, unit fault and waiting time",
    },
    "C17": {
        "parts": [part("c17", 40, 240, 4000), part("c17", 600, 6, 60, timeout=300)],
        "min": 1000, "assumptions": [UNIT, VIRTUAL],
        "rule": "a concurrent history of set and get calls checked for linearizability; distinct by calls and results",
    },
    "C18": {
        "parts": [part("c18", 24, 1, 20, exe="e2e", daemon="daemon", timeout=300)],
        "min": 200, "assumptions": [UNIT],
        "rule": "one HTTP request to the built daemon; distinct by method, encoding, arguments, state and status",
    },
    "C19": {
        "parts": [part("c19", 300, 4, 60, exe="e2e", daemon="daemon", timeout=300)],
        "min": 500, "assumptions": ["The twirp and protobuf runtimes are not installed; harness/py/stubs stands in for them."],
        "rule": "one call of the Python client; distinct by method, variant, arguments and answer",
    },
    "C20": {
        "parts": [part("c20", 48, 1, 20, exe="e2e", daemon="daemon", timeout=400)],
        "min": 50, "assumptions": [UNIT],
        "rule": "one start of the built daemon or one session with it; distinct by settings, fault and mode",
    },
    "C21": {
        "parts": [part("c21", 400, 48, 1200), part("c21", 6000, 4, 40, timeout=300)],
        "min": 1000, "assumptions": [VIRTUAL],
        "rule": "one call through a generated client; distinct by method, encoding, options, outcome and intermediary",
    },
    "C22": {
        "parts": [part("c22", 8, 2, 16, exe="e2e", daemon="daemon", timeout=400, args=["heap", "daemon"], thorough_n=30), part("c22", 30, 64, 1200)],
        "min": 300, "assumptions": [UNIT, VIRTUAL, "Live heap is read after forced collections; residues below the margin are not judged."],
        "rule": "a quiet time after a round of load; distinct by the kinds of load and faults before it",
    },
}
