"""Keys, salts and signatures drawn in long sessions."""
from .util import *
CODES = ["A", "J", "Q"]
def sessions(r, n):
    for i in range(n):
        yield {"op": "fr.open", "new": True}
        steps = []
        # enough of every kind to see every bit
        for c in CODES:
            for w, k in (("here", 40), ("threads", 15), ("processes", 15)):
                steps.append({"op": "fr.draw", "what": "signer", "code": [T(c)] if c != "A" or r.random() < .5 else [], "tr": r.choice([[], [True], [False]]),
                              "via": r.choice(["core", "core", "wasm"]), "where": w, "n": N(k)})
        for w, k in (("here", 60), ("threads", 20), ("processes", 20)):
            steps.append({"op": "fr.draw", "what": "salter", "code": [], "tr": [], "via": r.choice(["core", "core", "wasm"]), "where": w, "n": N(k)})
        for _ in range(12):
            c = r.choice(CODES)
            seed = r.choice([bytes([7] * 32), bytes(range(1, 33)), r.randbytes(31) + b"\1"])
            msgs = [r.choice([b"", b"a", b"abc", r.randbytes(64), r.randbytes(200)]) for _ in range(r.randrange(1, 5))]
            if c == "J" or c == "Q": seed = b"\1" + seed[1:]
            steps.append({"op": "fr.sign", "what": r.choice(["plain", "indexed"]), "code": [T(c)], "tr": r.choice([[True], [False]]), "via": r.choice(["core", "wasm"]),
                          "where": r.choice(["here", "threads", "processes"]), "n": N(r.randrange(1, 4)), "seed": L(seed), "msgs": [L(m) for m in msgs]})
        r.shuffle(steps)
        yield from steps
        yield {"op": "fr.end"}
