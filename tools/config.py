from meta import P, H
HARNESS = H
PROPS = {k: v["check"] for k, v in P.items() if v["check"]["harness"]}
