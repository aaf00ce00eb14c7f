"""chunk_it partitions its sequence."""
from symx.drive import Job

BOUNDS = "sequence lengths 0..9, 1..10 chunks, list / tuple / array inputs"


def scn(w):
    u = w.mod("utils")
    n = w.cfg["n"]
    num = w.choice("num", range(1, 12))
    kind = w.cfg["kind"]
    vals = [w.real(f"v{i}", -8, 8) for i in range(n)]
    if kind == "list":
        seq = list(vals)
    elif kind == "tuple":
        seq = tuple(vals)
    else:
        seq = w.np.array(vals) if n else w.np.zeros((0,))
    out = w.run("chunk_it returns", lambda: u.chunk_it(seq, num))
    w.check("no more chunks than requested", len(out) <= num)
    w.check("no chunk is empty", all(len(c) > 0 for c in out))
    if out:
        sizes = [len(c) for c in out]
        w.check("chunks are balanced", max(sizes) - min(sizes) <= 1)
    for c in out:
        k = len(c)
        w.check("pieces of the sequence, in its order", w.any(
            [w.all([c[j] == vals[i + j] for j in range(k)])
             for i in range(n - k + 1)]))
    flat = [x for c in out for x in c]
    w.check("nothing lost or duplicated", len(flat) == n)
    # every element occurs as often as in the input
    for i in range(n):
        a = sum(w.ite(v == vals[i], 1, 0) for v in vals)
        b = sum(w.ite(v == vals[i], 1, 0) for v in flat)
        w.check("same elements", a == b)


def jobs(tier):
    return [Job(f"chunk_{k}", scn, {"n": n, "kind": k}, max_paths=600)
            for k in ("list", "array") for n in ((0, 1, 2, 3, 5) if
            tier == "quick" else range(10))]
