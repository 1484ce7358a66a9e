"""scenario helpers"""


def maximal(scns, key):
    """drop scenarios that are a prefix of another one; `key` maps an operation to a hashable"""
    seqs = [tuple(key(o) for o in s) for s in scns]
    prefixes = set()
    for s in seqs:
        for i in range(len(s)):
            prefixes.add(s[:i])
    out, done = [], set()
    for s in seqs:
        if s not in prefixes and s not in done:
            done.add(s)
            out.append(s)
    return out


def pick(rng, xs, n):
    return list(xs) if len(xs) <= n else rng.sample(list(xs), n)
