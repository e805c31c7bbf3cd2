"""Concretisation of Stream behaviours shared by C01 and C02."""
TIMES = ["0", "0.1", "0.30000000000000004", "1e-300", "123456.789012345", "98765432109876.5", "1e22", "-1.5", "0.333333333333333",
         "2.2250738585072014e-308", "1048576.000001", "7", "1e-5", "99999.9999999999"]
STEPS = [0, 1, 2, 7, 4294967295, 4294967296, 4294967301, 1099511627776, 9007199254740993, 18446744073709551615]
SIZES = [1, 1, 2, 3, 5, 64, 255, 341, 342, 682, 683, 684, 1000, 1366]
BOXES = [1, 2, 100, 65536, 1000003, 20000000]

def distinct(behs, n, rng, drop=1):
    seen, out = set(), []
    for b in behs:
        k = str(b[:-drop])
        if k not in seen:
            seen.add(k)
            out.append(b)
    rng.shuffle(out)
    return out[:n]

def conc_limit(l, n, rng):
    if l == 0:
        return rng.choice([0, -1])
    if l == 1:
        return rng.choice([1, 7, 8])
    f = 48 * n
    return {5: f - 1, 6: f, 7: f + 1, 12: 2 * f, 30: 5 * f - rng.randrange(3)}[l]
