import pylayer
from sxlib import Job

HARNESS = ["c09", "c12"]
EXPLANATION = (
    "Symbolic execution of get_master_key, get_localized_key, session creation and set_keys with every octet of password, key and engine id "
    "a solver variable; MD5 and SHA-1 are uninterpreted functions of the whole hashed message, so the stretched password (1 MiB) and the "
    "localization input must be exactly those of RFC 3414 A.2. The keys a session uses are judged by the MAC and ciphertext of its first "
    "message. Sizes 0..64 and all unknown algorithm codes must raise."
)
OUTSIDE = "Password sizes not listed; MD5 and SHA-1 themselves; algorithm 0 given to get_master_key."
ASSUMPTIONS = ["md-5 and sha1 compute MD5 and SHA-1 (replaced by uninterpreted functions)"]


def sizes(th):
    return [1, 2, 3, 5, 7, 8, 10, 13, 16, 17, 20, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1500] + ([4, 6, 9, 11, 12, 14, 15, 18, 19, 21, 24, 40, 48, 50, 72, 80, 90, 96, 99, 120, 200, 300, 333, 500, 512, 2048, 4096, 5000, 65535, 65536, 100000, 1048575, 1048576, 1048577] if th else [])


def BOUNDS(tier):
    th = tier != "quick"
    return {"passwords": "sizes " + ", ".join(map(str, sorted(sizes(th)))), "engine ids": "0..%d octets" % (64 if th else 32), "keys": "0..64 octets", "algorithm codes": "all 256", "sessions": "MD5, SHA-1 x none, DES, AES x key kinds password, master, localized of each key; at creation and by set_keys"}


def jobs(tier):
    th = tier != "quick"
    j = []
    L = {"max_steps": 4000000000}
    for n in sizes(th):
        for alg in (1, 2):
            if n < 7 and alg == 2 and not th:
                continue
            j.append(Job("h_c12_master", [alg, n], must_reach=[1], label="master key, algorithm %d, password of %d" % (alg, n), **L))
    for alg in (1, 2):
        for e in range(0, 65 if th else 33):
            j.append(Job("h_c12_localized", [alg, e], must_reach=[1], label="localized key, algorithm %d, engine id of %d" % (alg, e)))
    i = 0
    for alg in (1, 2):
        for p in (0, 1, 2):
            for ka in (0, 1, 2):
                for kp in (0, 1, 2) if p else (0,):
                    for how in (0, 1):
                        i += 1
                        if ka and kp or not p and ka:
                            ns, es = [10], [0, 5, 9, 32] + ([12, 17, 20] if th else [])
                        else:
                            ns, es = [(10, 33, 100, 64)[i % 4]] if not th else [10, 33, 64, 100], [(9, 5, 17)[i % 3]]
                        for n in ns:
                            for e in es:
                                j.append(Job("h_c12_session", [alg, p, ka, kp, n, e, how], must_reach=[1], label="session %d%d, key kinds %d %d, password of %d, engine id of %d, %s" % (alg, p, ka, kp, n, e, ["created", "set_keys"][how]), **L))
    for alg in (1, 2):
        ok = 16 if alg == 1 else 20
        for n in range(65):
            j.append(Job("h_c12_function", [alg, n], must_reach=[1], label="functions, algorithm %d, %d octets" % (alg, n)))
            for kind in (0, 1, 2, 3):
                if kind == 0 and n or kind in (1, 2) and n == ok:
                    continue
                for which, p in ((0, 0), (0, 1), (1, 1), (1, 2)):
                    how = (n + kind + which + p) % 2
                    for h in (0, 1) if th else (how,):
                        j.append(Job("h_c12_size", [alg, p, kind, n, which, h], must_reach=[1], label="key of kind %d and %d octets, algorithms %d %d, %s, %s" % (kind, n, alg, p, ["auth", "privacy"][which], ["created", "set_keys"][h])))
    for place in range(6):
        for n in (0, 8, 16, 20):
            j.append(Job("h_c12_unknown", [place, n], must_reach=[1], label="unknown algorithm, place %d, %d octets" % (place, n)))
    return j


python_layer = pylayer.layer("C12")
