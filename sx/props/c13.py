import pylayer
from sxlib import Job

HARNESS = ["c09", "c12", "c13"]
L = {"max_steps": 4000000000}
MESS = ["none", "another msgID", "another request-id", "another user", "another engine id", "wrong MAC", "unauthenticated"]


def jobs(tier):
    th = tier != "quick"
    j = []

    def add(sec, ka, kp, n, given, op, mess, nb, nt, user):
        auth, priv = sec
        m = "".join(", exchange %d: %s%s" % (i + 1, MESS[x % 10], ", no answer" if x >= 10 else "") for i, x in enumerate(mess) if x)
        label = "%d%d kinds %d %d, engine id of %d %s, op %d, boots %d time %d, user of %d%s" % (auth, priv, ka, kp, n, "given" if given else "learned", op, nb, nt, user, m)
        j.append(Job("h_c13", [auth, priv, ka, kp, n, given, op, mess[0] + 100 * mess[1] + 10000 * mess[2], nb, nt, user], must_reach=[1] if given else [1, 2], label=label, **L))

    secs = [(0, 0), (1, 0), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)]
    i = 0
    for sec in secs:
        kinds = [(a, p) for a in (0, 1, 2) for p in (0, 1, 2) if (sec[0] or not a) and (sec[1] or not p)]
        for ka, kp in kinds:
            for given in (0, 1):
                for op in range(4) if th else [i % 4]:
                    add(sec, ka, kp, (9, 5, 17, 12)[i % 4], given, op, (0, 0, 0), 1 + i % 4, 1 + (i + i // 4) % 4, (4, 1, 8)[i % 3])
                i += 1
    for n in range(1 if th else 5, 65 if th else 33):
        sec = secs[n % 7]
        add(sec, 2 - n % 2 if sec[0] else 0, n % 2 + 1 if sec[1] else 0, n, 0, n % 4, (0, 0, 0), 4, 4, 4)
    for nb in range(1, 5):
        for nt in range(1, 5):
            add(secs[(nb * 4 + nt) % 7], 2, 2, 9, nt % 2, nb % 4, (0, 0, 0), nb, nt, 4)
    for n, sec in enumerate(secs):
        for given in (0, 1):
            for k in range(1, 7):
                for sk in (0, 10):
                    if k > 4 and not sec[0]:
                        continue
                    for e in range(3):
                        if given and e == 0 or e == 0 and k >= 4:
                            continue
                        if not th and (n + k + e + sk // 10 + given) % 3:
                            continue
                        m = [0, 0, 0]
                        m[e] = k + sk
                        add(sec, 2, 2, 9, given, (k + e) % 4, tuple(m), 4, 4, 4)
            add(sec, 2, 2, 9, given, n % 4, (0 if given else 10, 10, 10), 4, 4, 4)
    for u in (0, 1, 16, 31, 32) if not th else range(0, 33):
        add(secs[3 + u % 4], 2, 1, 9, u % 2, u % 4, (0, 0, 0), 2, 3, u)
    return j


EXPLANATION = (
    "Symbolic execution of whole sessions: (discovery, set_keys,) refresh, request, request, with engine ids, boots, times, keys, user names, "
    "ids and intruding messages as solver variables; digests and ciphers are uninterpreted. Each message sent is read by an independent "
    "decoder: engine id, boots, time, user and flags must be those of the latest accepted message, the MAC and the cipher those of keys "
    "localized to the learned engine id by an independent RFC 3414 A.2. Messages which must be skipped carry another engine id and clock, "
    "which must leave no trace."
)
OUTSIDE = "An agent which reports an empty engine id; boots and times above 2^31-1; more than four exchanges."
ASSUMPTIONS = ["md-5, sha1, des and aes compute what they are named for (replaced by uninterpreted functions)"]


def BOUNDS(tier):
    th = tier != "quick"
    return {"security": "noauth, MD5, SHA-1 x none, DES, AES x key kinds password (9 octets), master, localized of each key", "engine id": "%s octets, given or learned" % ("1..64" if th else "5..32"), "boots, time": "0..2^31-1", "user": "0..32 octets", "exchanges": "discovery, refresh, two requests; a forged message (msgID, request-id, user, engine id, MAC, level) or silence in each", "operations": "get, get_many, getnext, getbulk, refresh"}


python_layer = pylayer.layer("C13")
