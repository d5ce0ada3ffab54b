from sxlib import Job

HARNESS = ["c09", "c11"]
EXPLANATION = (
    "Symbolic execution of sending and receiving with keys, engine id, ids, salts, boots, time, padding and values as solver variables; "
    "DES and AES are uninterpreted families of permutations, so another key, IV, chaining, order or range of octets gives other solver "
    "terms. msgData of each request is decrypted by an independent CBC / CFB-128 over the transmitted salt, boots and time and compared "
    "field by field with the request; replies are encrypted by an independent implementation and the delivered value compared."
)
OUTSIDE = "DES and AES themselves; passwords (C12 relates them to keys); context engine ids other than the session's in replies."
ASSUMPTIONS = ["des and aes compute DES and AES-128 (replaced by uninterpreted permutations); the cbc, cfb-mode and cipher crates are the real ones"]
H = ["none", "Report", "longer request and reply", "unusable replies", "oversized request", "probe", "key change", "another session"]


def BOUNDS(tier):
    th = tier != "quick"
    return {"operations": "get, get_many, getnext, getbulk, refresh", "security": "MD5, SHA-1 x DES, AES, master and localized keys", "engine id": "5..32 octets", "requests": "1..%d OIDs" % (60 if th else 20), "values": "0..%d octets" % (300 if th else 200), "history": ", ".join(H)}


def jobs(tier):
    th = tier != "quick"
    j = []
    for n, (auth, priv) in enumerate([(1, 1), (1, 2), (2, 1), (2, 2)]):
        name = "%d%d" % (auth, priv)
        for op in range(5):
            for e in range(5, 33) if (op == n or th) else (5, 8 + op, 13 + op):
                j.append(Job("h_c11_request", [auth, priv, op, 2 - e % 2, e, 0, 2], must_reach=[1], label="%s op %d: request, engine id %d" % (name, op, e)))
            for h in range(1, 8):
                for k in (1, 2):
                    if (k + h + op + n) % 2 and not th:
                        continue
                    j.append(Job("h_c11_request", [auth, priv, op, k, 9, h, 2], must_reach=[1], label="%s op %d: request, %s key, after %s" % (name, op, ["", "master", "localized"][k], H[h])))
                if op < 4 and (th or (op + h + n) % 2):
                    j.append(Job("h_c11_reply", [auth, priv, op, 1 + h % 2, 9, h, 5 + h, 3], must_reach=[1], label="%s op %d: reply, after %s" % (name, op, H[h])))
        for k in (1, 3, 4, 5, 6, 7, 8, 9, 20) + ((60,) if th else ()):
            j.append(Job("h_c11_request", [auth, priv, 1, 2, 9, 0, k], must_reach=[1], label="%s: request of %d OIDs" % (name, k)))
        sizes = list(range(0, 34)) + [60, 61, 62, 63, 64, 100, 126, 127, 128, 129, 200] + ([255, 256, 257, 300] if th else [])
        for i, z in enumerate(sizes):
            for op in range(4) if th else (i % 4,):
                j.append(Job("h_c11_reply", [auth, priv, op, 1 + i % 2, 9, 0, z, i], must_reach=[1], label="%s op %d: reply, value of %d" % (name, op, z)))
        if priv == 2:
            for p in range(16):
                j.append(Job("h_c11_reply", [auth, priv, p % 4, 2, 9, 0, 4, p], must_reach=[1], label="%s: reply, padding of %d" % (name, p)))
    return j
