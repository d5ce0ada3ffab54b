from sxlib import Job

HARNESS = ["c10"]
EXPLANATION = (
    "Symbolic execution of the receive path with keys, ids, all 8 flag bits and the authentication parameters as solver variables. A "
    "forged datagram precedes the authentic reply: the solver decides that it is delivered (value, error, iterator position, clock) only "
    "if the auth flag is set, the parameters equal the HMAC-96 an independent computation gives for the datagram, and the payload is "
    "encrypted when privacy is configured. Authentic replies with an arbitrary change of any one octet; runs of forged datagrams."
)
OUTSIDE = "Reports (may be accepted without authentication; their content is never delivered as a response); changes of more than one octet other than those of flags and parameters; MD5 and SHA-1 themselves."
ASSUMPTIONS = ["md-5, sha1, des and aes compute MD5, SHA-1, DES and AES (replaced by uninterpreted functions; the block ciphers are permutations)"]


def BOUNDS(tier):
    th = tier != "quick"
    return {"operations": "get, get_many, getnext, getbulk, refresh", "security": "MD5, SHA-1 x none, DES, AES", "authentication parameters": "0, 1, 11, 12, 13 octets of any content" if th else "0, 11, 12, 13 octets of any content", "history": "none; key change; authentic and unauthenticated Report; answered request", "forged datagrams in a row": "1..%d" % (12 if th else 8)}


def jobs(tier):
    th = tier != "quick"
    j = []
    for auth in (1, 2):
        for priv in (0, 1, 2):
            name = "%d%d" % (auth, priv)
            for op in range(5):
                for kind in (0, 1, 2):
                    for enc in (0, 1) if priv else (0,):
                        for n in (12, 0, 11, 13) + ((1,) if th else ()):
                            if n != 12 and (kind == 1 or enc) and not th:
                                continue
                            for h in range(5) if n == 12 and kind == 0 and enc == (priv > 0) else (0,):
                                if h and priv and not th and (h + op + auth) % 3:
                                    continue
                                can = n == 12 and enc == (priv > 0)
                                w = [2, 3] if kind == 1 and (n == 12 or True) else ([1] if can and not (op == 4) else []) + [3]
                                j.append(Job("h_c10_forged", [auth, priv, op, kind, enc, n, h], must_reach=w if kind != 1 else [2], label="%s op %d: %s, %s, parameters of %d, history %d" % (name, op, ["Response", "Report", "error"][kind], ["in clear", "encrypted"][enc], n, h)))
                if op < 4 and (th or priv == 0 or op == (auth + priv) % 4):
                    parts = 4
                    for p in range(parts):
                        j.append(Job("h_c10_tampered", [auth, priv, op, p, parts], must_reach=[1], label="%s op %d: one octet changed, part %d" % (name, op, p)))
                if op < 4:
                    for k in (1, 4) + ((12,) if th else (8,) if priv == 0 else ()):
                        j.append(Job("h_c10_flood", [auth, priv, op, k], must_reach=[1], label="%s op %d: %d forged" % (name, op, k)))
    return j
