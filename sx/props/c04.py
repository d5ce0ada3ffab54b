from sxlib import Job

HARNESS = ["c04"]
EXPLANATION = (
    "Symbolic execution of the receive loop with request-id and msgID of the outstanding request as solver variables. Datagrams "
    "whose version, community, request-id, msgID, user name or engine id are solver variables precede the matching reply: the solver "
    "decides that the foreign one is delivered only if all fields equal those seen on the wire, else the later one is. Histories of up "
    "to 4 requests with every order, loss and duplication of their replies; replies cut at every octet; messages of every other version."
)
OUTSIDE = "Reports: request-id and content are not judged (they may answer a message whose PDU the agent could not read); non-response PDUs with matching ids."


def BOUNDS(tier):
    th = tier != "quick"
    return {"requests in a row": "1..%d" % (4 if th else 3), "datagrams before the outcome": "1..%d" % (4 if th else 3), "foreign datagrams in a row": "0..%d" % (20 if th else 8), "fields": "community 0..12 octets, request-id and msgID 1..8 octets, user 0..8 octets, engine id 0..12 octets"}


def jobs(tier):
    th = tier != "quick"
    j = []
    cfgs = [(0, 0), (1, 0), (3, 0), (3, 10), (3, 20), (3, 11), (3, 12), (3, 21), (3, 22)]
    for ver, sec in cfgs:
        name = "v%d %02d" % (ver + 1 if ver < 3 else 3, sec)
        crypt = sec % 10 != 0
        for op in (0, 1, 2, 3):
            if ver == 0 and op == 3:
                continue
            fields = [(0, 0)] + [(2, n) for n in (1, 2, 3, 4, 5, 8)]
            if ver < 3:
                fields += [(1, n) for n in (0, 1, 5, 6, 7, 12)] + [(7, 6)]
            else:
                fields += [(3, n) for n in (1, 3, 4, 5, 8)] + [(4, n) for n in (0, 3, 4, 5, 8)] + [(5, n) for n in (0, 5, 8, 9, 10, 12)] + [(8, 0)]
            for k, (f, n) in enumerate(fields):
                if crypt and not th and ((op + k) % 4 or f == 8):
                    continue
                can = {0: True, 1: n == 6, 2: n in (4, 5, 8), 3: n in (4, 5, 8), 4: n == 4, 5: n == 9, 7: True, 8: True}[f]
                w = ([1, 3] if f == 0 else [1, 2] if can else [2])
                j.append(Job("h_c04_forged", [ver, sec, op, f, n, 0], must_reach=w, label="%s op %d: %s, size %d" % (name, op, {0: "version", 1: "community", 2: "request-id", 3: "msgID", 4: "user", 5: "engine id", 7: "community and request-id", 8: "all ids"}[f], n)))
                if ver == 3 and f in (3, 4, 5):
                    j.append(Job("h_c04_forged", [ver, sec, op, f, n, 1], must_reach=[2] + ([4] if can else []), label="%s op %d: Report, %s, size %d" % (name, op, {3: "msgID", 4: "user", 5: "engine id"}[f], n)))
            for k in (1, 2, 3, 4):
                if k > 3 and not th or crypt and k > 2 and not (th and k == 3):
                    continue
                for m in (1, 2, 3) + ((4,) if th else ()):
                    if crypt and m > 1 and not th:
                        continue
                    for mode in (0, 1, 2):
                        if k == 1 and mode or crypt and mode == 0 and not th:
                            continue
                        if crypt and k > 1 and not th and op != (sec + mode) % 4:
                            continue
                        j.append(Job("h_c04_history", [ver, sec, op, k, m, mode], must_reach=[1] + ([2] if k > 1 else []), label="%s op %d: %d requests %s, %d datagrams" % (name, op, k, ["unread", "answered", "timed out"][mode], m)))
            j.append(Job("h_c04_cut", [ver, sec, op], must_reach=[1], label="%s op %d: cut" % (name, op)))
            for o in (0, 1, 2, 3, 127):
                if o != ver:
                    j.append(Job("h_c04_other", [ver, sec, op, o], must_reach=[1], label="%s op %d: message of version %d" % (name, op, o)))
        for k in (0, 1, 3, 20 if th and not crypt else 8 if not crypt else 4):
            j.append(Job("h_c04_flood", [ver, sec, k, k % 3], must_reach=[1], label="%s: %d foreign datagrams, then the reply" % (name, k)))
    return j
