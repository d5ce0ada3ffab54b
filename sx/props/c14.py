from sxlib import Job
from props.c11 import H

HARNESS = ["c09", "c11", "c14"]
EXPLANATION = (
    "Symbolic execution of sequences of messages with the initial counter (all 2^32 / 2^64 values, wrap-around included), keys, ids, boots "
    "and time as solver variables: each message's privacy parameters are 8 octets, for DES those of engine boots in the message and the "
    "counter, and the counter is the predecessor's plus one. As the counter of the first message is arbitrary, each pair of messages is an "
    "induction step for sequences of any length. The message is rebuilt from the fields read and compared octet by octet, and msgData "
    "decrypts to the scoped PDU, so nothing of it is anywhere else."
)
OUTSIDE = "Counters after a key change (drawn anew); more than 2^32 DES messages with the same boots; the cipher itself."
ASSUMPTIONS = ["des and aes compute DES and AES-128 (replaced by uninterpreted permutations)"]
W = ["nothing", "reply", "timeout", "Report with other boots and time", "oversized request", "undecryptable reply"]


def BOUNDS(tier):
    return {"messages": "%d in a row" % (4 if tier != "quick" else 3), "between two of them": ", ".join(W), "before": ", ".join(H), "operations": "all combinations by stride"}


def jobs(tier):
    th = tier != "quick"
    j = []
    for n, (auth, priv) in enumerate([(1, 1), (1, 2), (2, 1), (2, 2)]):
        for op in range(5):
            for w in range(6):
                for s in range(5) if th else ((op + w + n) % 5,):
                    j.append(Job("h_c14", [auth, priv, op, 1 + op % 2, 9 + w, 0, 4 if th else 3, s, w, 6 if th else (op + n) % 6], must_reach=[1], label="%d%d op %d, stride %d, then %s" % (auth, priv, op, s, W[w])))
        for h in range(1, 8):
            for op in range(5) if th else ((h + n) % 5,):
                j.append(Job("h_c14", [auth, priv, op, 2, 9, h, 2, 1, h % 6, 0], must_reach=[1], label="%d%d op %d, after %s" % (auth, priv, op, H[h])))
    return j
