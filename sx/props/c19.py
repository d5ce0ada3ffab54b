import pylayer

HARNESS = None
TECHNIQUE = "symbolic execution of the Python modules of the tree (own executor: proxy values over exact rationals, z3 decides branches and assertions, asyncio and time in symbolic virtual time); counterexamples are replayed concretely on the same modules"
EXPLANATION = (
    "RPSPolicer of the tree is executed with a symbolic rate (any positive, zero or negative rational, any int) and symbolic request times: its constructor must refuse what is not "
    "positive or has an interval below a nanosecond, the interval must be 1/rps rounded up to nanoseconds, and for every interval of 1 ns .. 100000 s, every start of the clock and all "
    "idle gaps 0 .. 2^60 ns no request is delayed by more than an interval and any k + 1 consecutive releases span more than k - 1 intervals. wait() and wait_sync() run in virtual time "
    "(time.sleep, perf_counter_ns and the event loop of asyncio are stand-ins whose clock is symbolic), and so do the requests of both clients, where the times of the requests "
    "themselves, as the socket sees them, are checked: every get, get_many, walk step, bulk refill and refresh is policed."
)
OUTSIDE = [
    "histories of more than 5 (quick) or 7 (thorough) consecutive requests",
    "rounding of floating-point arithmetic is not modelled: symbolic numbers are exact rationals (concrete twins and replays use real floats); sleeps are taken as exact",
    "delays are of whole nanoseconds: up to 1 ns over 1/rps is accepted",
    "session-level limit_rps of 0 or None (no limit), custom policers, clocks which go back, concurrent requests",
]
ASSUMPTIONS = ["the extension _fast is a stand-in which answers at once (its part is decided by the other properties)", "time passes in sleeps and in the symbolic gaps between the calls only"]


def BOUNDS(tier):
    return {"requests": 5 if tier == "quick" else 7, "interval_ns": "1 .. 10^14", "clock_ns": "0 .. 2^62", "gap_ns": "0 .. 2^60", "rates": "n/d, |n| <= 10^18, 1 <= d <= 10^15", "session_requests": 3 if tier == "quick" else 4}


python_layer = pylayer.layer("C19")
