"""C14 Fractional seconds are exact and zero padded."""
from .common import *
TU = ["client", "time"]
KIND = {"frac_ms": (3, 10 ** 6), "frac_us": (6, 1000), "frac_ns": (9, 1), "frac_nd": (9, 1)}
LO, HI = -(1 << 63), (1 << 63) - 1

def tp(I, n): return I.cell(Lib("tp", n=n, per=1), None, "ts")
def t_frac(fn):
    digits, unit = KIND[fn]
    def run(x, I):
        n = x.int("ts", LO, HI, True)
        r = I.call_q("client::" + fn, [tp(I, n)])
        v = x.divmod(x.divmod(n, 10 ** 9)[1], unit)[0]      # the elapsed part of the current second (Euclidean), truncated
        x.covers.add("before 1970" if x.branch(n < 0) else "after 1970")
        for k in range(1, digits + 1):
            if k == digits or x.branch(Z(v) < 10 ** k): break
        d = x.decimal(v)
        for p in x.norm(d).p:
            if isinstance(p, Atom): x.declen(p)
        x.covers.add("%d digits" % k)
        x.prove(EQ(x.slen(r), digits), "the fraction has exactly %d digits" % digits)
        x.prove(x.seq(r, Str("0" * (digits - k)) + d), "the fraction is the elapsed part of the current second with leading zeros")
    return run
def t_seconds(x, I):
    """the seconds next to the fraction are those of the same instant"""
    fmt = x.str("format", NONUL, inp=True)
    I.contracts["g3::internal::localtime_formatted_fractions"] = lambda I2, f, this, args: x.ufstr("substituted", chars=NONUL)
    for i in range(2):              # twice: an earlier call does not matter
        n = x.int("ts%d" % i, LO, HI, True); k = len(x.events)
        I.call_q("g3::localtime_formatted", [tp(I, n), I.cell(fmt)])
        ev = [e for e in x.events[k:] if e["kind"] == "strftime"]
        x.prove(len(ev) == 1, "the time is formatted once")
        for e in ev:
            x.prove(e["tm"][0] == "localtime", "local time is shown")
            x.prove(EQ(e["tm"][1], fold(Z(n) / 10 ** 9)), "the seconds shown are those of the second the fraction is a part of")
def tasks():
    R = [Task("to_string " + k, t_frac(k), tus=TU, fns=["g3::internal::to_string"], covers=["before 1970", "after 1970"] + ["%d digits" % d for d in range(1, KIND[k][0] + 1)], budget=300) for k in KIND]
    return R + [Task("localtime_formatted", t_seconds, tus=TU, fns=["g3::localtime_formatted", "g3::localtime", "g3::put_time"])]
ASSUME = ["std::chrono::system_clock counts nanoseconds (libstdc++)", "localtime_r succeeds for the instant (years beyond the range of int are out of scope)"]
