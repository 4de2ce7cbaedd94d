"""What each check explores. "rule" says when two runs count as distinct and
what makes one count at all; "nt" is the harness-side condition."""
_FAULTS = ("a run counts when at least one planned fault (failed allocation, throwing comparison, projection, move or swap, "
           "shortened buffer) actually fired in library code; runs with the same event log count once")
_RUN = "runs with the same event log count once; a run counts when "


def P(rule, quick=16, thorough=1200, **k):
    d = {"rule": rule, "quick": quick, "thorough": thorough, "subjects": ["*"], "builds": {"thorough": ["clang"]}}
    d.update(k)
    return d


PROPS = {
    "C01": P(_RUN + "at least one allocation made by the library was refused"),
    "C02": P(_RUN + "at least one allocation made by the library was refused"),
    "C03": P(_RUN + "a comparison, projection, move or swap threw in the middle of a library call"),
    "C04": P(_FAULTS),
    "C05": P(_FAULTS, builds={"quick": ["clang"], "thorough": ["clang"]}),
    "C06": P(_FAULTS),
    "C07": P(_FAULTS, subjects=["s_indirect*", "x_pointers*", "x_probes*", "x_misc*", "x_proxy2*", "x_state3*"]),
    "C08": P(_FAULTS, subjects=["x_lists*", "x_state3*"]),
    "C09": P(_RUN + "at least one allocation made by the library was refused"),
    "C10": P(_RUN + "the two environments it was replayed in really differed (addresses, leftover memory, entropy or clock)"),
    "C11": P(_RUN + "the scheduler switched away from at least one unfinished caller", min_runs=100),
    "C12": P(_RUN + "an earlier call of the history failed or was starved of memory", min_runs=100),
    "C13": P(_RUN + "the simulated clock jumped or stalled during the measured call", subjects=["x_metrics*"]),
    "C14": P(_FAULTS, subjects=["x_metrics*"]),
    "C15": P(_FAULTS, subjects=["x_probes*"]),
    "C16": P(_RUN + "the input was built by the adversary or an allocation was refused"),
    "C17": P(_RUN + "the buffer granted was smaller than asked for or a fault fired", subjects=["s_grail*", "s_wiki*", "x_buffers*", "x_pointers*", "x_proxy1*", "x_state0*", "x_state2*"]),
    "C18": P(_FAULTS, builds={"quick": ["asan"], "thorough": ["asan", "clang"]}),
    "C19": P(_FAULTS, subjects=["s_schwartz*"]),
    "C20": P(_RUN + "a fault fired or the input was built by the adversary"),
    "C21": P(_FAULTS, subjects=["x_proxy*"]),
    "C22": P(_RUN + "the global locale changed, an allocation was refused, or a projection or a facet threw during the sort", subjects=["x_cmp*"]),
    "C23": P(_RUN + "an allocation was refused or a projection threw during the sort", subjects=["x_radix*", "x_ints*", "x_types*"]),
    "C24": P(_RUN + "the library had to do without at least one allocation"),
    "C26": P(_RUN + "the adapted sorter, a callback or an allocation failed", subjects=["x_adapt*"],
             stubbed="the adapted sorter (user code that the simulator writes), operator new/delete (simulated heap), element type, comparator, projection, iterators: simulator side of the seams"),
    "C27": P(_RUN + "a comparison, a projection, a move or an allocation failed", subjects=["x_net*", "x_fixed*"],
             assumptions=["a sequence of compare-exchanges that is the same on every input is judged by random sequences of zeros and ones, 64 at once"]),
    "C28": P(_FAULTS, subjects=["x_align*"]),
    "C25": P(_RUN + "the input was built by the adversary or an allocation was refused", subjects=["x_probes*"]),
}
