"""What each property's check runs."""
COMMON = [
    "LLVM bitcode of /repo's crate, its dependencies and std as produced by the installed rustc (opt-level 2, overflow checks on, panic=abort) is what is executed symbolically; counterexamples must reproduce in the release or dev build",
    "Z3 5.3, the LLVM C API and the executor in /verif/engine are trusted; sample paths are replayed natively on every run and must behave identically",
    "memory is a set of disjoint objects; allocation never fails; hash seeds and addresses are fixed",
]
RNG = "random draws are arbitrary values of their documented range (Bernoulli(p): either outcome possible with p in (0,1), forced at 0 and 1; uniform index; Cauchy: 0 or magnitude 2^-54..2^54), i.e. all RNG states are covered"
ENV = "the run is the real async_launch::launch future (controller, algorithm, channels), polled by hand; which evaluation ends next, how it ends (accepted with a symbolic value up to 1e300 in magnitude, rejected, failing, non-finite), whether evaluations honour the abort, and when a terminate command arrives are symbolic choices of the harness"
CONCRETE_RNG = "the algorithm's own random generator runs as shipped (StdRng seeded with 0, a boolean parameter): these properties do not depend on what the candidates are"
RUNB = "concurrency 1..3, budget N 0..%s, every completion order and outcome, sample size %s"
RUNOUT = "larger budgets and concurrency; wall-clock time (no clock is modelled); the real async executor's scheduling (the future is polled whenever it has been woken)"
OPTS = ["--max-instrs", "60000000", "--redirect", "tokio::macros::support::thread_rng_n=vh_sel"]
DEEP = ["--max-instrs", "3000000000"] + OPTS[2:]


LONG = "; plus the same monitors after 20 to 100 warm-up evaluations of fixed outcome (population phase: selection, re-evaluation, eviction), the last 2 to 4 evaluations symbolic"


def plain(entries, covers=("end",), **kw):
    """Entries that call the code directly."""
    return [dict({"entries": [e], "covers": list(covers), "secs": 120}, **kw) for e in entries]


def runs(entries, **kw):
    """Entries that drive a whole run."""
    return [dict({"entries": [e], "covers": c, "secs": 120, "opts": OPTS}, **kw) for e, c in entries]


def run_prop(entries, bounds, outside=RUNOUT, extra=(), thorough=(), more=(), first=()):
    return {"groups": list(first) + runs(entries) + list(more) + runs(thorough, tier="thorough"), "bounds": bounds, "outside": outside, "assumptions": COMMON + [ENV, CONCRETE_RNG] + list(extra)}


PROCOPTS = ["--max-instrs", "3000000000", "--redirect", "tokio::macros::support::thread_rng_n=vh_sel1"]
OS = "entries that start processes run the real sync_launch, tokio runtime, command-group, nix and std code over a model of the operating system in the executor (files, pipes, sockets, epoll, eventfd, pidfd, fork/exec, wait, kill and killpg, signals, threads, a clock): time passes only when every thread waits, one thread runs until it waits, children follow scripts (write, close, fork into their group, ignore SIGTERM, exit), which branch an unbiased select! polls first is chosen once per run; counterexamples must reproduce with real processes"
PROCB = "; with real processes: every pair of thirteen kinds of children (quick, slow, endless, forking with or without the pipes, ignoring SIGTERM, failing, dying from a signal, closing its output, null, nonsense, on target) at concurrency 1 and 2 under budget, target, time limit, interrupt, and time limit with two interrupts, with and without a time limit per evaluation (thorough: every triple, concurrency 2 and 3)"
PROCOUT = "; other scripts and schedules of child processes, finer interleavings of the runtime's helper threads"


def procs(entries, **kw):
    """Runs with child processes over the executor's operating-system model."""
    return [dict({"entries": [e], "covers": c, "secs": 120, "opts": PROCOPTS, "os": True}, **kw) for e, c in entries]


SYNC = "; with a plain function as objective, computed by the runtime's threads or its only thread: up to 3 evaluations at concurrency 1 and 2, arbitrary values, rejections, NaN, durations 0, 100 and 300 ms%s"


STREAK = "; every pattern of outcomes of %s evaluations at concurrency 2, 3 and 6 ended oldest first, newest first, with the oldest held back, or alternately; every order of %s evaluations; every pattern of %s evaluations in the population phase with samples of 2 and 3 under the same four orders; runs with no budget or one of 2^64-1, four events, concurrency 1 and 2"


def streak(p, *more):
    return [{"entries": ["vh_%s_%s" % (p, e) for e in ("streak", "orders", "streak_sample", "unbounded") + more], "covers": ["run:end"], "secs": 200, "opts": OPTS}]


def sync(p, *c):
    return procs([("vh_%s_sync" % p, list(c) + ["end"])])


CHILDREN = "; with real processes: every pattern of five results (one of them a timeout) of 3 evaluations after 0 or 2 others, concurrency 1, 2, 3 and 6, three patterns of durations"
CHILDREN2 = "; the same at sample size 2 after 24 others, concurrency 1 and 3"
AGAIN = "; up to three terminate requests at any point, also while the run is already stopping"


def children(p, *c2):
    return procs([("vh_%s_children" % p, ["report", "end"])] + ([("vh_%s_children2" % p, list(c2))] if c2 else []))


# numbers are printed as "0" while the values stay symbolic
VALUES = [{"entries": ["vh_c14_values"], "covers": ["best", "counts"], "secs": 120, "os": True, "opts": PROCOPTS + ["--redirect", "core::fmt::float::Display::fmt=vh_fmt"]}]


def triple(p, c):
    return procs([("vh_%s_triple" % p, c)], tier="thorough", secs=600)


PROPS = {
    "C17": {
        "groups": plain(["vh_c17_" + x for x in "select select_leaf select_population live_any live_map live_deep live_many varies_real varies_int varies_nested mix".split()])
        + [dict(g, secs=700, opts=DEEP) for g in
           runs([("vh_c17_battery_orders", ["sphere2", "choice"]), ("vh_c17_battery_long", ["sphere2", "choice"])])
           + runs([("vh_c17_battery_orders_many", ["sphere2", "choice"])], tier="thorough")],
        "bounds": "selection: every pressure in [0,1] as a real, lists of 1..10 (and 2..6 leaf parents through recombination, a population of 3 with arbitrary values through the algorithm): the outcomes of the draws are enumerated inside the run, their probabilities summed as polynomials in the pressure and compared by Z3 over the reals; liveness: every discrete kind at every position of specs of depth <= 4 with mutation probability 1, every outcome of the draws; numbers: one step of at least one scale up or down (each has probability 1/4) changes the number, |x| <= 1e12 for reals, 2^15 for integers, scale 1 and 1e6, bounds within 2^15; recombination at crossover probability 1 of two parents differing in two parts is mixed with probability >= 1/1000 for every pressure up to 0.9, for six shapes, nested or not; battery: seven problems with the shipped generator at concurrency 1 and 4, the completion order symbolic at two (thorough: four) points of the run, 300 to 600 evaluations, and 1000 evaluations in three fixed orders",
        "outside": "the battery's runs are concrete apart from the completion order (their improvement factors - 1000, 20, 4, or the optimum - are this check's choice); other problems; the Cauchy distribution itself (its quartiles are taken as known)",
        "assumptions": COMMON + [RNG, "index draws are uniform and Bernoulli(p) is true with probability p, independently"],
    },
    "C09": {
        "groups": [dict(g, opts=DEEP, repeat=30) for g in runs([("vh_c09_" + x, ["end"]) for x in "small stopped sampled long long_kinds evict guess in_turn".split()])
                   + runs([("vh_c09_" + x, ["end"]) for x in "sampled_more long_more".split()], tier="thorough")],
        "bounds": "self-composition: two runs over separately built inputs in different surroundings (hash seeds and all other random bytes of the system, clock, process id, addresses, which branch select! polls first) get the same outcomes in the same order: ids, seeds, parameter sets, final report and error must agree after every step; specs: 20 shapes of depth 3, a spec with 8 leaves, maps, variants and nested maps, a spec read from text with type definitions, a guess with map keys of its own; up to 120 evaluations, the last 2 to 3 (from the start for the 20 shapes) with symbolic order, outcome and value, concurrency 1..4, sample size 1..3, terminate command and target reached at any of the symbolic steps; a second run after a first and a different one in the same process",
        "outside": "longer symbolic suffixes; environment variables, files and threads as sources of difference; the report's processing time",
        "assumptions": COMMON + [ENV, CONCRETE_RNG],
    },
    "C10": {
        "groups": plain(["vh_c10_" + x for x in "number number_real sizes array choices flags scopes keywords gen_sub gen_array gen_choice gen_leaf gen_wrapped soup".split()], ["end", "accepted", "rejected"])
        + plain(["vh_c10_odd_docs"], ["end", "rejected"]) + plain(["vh_c10_initial"], ["accepted"])
        + plain(["vh_c10_text_any"], ["rejected"]) + plain(["vh_c10_text_edit"], ["accepted", "rejected"])
        + plain(["vh_c10_gen_two"], ["end", "accepted", "rejected"], tier="thorough", secs=600),
        "bounds": "YAML trees: every attribute of every kind present or not, of the right or five wrong shapes, numbers symbolic over all 64-bit integers and all doubles; type definitions at two levels (shadowing, self-reference, late and nested definitions, uses before/inside/after, inside every container kind); twenty keyword-like keys in eight positions; any spec of depth <= 3 with at most one defect anywhere (two in the thorough tier); soups of up to three of ten attributes; the text layer: every text of up to two ASCII characters, and one of 25 characters put at or over each position of a small document",
        "outside": "YAML text beyond those (the text layer is serde_yaml's, run for real in the text entries; elsewhere the parsed tree is handed over through a patched serde_yaml, and counterexamples are confirmed on the text serde_yaml prints for the tree); deeper nesting, more definitions",
        "assumptions": COMMON,
    },
    "C11": {
        "groups": plain(["vh_c11_" + x for x in ("round_leaf round_sub round_array round_map round_mapnest round_choice").split()])
        + plain(["vh_c11_" + x for x in "near_leaf near_sub near_array near_map near_mapnest near_choice near_two any_leafs any_deep".split()], ["accepted", "rejected"])
        + runs([("vh_c11_guess_run", ["started", "refused"]), ("vh_c11_same_run", ["end"]), ("vh_c11_same_run_many", ["end"]), ("vh_c11_same_run_long", ["end"])])
        + plain(["vh_c11_text", "vh_c11_text_int", "vh_c11_text_real", "vh_c11_text_keys"]),
        "bounds": "every conforming value of specs of depth <= 3 (every kind; leaves and bounds symbolic; maps of up to 2 elements, both encodings); documents for such specs with up to two defects at any position (14 foreign documents, missing/extra/renamed keys, array length +-1 and 0, map size one outside its bounds, ten odd map keys, two or no options, unknown names, numbers of each JSON kind symbolic); arbitrary documents of depth <= 2 (numbers symbolic) against specs of depth <= 3; launch with such guesses; two runs in lockstep (own initial value as guess / no guess), up to 42 evaluations at concurrency 2; text: enum names of two symbolic ASCII bytes, integers -128..127, 100 pairs of hostile keys, 12 reals",
        "outside": "deeper documents and specs; the decimal text of reals beyond the listed ones; keys spelled unusually ('01', '+1') only need to be rejected or read as a conforming value",
        "assumptions": COMMON + [ENV, CONCRETE_RNG],
    },
    "C12": {
        "groups": [{"entries": ["vh_c12_sub2", "vh_c12_array2", "vh_c12_map2", "vh_c12_mapnest2", "vh_c12_variant2", "vh_c12_optional2", "vh_c12_leaf8"], "covers": ["C12:end"], "secs": 120}],
        "bounds": "two parents over specs of depth <= 3 (every container kind at the root, every kind below, maps of up to 2 elements with overlapping, disjoint and equal key sets), 1..8 parents for leaf specs; leaf values, crossover probability and selection pressure symbolic",
        "outside": "deeper nesting, containers with more than two children, more than two parents for container specs",
        "assumptions": COMMON + [RNG],
    },
    "C01": {
        "groups": plain(["vh_c01_real", "vh_c01_real_scale", "vh_c01_int", "vh_c01_discrete", "vh_c01_containers", "vh_c01_map", "vh_c01_mapnest", "vh_c01_crossmap", "vh_c01_init", "vh_c01_history_nest", "vh_c01_history_real", "vh_c01_history_small", "vh_c14_meta"])
        + runs([("vh_c01_run", ["C01:report"]), ("vh_c01_long", ["C01:report"])]) + children("c01")
        + plain(["vh_c01_history_map"], tier="thorough"),
        "bounds": "one mutation step and one recombination step from arbitrary conforming values (real and integer leaves: every finite value, bounds/init/scale up to 1e100 in magnitude, scale also over the whole positive range; containers of every kind nested up to depth 3, maps of up to 2 elements under every legal combination of size bounds; every mutation probability and positive finite scale), three generations of the algorithm with an arbitrary generator (maps, variants, optionals, bounded numbers), whole runs of 5 and 42 evaluations at concurrency 2 over a spec with every kind (generator as shipped, accepted values and rejections symbolic)" + CHILDREN,
        "outside": "specs nested deeper or with more children; the inductive step covers any number of generations only for the specs within these bounds; values read from a guess are covered by C11",
        "assumptions": COMMON + [RNG, ENV, OS],
    },
    "C02": run_prop([("vh_c02_small", ["C02:report", "C02:none"]), ("vh_c02_target", ["C02:report"]), ("vh_c02_evict", ["C02:report"]), ("vh_c02_sample", ["C02:report"])], RUNB % (4, "1") + LONG + "; sample size 2 and 3 in the population phase" + STREAK % (11, 6, 7) + "; the same with values of +-1e300, -0 and 5e-324" + SYNC % "" + CHILDREN + CHILDREN2, extra=[OS], thorough=[("vh_c02_evict2", ["C02:report"]), ("vh_c02_sample_deep", ["C02:report"])], first=streak("c02", "extreme", "extreme_sample"), more=sync("c02", "report") + children("c02", "report") + plain(["vh_c02_cap"], ["best"]) + plain(["vh_c02_reeval", "vh_c02_reeval3"], ["best", "reeval-2"]) + plain(["vh_c02_reeval_deep"], ["best", "reeval-2"], tier="thorough")),
    "C03": run_prop([("vh_c03_budget", ["C03:exact", "C03:none"]), ("vh_c03_stop", ["run:end"]), ("vh_c03_long", ["C03:exact"])], RUNB % (4, "1") + LONG + STREAK % (11, 6, 7) + SYNC % "" + "; up to 8 functions at once" + CHILDREN, extra=[OS], first=streak("c03"), more=sync("c03", "exact") + procs([("vh_c03_wide", ["exact"])]) + children("c03")),
    "C04": run_prop([("vh_c04_term", ["C04:abort-seen", "C04:terminated", "C04:none"]), ("vh_c04_target", ["C04:target"]), ("vh_c04_batch", ["run:end"])], RUNB % (3, "1") + PROCB + STREAK % (7, 5, 5) + "; a target with sample sizes 2 and 3 in the population phase" + AGAIN + SYNC % ", target, time limit, interrupt, all of them at once", RUNOUT + PROCOUT, [OS],
                    first=runs([("vh_c04_again", ["C04:terminated", "C04:abort-seen"]), ("vh_c04_target_sample", ["C04:target", "C04:whole"])]) + streak("c04"), more=sync("c04", "asked", "hit") + procs([("vh_c04_pair", ["asked", "hit", "stopped-with-siblings"])]) + triple("c04", ["asked", "hit"])),
    "C05": run_prop([("vh_c05_conc", ["C05:full"]), ("vh_c05_batch", ["C05:full"]), ("vh_c05_stop", ["run:end"]), ("vh_c05_sample", ["C05:full"])], RUNB % (4, "1") + LONG + "; sample size 2 in the population phase" + STREAK % (11, 6, 7) + SYNC % "" + "; up to 8 functions at once" + CHILDREN + CHILDREN2, extra=[OS], thorough=[("vh_c05_sample_deep", ["C05:full"])], first=streak("c05"), more=sync("c05", "full") + procs([("vh_c05_wide", ["full"])]) + children("c05", "again") + plain(["vh_c05_reeval"], ["reeval-2"]) + plain(["vh_c05_reeval_deep"], ["reeval-2"], tier="thorough")),
    "C06": run_prop([("vh_c06_fail", ["C06:failed", "C06:abort-seen"]), ("vh_c06_target", ["C06:failed"])], RUNB % (3, "1") + PROCB + "; the failing child's output, status and message: 26 documents x 3 exit codes and 2 deaths by signal x 3 stderr texts, any byte put at or over any position of a result document" + STREAK % (7, 5, 5) + AGAIN + SYNC % ", target, time limit, interrupt, all of them at once", RUNOUT + PROCOUT, [OS],
                    first=runs([("vh_c06_again", ["C06:failed"])]) + streak("c06"), more=sync("c06", "failure") + procs([("vh_c06_pair", ["failure", "stopped-with-siblings"]), ("vh_c06_docs", ["refused"]), ("vh_c06_edit", ["refused"])]) + triple("c06", ["failure"])),
    "C07": {
        "groups": procs([("vh_c07_pair", ["timed-out", "stopped", "stopped-with-siblings"]), ("vh_c07_report_fails", ["killed"])]) + triple("c07", ["timed-out", "stopped-with-siblings"]),
        "bounds": PROCB[2:] + "; a reporting file that cannot be created with two such children in flight; what is alive in the modelled process table when launch returns, who was killed and when, counts",
        "outside": PROCOUT[2:] + "; children that leave their process group",
        "assumptions": COMMON + [OS, CONCRETE_RNG],
    },
    "C08": run_prop([("vh_c08_small", ["run:end"]), ("vh_c08_sample", ["C08:reeval"])], RUNB % (4, "1") + LONG + "; sample size 2 and 3 in the population phase" + STREAK % (11, 6, 7) + SYNC % "" + CHILDREN + CHILDREN2, extra=[OS], thorough=[("vh_c08_sample_deep", ["C08:reeval"])], first=streak("c08"), more=sync("c08") + children("c08", "again") + plain(["vh_c08_reeval", "vh_c08_reeval3"], ["reeval-2"]) + plain(["vh_c08_reeval_deep"], ["reeval-2"], tier="thorough")),
    "C13": {
        "groups": plain(["vh_c13_zero", "vh_c13_map", "vh_c13_map3", "vh_c13_sure", "vh_c13_sure_map", "vh_c13_nest", "vh_c13_switch", "vh_c13_born", "vh_c13_guess"]),
        "bounds": "specs of depth <= 3 (containers of every kind at the root, every kind below), maps of up to 3 elements with every legal combination of small size bounds and keys from several bases incl. 2^64-1; one mutation from an arbitrary conforming value, two in a row where the first may bring a map into being, three for a flat map; every mutation probability",
        "outside": "deeper nesting, larger maps; numeric leaves are held still (Cauchy draw 0) while structural steps are judged, their own steps are C01's and C17's",
        "assumptions": COMMON + [RNG],
    },
    "C14": run_prop([("vh_c14_stream", ["C14:report"]), ("vh_c14_sample", ["C14:report"])], RUNB % (3, "1") + LONG + "; up to three results between two polls with a report channel of no spare room"
                    + "; with real processes: up to 4 evaluations at concurrency 1 to 3, outcomes of five kinds, several at the same moment, any one write to a file delayed past what the other threads do next; failure, target, time limit and interrupt; the two files are compared with what the children were given and answered; two results out of twelve magnitudes; the files of runs of 2 to 4 evaluations with arbitrary objective values computed in the process" + STREAK % (7, 5, 5) + SYNC % "", RUNOUT + PROCOUT, [OS],
                    first=streak("c14") + runs([("vh_c14_batch", ["C14:report"])]), more=sync("c14", "counts") + plain(["vh_c14_meta"]) + VALUES + procs([("vh_c14_files_range", ["best", "report"]), ("vh_c14_files", ["best", "report", "failed"]), ("vh_c14_files_stop", ["best", "report", "failed", "aborted"])])),
    "C15": run_prop([("vh_c15_run", ["run:end"])], RUNB % (3, "1")
                    + "; child output with real processes, logging off and on at the finest level: every two bytes on stdout or stderr, any byte put at or over any position of a result document, 26 documents x 3 exit codes and 2 deaths by signal x 3 stderr texts, 150 kB on either stream in either order, 6 kB of characters of 2, 3 and 4 bytes or ill-formed bytes at every alignment; exit by a child and the library's reaction are compared with the protocol" + STREAK % (7, 5, 5) + "; the same with values of +-1e300, -0 and 5e-324" + AGAIN + SYNC % ", target, time limit, interrupt, all of them at once", RUNOUT + PROCOUT, [OS],
                    first=runs([("vh_c15_again", ["run:end"])]) + streak("c15", "extreme", "extreme_sample"), more=sync("c15", "run") + plain(["vh_c14_meta"]) + procs([("vh_c15_docs", ["accepted", "null", "refused"]), ("vh_c15_bytes", ["refused"]), ("vh_c15_edit", ["accepted", "refused"]), ("vh_c15_huge", ["end"]), ("vh_c15_wide", ["accepted", "refused"])])),
    "C16": {
        "groups": procs([("vh_c16_docs", ["accepted", "null", "refused"]), ("vh_c16_edit", ["accepted", "refused"]), ("vh_c16_argv", ["end"]), ("vh_c16_unlaunchable", ["end"])]) + procs([("vh_c16_cli_ok", ["files", "digits"]), ("vh_c16_cli_fail", ["dumped", "unlaunchable"]), ("vh_c16_cli_out", ["refused", "made"]), ("vh_c16_cli_invalid", ["end"]), ("vh_c16_cli_number", ["accepted", "refused"]), ("vh_c16_cli_duration", ["accepted", "refused"]), ("vh_c16_cli_stop", ["best", "none"]), ("vh_c16_config", ["end"])]),
        "bounds": "library with real processes: 26 result documents x 3 exit codes and 2 deaths by signal x 3 stderr texts, any byte put at or over any position of a result document, argument lists with spaces, quotes, non-UTF-8 and empty arguments, nine kinds of unlaunchable program; the tool itself (main of src/bin/cambrian.rs with its argument parser and logger, one run per path): successful runs of three evaluations (three specs, seven outcome patterns, one with three arbitrary digits, output directory absent, new or nested, logging, two concurrencies, three user argument lists), twelve kinds of failing child first or second, output directories that are absent, empty, full or a file with and without --force, 31 invalid command lines in two orders, one or two arbitrary ASCII characters as the value of five options, 28 duration texts and one arbitrary ASCII character put in 10s at three places for the two time limits, runs ended by a time limit, a target, timeouts or SIGINT",
        "outside": PROCOUT[2:] + "; longer option values, other combinations of options; -t with a non-finite value and option values with a leading hyphen are not judged",
        "assumptions": COMMON + [OS, CONCRETE_RNG],
    },
}
NOT_APPLICABLE = {}
