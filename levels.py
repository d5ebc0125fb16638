"""property -> (technique, level note) of MANIFEST.json"""
SAMPLED = "Sampled executions; "
LEVELS = {
    "P01": ("online trace checker: every report compared with a declarative stream model",
            SAMPLED + "random programs over all operators and random streams; trusts the reference model and clang's code generation. Statements within rounding distance of a threshold are left undecided and counted."),
    "P02": ("online trace checker: each answer compared with the documented function, each operator run as entry and behind an input",
            SAMPLED + "one operator per case over values of all magnitudes including NaN, infinities and denormals; functions compared to a stated rounding bound."),
    "P03": ("online trace checker: each answer compared with the formula over the last n messages in extended precision",
            SAMPLED + "streams up to 400 000 messages in the thorough tier; results near a decision threshold are left undecided and counted."),
    "P04": ("online trace checker: counts, compensated sums and recursions recomputed from the whole history",
            SAMPLED + "results compared to a stated rounding bound."),
    "P05": ("online trace checker: emitted grid times and interpolated values compared with those defined by all input points",
            SAMPLED + "irregular, gapped and bursty clocks; values compared to a stated rounding bound."),
    "P06": ("online trace checker over permuted arrival schedules: timestamps emitted, the call that emits them and their values",
            SAMPLED + "several random interleavings per set of streams, all of them for very short ones."),
    "P07": ("online trace checker: routing recomputed from data and controls, with fault injection (bad, missing and early controls)",
            SAMPLED + "streams of up to several hundred data messages over one to eight outputs."),
    "P08": ("online trace checker: each answer compared with the value in force at the query time",
            SAMPLED + "random interleavings of definitions and queries."),
    "P09": ("online trace checker: forwarded messages compared with the strictly increasing subsequence of each port",
            SAMPLED + "hostile clocks with repeated, late and extreme times on up to twelve ports."),
    "P10": ("online temporal monitor on every operator port of running programs",
            SAMPLED + "random programs over all operators; shifts that would reach below time 0 are excluded."),
    "P11": ("differential trace checker: the same messages delivered one by one, in batches and through the buffer",
            SAMPLED + "random partitions of random streams; operators whose outcome depends on the interleaving of ports are compared under the same interleaving."),
    "P12": ("differential trace checker: original, restored copies and an undisturbed twin run in lockstep",
            SAMPLED + "snapshots at random points of random programs, each compared over the rest of the run."),
    "P13": ("differential trace checker: the nested program against its hand-flattened twin",
            SAMPLED + "random inner graphs, one or two levels deep, with and without gaps in their outputs."),
    "P14": ("differential trace checker: regular against debug results of twin programs with and without a declaration",
            SAMPLED + "random declarations over random programs."),
    "P15": ("differential trace checker: permuted, renamed and spelled-out descriptions run in lockstep",
            SAMPLED + "several permutations per program."),
    "P16": ("lifecycle monitor over interleaved programs, each compared with a solitary twin, under address and undefined-behaviour sanitizers",
            SAMPLED + "random schedules of up to a dozen programs in one process."),
    "P17": ("round-trip monitor: written descriptions compared parameter by parameter and by behaviour",
            SAMPLED + "every operator type, random and extreme parameters, construction from C++ and from descriptions."),
    "P18": ("fault injection with mutated descriptions and messages under address and undefined-behaviour sanitizers, and an after-effects monitor",
            SAMPLED + "every kind of mutation the schema rules out; descriptions with cycles or two connections into one input are not fed."),
    "P19": ("address, undefined-behaviour and leak sanitizers, valgrind memcheck for uninitialised values, allocation balance over each program's life",
            SAMPLED + "random programs, streams, snapshots and refusals; memcheck runs fewer cases than the sanitizers."),
    "P21": ("allocation and snapshot-size monitor on long runs, bounded by the windows and by the messages that a model knows are still awaited",
            SAMPLED + "runs of thousands of messages; bounds allow for the blocks of the containers."),
    "P22": ("differential monitor: every text answer parsed and compared with the native call, acceptance compared with a second statement of the schema",
            SAMPLED + "the JSON-schema library is not installed and is replaced by a stand-in that refuses keywords it does not know."),
    "P23": ("trace checker: descriptions compared after every editing operation with a model, runs compared with the native engine fed the same rows",
            SAMPLED + "the real Python sources and binding code; pybind11 itself is not installed and is replaced by a stand-in."),
    "P24": ("trace checker: descriptions compared after every editing operation with a model, runs compared with the native engine fed the same rows",
            SAMPLED + "the real TypeScript and binding code, bundled by esbuild; embind, class-transformer and the zod generator are stand-ins, and the bindings run natively instead of in wasm."),
    "P25": ("differential trace checker: operators wired by connect() against the same graph created from its description, collectors as probes",
            SAMPLED + "random graphs of operators of one or more ports, with ports given, left out, ambiguous or unknown."),
    "P26": ("trace checker: rows sent, messages printed or written and the contents of the table after each key compared with the engine's own answers",
            SAMPLED + "the real sources of the application, bundled by esbuild; commander, papaparse, zustand, immer and blessed are stand-ins; values are shown with two digits."),
    "P27": ("online checker of registry and Redis contents against a model, and linearizability checker over recorded concurrent histories, with injected delays and failing calls",
            SAMPLED + "the real Rust sources; redis-module, jsonschema and nanoid are stand-ins and the engine behind the bridge is a recording fake."),
    "P20": ("ThreadSanitizer, with every thread's results compared with a sequential run",
            SAMPLED + "several threads with random injected delays and pauses; only schedules that occurred were seen."),
}
