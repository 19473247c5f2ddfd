"""What each check runs. cases: per shard, in a quick run."""

P = lambda cases, **k: dict(cases=cases, **k)

GEN = ("Types are drawn with rapid from reflect constructors over 500 library types (every kind x set of marshaling methods x receiver), "
       "a zoo of static struct families and native types; values of them are drawn with edge values favoured. ")

PROPS = {
    "C01": dict(parts=[P(2500, shards=72)], zoo=True,
                rule=GEN + "Non-trivial: the type has at least two composite levels and the output was compared byte for byte (or the error was expected)."),
    "C02": dict(parts=[P(1500, shards=32)], zoo=True,
                rule=GEN + "Structs with embedded structs, pointers, conflicts and tags. Non-trivial: a struct with embedded fields or conflicting names that encodes at least one member."),
    "C03": dict(parts=[P(2000, shards=64)],
                rule=GEN + "Structs with omitempty and string options and empty-biased values. Non-trivial: at least one field has one of the options and the output differs by it."),
    "C04": dict(parts=[P(2000, shards=64)],
                rule=GEN + "Structs with omitnil, with nil and null biased values. Non-trivial: at least one field is left out by omitnil and another stays."),
    "C05": dict(parts=[P(2500, shards=40)], zoo=True,
                rule=GEN + "Library types in every position, the calls of their methods being recorded. Non-trivial: at least one marshaling method was called, and calls (method, receiver content and address) and output were compared."),
    "C06": dict(parts=[P(2500, shards=72)], zoo=True,
                rule=GEN + "Failures are injected anywhere. Non-trivial: the call must fail, and type, message and wrapped error were compared."),
    "C07": dict(parts=[P(1500, shards=24)],
                rule="Maps of every key kind, up to thousands of entries, churned and nested. Non-trivial: a map with at least two entries was compared."),
    "C08": dict(parts=[P(4000, shards=32)],
                rule="sync.Maps made by random operation histories with keys of mixed types. Non-trivial: at least two entries, or a key that must be refused."),
    "C09": dict(parts=[P(10000, shards=32)],
                rule="Byte strings of runes of all classes and broken sequences, all code points being enumerated, under every escaping option and in every position. Non-trivial: at least one byte is escaped or kept by an option."),
    "C10": dict(parts=[P(12000, shards=32)],
                rule="Integers and float bit patterns of all widths, number literals and mutations of them. Non-trivial: not a small integer."),
    "C11": dict(parts=[P(12000, shards=32)],
                rule="Instants over all years, zones and layouts, as values, fields, elements and keys. Non-trivial: fraction, zone offset, custom layout or refused year."),
    "C12": dict(parts=[P(12000, shards=32)],
                rule="Durations over the whole int64 range x formats x positions. Non-trivial: the format is not the default or the value is quoted."),
    "C13": dict(parts=[P(3000, shards=32)],
                rule="Byte slices, named byte types and arrays of all lengths and capacities x options. Non-trivial: at least one byte."),
    "C14": dict(parts=[P(9000, shards=48)],
                rule="JSON documents with insignificant white space and mutations of them, from MarshalJSON and RawMessage, in every position. Non-trivial: compaction changes the document, or it is invalid."),
    "C15": dict(parts=[P(2500, shards=48)],
                rule=GEN + "Types that encoding/json can round-trip, and all options for validity. Non-trivial: a composite value was decoded back and compared, or validity was checked with options."),
    "C16": dict(parts=[P(1500, shards=20)], zoo=True,
                rule=GEN + "Random option sets, plus all 2^11 subsets of the boolean options x 6 duration formats on a value with something for each of them. Non-trivial: the options change the expected output."),
    "C17": dict(parts=[P(1500, shards=32)], zoo=True,
                rule=GEN + "Structs with allow and deny lists made of their names. Non-trivial: at least one field is filtered and another kept."),
    "C18": dict(parts=[P(2000, shards=40)],
                rule=GEN + "Destinations in a canary arena with all relations of length, capacity and output size, repeated appends and failing values. Non-trivial: a non-empty destination."),
    "C19": dict(parts=[P(2000, shards=40)],
                rule=GEN + "Option sequences with nils, repetitions and invalid settings, on four entry points. Non-trivial: at least two options, or an invalid setting."),
    "C20": dict(parts=[P(300, shards=64)], zoo=True, thorough_factor=1,
                rule="Histories of calls over types new to the process, seen by value, by pointer, nested and in interfaces, with failures, panics, reentrant calls and retained outputs. Non-trivial: a history in which a type was seen in at least two forms."),
    "C21": dict(parts=[P(120, shards=16, mode="race"), P(250, shards=12)], zoo=True, env={"VERIF_HANG": "60"},
                rule="Groups of goroutines released together that encode values of types new to the process, recursive types and shared values; every result is compared with the sequential reference, once under the race detector. Non-trivial: at least two goroutines meet a new type."),
    "C22": dict(parts=[P(3000, shards=16), P(2000, shards=8, mode="checkptr")], env={"GODEBUG": "clobberfree=1,adaptivestackstart=0"},
                rule=GEN + "Encoding in goroutines of small and large stacks while methods (or another goroutine) collect garbage and move the stack; freed memory is clobbered; values are compared before and after, overwritten after the call (aliasing), or must be collectable (finalizers). Non-trivial: a collection or stack move happened during the call, bytes were overwritten, or parts of the value were collected."),
    "C23": dict(parts=[P(1500, shards=32)], zoo=True,
                rule="Recursive types of all shapes with values of depths up to thousands, and values with a cycle. Non-trivial: depth above 3 or a cycle."),
    "C24": dict(parts=[P(1500, shards=72)],
                rule=GEN + "Context marshalers with unique outputs in every position, under random contexts. Non-trivial: a call with output before it, whose context, destination and output were compared."),
    "C25": dict(parts=[P(1000, shards=16)], benchparse=True,
                rule="benchstat CSV files of random benchmarks, runs and values, a quarter of them broken in one place, x omit flags; the tool is run on each. Non-trivial: more than one run, or a broken file."),
    "C26": dict(parts=[P(60, shards=24)],
                rule="Sequences of 250 to 14 750 calls over one to three kinds of ever new content (records, texts, failures, panics, cycles, random values) with ever new options; the live heap and the goroutines are measured before and after. Non-trivial: every measured sequence."),
    "C27": dict(parts=[P(2000, shards=16)],
                rule="Containers of 5 and of 505 copies of a random value of plain types, in 8 forms, under random options, and texts up to 300 000 bytes; the allocations of Append are counted. Non-trivial: every measured pair."),
    "C28": dict(parts=[P(100, shards=16)],
                rule="JSON tables of up to 20 benchmarks x lists of names x directories x orders of the asynchronous steps; tools/charts/index.js is run under node on each, with stand-ins for jsdom, commander, decamelize, svgo and Google's charts. Non-trivial: at least one benchmark is requested, or its file must be left alone.",
                assumptions=["the stand-ins for the modules and the chart library of tools/charts (none is installed) pass the data on as the real ones do"]),
}

# Every check also runs as a 32-bit program: other sizes of int, pointers and
# alignments. The address sanitizer reports accesses outside of an object.
for _id, _p in PROPS.items():
    if _id not in ("C21", "C25", "C28"):
        _p["parts"].append(P(max(300, _p["parts"][0]["cases"] // 2), shards=4, mode="386"))
    if _id in ("C18", "C22"):
        _p["parts"].append(P(1000, shards=8, mode="asan"))
    elif _id in ("C01", "C02", "C03", "C05", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C16", "C17", "C20"):
        _p["parts"].append(P(max(300, _p["parts"][0]["cases"] // 2), shards=4, mode="asan", tier="thorough"))

# Coverage-guided fuzzing of static types; cases: seconds.
for _id in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"):
    PROPS[_id]["parts"].append(dict(cases=6, shards=4, mode="fuzz", test=_id, tier="quick"))
    PROPS[_id]["parts"].append(dict(cases=60, shards=8, mode="fuzz", test=_id, tier="thorough"))
