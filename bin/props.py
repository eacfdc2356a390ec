"""What each check runs."""

def _p(rule, scen=(), models=(), level="model_checking", race=False, assumptions=(), note=None):
    return dict(note=note or NOTE, rule=rule, scen=list(scen), models=list(models), level=level, race=race, assumptions=list(assumptions))

NOTE = ("Every recorded run of the real library is a behaviour of the specification (re-derived by TLC from the bytes "
        "the run was given). Inputs are bounded enumerations plus seeded samples; nothing is claimed for inputs not run. "
        "Trusted: the specification, the driver's recording, TLC, the Go toolchain and the bitreader and huffman modules.")

DIST = " A run is non-trivial if its input is not empty; runs are distinct if their inputs differ."

PROPS = {
    "T01": _p("Streams of packets: every header bit, adaptation field length, flags byte and extension flag combination, then seeded mixtures with reused packet objects and split sources." + DIST),
    "T02": _p("Every distance 0..380 to the next sync byte, every truncation, bit offsets, garbage with and without false sync bytes." + DIST),
    "T03": _p("TLC-enumerated packet sequences times read patterns, seeded streams with predicate terms, sweeps of the read size." + DIST, ["ts"], models=['MCTsReaders']),
    "T04": _p("TLC-enumerated packet sequences times windows, seeded streams and windows, for the payload reader and the demultiplexer." + DIST, ["ts"], models=['MCTsReaders']),
    "T05": _p("TLC-enumerated packet sequences times read patterns, seeded streams, sweeps of the read size." + DIST, ["ts"], models=['MCTsReaders']),
    "T06": _p("TLC-enumerated matchings of packets and channels with slow consumers, seeded streams with predicate terms built from And/Or/Not; packets are held to the end." + DIST, ["demux"], models=['MCDemux']),
    "T07": _p("TLC-enumerated packet sequences, seeded ones, PES packets." + DIST, ["ts"]),
    "E01": _p("Every stream id, flags byte, extension flags byte, time stamp bit, skipped-field length; seeded mixtures with reused packet objects." + DIST),
    "E02": _p("TLC-enumerated packet sequences times read patterns, seeded streams with padding, truncation and garbage, sweeps of the read size." + DIST, ["pes"], models=['MCPayloads']),
    "E03": _p("Every single-bit change and truncation of maximal headers, every prefix/marker value, stuffing, all contradictions of the two lengths, seeded corruption." + DIST),
    "E04": _p("Seeded elementary streams cut into PES packets, multiplexed into TS (with other pids) or PS and read back through stacked readers." + DIST),
    "S01": _p("Every bit of the clock reference, stuffing and stream counts, every single-bit change and truncation of a header, seeded headers." + DIST),
    "S02": _p("TLC-enumerated programs times endings, seeded programs, every truncation, seeded corruption, sweeps of the read size." + DIST, ["ps"], models=['MCPayloads']),
    "S03": _p("TLC-enumerated programs times endings, seeded programs with slow consumers, every truncation, seeded corruption." + DIST, ["ps"], models=['MCPsDecoder']),
    "R01": _p("Every adaptation field control/length, contradicting PES lengths, seeded arbitrary, corrupted, spliced and truncated streams, through each reader." + DIST),
    "R03": _p("Sources that fail or end at every or seeded byte positions, under every reader and under the video decoder." + DIST, ["vlc"]),
    "V01": _p("Every start code and extension id against itself, its neighbours and truncations at every bit offset; alignment over garbage, false starts and codes at bit offsets, repeatedly. A run checks up to 60 calls." + DIST, ["vlc"]),
    "V02": _p("Every bit and field value of a group header, unaligned positions, stuffing, truncations; time code texts. A run checks up to 30 headers." + DIST, ["vlc"]),
    "V03": _p("Seeded arrangements of side data, repeated headers with every field at its edges, new sizes, sequence ends, MPEG-1 streams, sizes up to 16383." + DIST, ["vlc"]),
    "V04": _p("TLC-enumerated sequences of groups of pictures, seeded larger ones, groups of more than 1024 pictures." + DIST, ["vlc", "gops"], models=['MCFrameOrder']),
    "V05": _p("TLC-enumerated sequences of groups of pictures with predicted macroblocks, seeded larger ones." + DIST, ["vlc", "gops"], models=['MCFrameOrder']),
    "V06": _p("Every code word of every coefficient and DC table, every DC size at every precision, escapes at every position, dense blocks, every (thorough; sampled: quick) reserved code." + DIST, ["vlc"], models=['MCIdct']),
    "V07": _p("Seeded matrices from headers and extensions, every scale code of both types, levels around saturation." + DIST, ["vlc"]),
    "V08": _p("Every partition of rows of up to 5 macroblocks into slices, increments up to 104 with escapes, tall pictures, every coded block pattern, skips after every kind of macroblock." + DIST, ["vlc"]),
    "V09": _p("Every f_code and motion code with concealment vectors as predictors, real vectors in large pictures, seeded mixtures." + DIST, ["vlc"], models=['MCMotion']),
    "V10": _p("Every displacement of up to 5 half samples forward, backward and both, seeded mixtures with field and frame DCT, clamping." + DIST, ["vlc"]),
    "V11": _p("Each stream decoded ten times: split differently, behind garbage, after, interleaved with and concurrently with another decoder; built with the race detector." + DIST, ["vlc"], race=True),
    "V12": _p("Sequence headers with every kind of damage; streams in which one header is damaged in one of 24 ways, at every place." + DIST, ["vlc"]),
    "R04": _p("Two to eight runs of the container suites' kinds at a time, call by call in turn or concurrently; built with the race detector." + DIST, ["ts", "demux", "pes", "ps"], race=True),
    "R02": _p("Seeded random, mutated, spliced, truncated streams and well-formed ones that use unsupported features or leave the frame." + DIST, ["vlc"]),
}
