def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    return d

PROPS = [
P("P01", "CRINEX differencing kernels are exact inverses at every order",
  "For every compression order 1..=M (M<=6) and every sequence of samples and re-initialisations, the numerical differencing compressor outputs the finite difference of that order (lower during the first samples of an arc) and the decompressor fed with it returns exactly the samples. The text differencing decompressor fed with the compressor's output returns every text of every sequence (trailing blanks are not significant), whatever their lengths.",
  ["histories", "inputs"], "all orders, all bounded sequences of samples, texts and re-initialisations",
  "the two unit tests replay one recorded order-3 arc and one text sequence; orders 1,2,4,5,6, capacity M equal to the order, re-initialisation with another order and texts that shrink are never exercised",
  ["src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs"],
  [("history rotation and binomial recombination", "src/hatanaka/numdiff.rs NumDiff::{compress,decompress,force_init}"),
   ("position-wise text differencing", "src/hatanaka/textdiff.rs TextDiff::{compress,decompress,force_init}")],
  [("buf,m,level", "last M samples, samples since re-initialisation, order", "src/hatanaka/numdiff.rs"),
   ("buffer", "previous text", "src/hatanaka/textdiff.rs")]),
P("P02", "CRINEX decompression restores the RINEX that was compacted",
  "Reading a CRINEX file (V1 or V3) that a conforming compressor made from an Observation RINEX gives the same record as reading that RINEX: same epochs, flags, clock offsets, satellites, observations to the last digit, LLI and SSI. The line-wise decompressor outputs the original text, line wrapping included, up to trailing blanks, for every sequence of epochs: satellites that rise, set and come back, missing observations, flag changes, arc re-initialisations at any order, epoch lines sent in full at any point; the streaming decompressor (DecompressorIO) delivers this text, header included and without the two CRINEX lines, whatever the size of the reads and the pieces its source delivers, and reports the errors of its source.",
  ["histories", "inputs"], "all bounded sequences of epochs over a small constellation, all orders of compression, all patterns of missing data",
  "tests decompress a few recorded files where no receiver clock is present and arcs are order 3; the state machine's combinations of events are not enumerated",
  ["src/hatanaka/decompressor/mod.rs", "src/hatanaka/decompressor/io.rs", "src/record/parsing.rs"],
  [("streaming", "src/hatanaka/decompressor/io.rs"), ("line state machine (epoch, clock, observation)", "src/hatanaka/decompressor/mod.rs DecompressorExpert::decompress")],
  [("epoch_diff, flags_diff, clock_diff, obs_diff", "differencing state per epoch line, satellite, clock and observable", "src/hatanaka/decompressor/mod.rs")]),
P("P03", "RINEX to CRINEX conversion is lossless",
  "Converting a readable Observation RINEX to CRINEX, writing it and reading the result gives back the same record (epochs, flags, clock offsets, satellites, observations to 1e-3, LLI and SSI), and converting back restores a readable RINEX with that same record; this holds for V1 CRINEX (RINEX 2) and V3 CRINEX (RINEX 3), for every sequence of epochs.",
  ["histories", "inputs"], "all bounded sequences of epochs: satellites rising, setting and returning, missing observations, flags and clock offsets that appear and disappear",
  "the existing tests convert a few regular files and never one with clock offsets, satellites of augmentation systems or gaps in every position",
  ["src/hatanaka/compressor.rs", "src/hatanaka/decompressor/mod.rs", "src/lib.rs", "src/record/formatting.rs"],
  [("compressor", "src/hatanaka/compressor.rs CompressorExpert::format"), ("conversion", "src/lib.rs rnx2crnx, crnx2rnx")],
  [("sv_kernels, flags_diff, epoch_diff", "differencing state of the compressor", "src/hatanaka/compressor.rs")]),
P("P04", "RINEX 3 observations are read exactly",
  "Reading a V3/V4 Observation RINEX gives exactly the epochs, event flags, receiver clock offsets, satellites, observable codes, values, LLI and SSI that its fixed columns hold: nothing is lost, invented, shifted to another satellite or observable, or carried over from another epoch, whatever the pattern of blank observations, trimmed line ends, full-width values and constellations.",
  ["inputs", "histories"], "all bounded sequences of epochs over a small alphabet of satellites, presence patterns, field values, line trimmings and clock offsets",
  "tests read sample files and spot-check a few values of full lines; columns at full width, trimmed lines and clock offsets are not covered",
  ["src/observation/parsing.rs", "src/record/parsing.rs"],
  [("epoch and signal parsers", "src/observation/parsing.rs parse_epoch, parse_signals_v3"), ("epoch buffering", "src/record/parsing.rs")],
  [("observations", "reused epoch buffer", "src/record/parsing.rs")]),
P("P05", "RINEX 2 observations are read exactly",
  "Reading a V2 Observation RINEX gives exactly the epochs, event flags, receiver clock offsets, satellites, observables, values, LLI and SSI of its fixed columns, whatever the number of satellites (continuation lines beyond 12), the number of observables (continuation lines beyond 5), blank observations, blank or trimmed lines, clock offset columns, and single-system files that omit the system letter.",
  ["inputs", "histories"], "all bounded sequences of epochs over satellites, numbers of observables, presence patterns, trimmings and clock offsets",
  "tests read sample files; wrapping boundaries (12/13 satellites, 5/6/10/11 observables), trimmed trailing fields and clock offsets in every combination are out of their reach",
  ["src/observation/parsing.rs", "src/record/parsing.rs"],
  [("epoch and signal parsers", "src/observation/parsing.rs parse_epoch, parse_signals_v2")]),
P("P06", "Writing then reading an Observation RINEX preserves the record",
  "Writing an Observation RINEX (V2 or V3) to a stream and reading it back gives an equal record: epochs, flags, clock offsets, satellites, observable codes, values to 1e-3, LLI and SSI; and the written text respects the standard's fixed columns, line wrapping and blanks.",
  ["inputs", "histories"], "all bounded records: satellites per epoch up to the wrapping boundaries, observables up to the wrapping boundaries, presence patterns, clock offsets, flags, magnitudes of values",
  "tests round-trip a few sample files without clock offsets",
  ["src/observation/formatting.rs", "src/observation/parsing.rs", "src/epoch.rs", "src/observation/header.rs"],
  [("formatter", "src/observation/formatting.rs Observations::format")]),
P("P07", "Epochs are read and written exactly, to the sub-second, in every time scale",
  "The instant and time scale of every epoch of every record type equal what the text says in the time scale the file declares (or its constellation implies), including sub-second digits, two-digit years (80-99 are 19xx, 00-79 are 20xx) and calendar boundaries; writing an epoch of an observation or meteo file and reading it back returns the same instant.",
  ["inputs"], "all combinations of record type, time scale, calendar boundary and sub-second digits in a bounded alphabet",
  "tests check some timestamps on whole seconds; sub-second digits in non-UTC time scales and century boundaries are not enumerated",
  ["src/epoch.rs", "src/header/parsing.rs", "src/observation/header.rs"],
  [("epoch parsers and formatter", "src/epoch.rs parse_in_timescale, parse_utc, format")]),
P("P08", "Header fields are read exactly",
  "Every standard header field the library supports is read into the value its columns hold, independent of the order of the header lines and of the presence of other fields, for every file type; repeated and continued lines (observable lists, comments, leap seconds, scale factors) accumulate without losing or duplicating an item.",
  ["inputs", "configurations"], "all single header fields over value alphabets, all pairs and orders of header lines in a bounded set",
  "tests assert a few fields of sample files",
  ["src/header/parsing.rs", "src/header/mod.rs", "src/observation/header.rs", "src/meteo/header.rs"],
  [("line dispatch", "src/header/parsing.rs Header::parse")]),
P("P09", "Headers survive a write and read cycle",
  "Writing the header of an Observation or Meteo RINEX and reading it back preserves type, version, constellation, program, observer, marker, receiver, antenna, positions, observables and scale factors (any number, continuation lines included), applied corrections, GLONASS channels, sampling interval, time of first and last observation, leap seconds, sensors, licence and comments; every written line has its label in columns 61-80 and its fields in the columns of the standard. A header that has no defined system is refused; whatever the texts, formatting does not panic.",
  ["inputs", "configurations"], "all bounded combinations of header fields and list lengths across the wrapping boundaries",
  "tests compare a few hand-picked headers",
  ["src/header/formatting.rs", "src/observation/header.rs", "src/meteo/header.rs"],
  [("header formatter", "src/header/formatting.rs Header::format")]),
P("P10", "Broadcast ephemerides are decoded field by field",
  "Reading a V2, V3 or V4 navigation file gives one ephemeris per message, keyed by satellite, reference epoch in the right time scale, message type and frame class, whose clock terms and orbital fields equal the standard's table for that constellation and version, whatever the exponent letter, blank fields and trimmed lines (V2: GPS and GLONASS; a null orbital field may be reported absent).",
  ["inputs"], "every constellation, version and message type; every single field perturbed over an alphabet of values; every pattern of one or two blank fields; all bounded sequences of messages",
  "tests compare a handful of messages of sample files",
  ["src/navigation/ephemeris/parsing.rs", "src/navigation/parsing/mod.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json"],
  [("orbit table", "db/NAV/orbits.json via build.rs"), ("parser", "src/navigation/ephemeris/parsing.rs")]),
P("P11", "V4 system messages are decoded field by field",
  "Reading a V4 navigation file gives every ionosphere model, Earth orientation and system time offset message with the epoch, satellite, message type and coefficients its columns hold, and messages of one kind never disturb those of another, in any order.",
  ["inputs", "histories"], "all bounded sequences of messages of every kind, every single field perturbed",
  "tests check one sample file",
  ["src/navigation/ionosphere", "src/navigation/earth_orientation.rs", "src/navigation/system_time.rs", "src/navigation/parsing/mod.rs"],
  [("frame parsers", "src/navigation/parsing/mod.rs")]),
P("P12", "Ephemeris selection returns the latest valid message",
  "For every navigation record, satellite (GPS, QZSS, Galileo, BeiDou) and instant, nav_ephemeris_selection returns the message of that satellite with the most recent time of ephemeris among those that are within their validity period at that instant, with that message's time of clock, time of ephemeris and content; none is returned when none is valid. The result is the same whatever the time scale the instant is expressed in. For SBAS it returns the message of the satellite whose reference epoch is the closest.",
  ["inputs", "histories"], "all bounded sets of messages (satellites, toe spacings, validity edges) and instants around every boundary",
  "tests query few instants in one file",
  ["src/navigation/rinex/feature.rs", "src/navigation/rinex/mod.rs", "src/navigation/ephemeris/mod.rs"],
  [("selection", "src/navigation/rinex nav_ephemeris_selection")]),
P("P13", "Orbit computation is finite, terminating and matches the interface documents",
  "For every ephemeris in the physical range the satellite position computed by the library equals the ICD's user algorithm to a millimetre and the velocity equals its time derivative to 0.1 mm/s (GPS, QZSS, Galileo, BeiDou MEO/IGSO and GEO), whatever the time scale the instant is expressed in; for GLONASS and SBAS they are the broadcast position and velocity; the computation terminates without panicking for every numeric input.",
  ["inputs"], "a grid over the orbital elements (eccentricity, anomaly, harmonic corrections, rates) and time offsets, including week rollovers",
  "tests check few satellites of one day",
  ["src/navigation/ephemeris/kepler/helper.rs", "src/navigation/ephemeris/kepler/mod.rs"],
  [("solver", "src/navigation/ephemeris/kepler/helper.rs")]),
P("P14", "Meteo RINEX is read exactly and survives a write and read cycle",
  "Reading a Meteo RINEX gives exactly the epoch, observable and value of each of its fixed columns, for any number of observables and any pattern of missing values; writing it and reading it back gives an equal record.",
  ["inputs", "histories"], "all bounded sequences of epochs, numbers of observables, presence patterns and line trimmings",
  "tests read and round-trip a few sample files without missing values",
  ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs"],
  [("parser", "src/meteo/parsing.rs"), ("formatter", "src/meteo/formatting.rs")]),
P("P15", "Clock RINEX is read exactly",
  "Reading a Clock RINEX gives, for every AR, AS, CR, DR and MS line, exactly one profile under its epoch, clock kind and satellite or station, with bias, drift and drift rate and their deviations equal to its columns, continuation lines included, in both the short and the long (3.04) station name layouts.",
  ["inputs", "histories"], "all bounded sequences of lines: kinds, identities, numbers of values 1..6, versions",
  "tests read a few sample files",
  ["src/clock/record.rs"],
  [("parser", "src/clock/record.rs parse_epoch")]),
P("P16", "IONEX maps are read exactly",
  "Reading an IONEX file gives, for every TEC and RMS map, exactly one value per grid node, at the node's latitude, longitude and altitude and the map's epoch, scaled by the exponent in force; nodes marked as non available are absent, and no map, row or node is lost or shifted whatever the grid definition, number of maps and their order (RMS maps complete TEC maps that were read before them).",
  ["inputs", "histories"], "all bounded grids (directions, spacings, fractional steps), exponents, maps and orders",
  "tests read few sample files and count maps",
  ["src/ionex/parsing.rs", "src/ionex/header.rs", "src/record/parsing.rs"],
  [("map parsers", "src/ionex/parsing.rs"), ("dispatch", "src/record/parsing.rs")]),
P("P17", "DORIS RINEX is read exactly",
  "Reading a DORIS RINEX gives exactly the epochs (in TAI), epoch flags, satellite clock offsets with their extrapolation flag, ground stations, observables, values and both flags its columns hold (values unscaled), whatever the presence pattern, the number of observables (continuation lines beyond 5), the station numbers and the trimmed line ends; the DORIS iterators yield exactly these items.",
  ["inputs", "histories"], "all bounded sequences of epochs over stations, numbers of observables and presence patterns",
  "tests read one sample file",
  ["src/doris/parsing.rs"],
  [("parser", "src/doris/parsing.rs")]),
P("P18", "ANTEX calibrations are read and looked up exactly",
  "Reading an ANTEX file gives every antenna, in order, with its identity (type without radome and serial number, or satellite and COSPAR number), calibration, azimuth step, zenith grid, validity period (bounds included, either of which may be open) and, per frequency, the eccentricities and azimuth independent phase pattern its lines hold; lookups by satellite, IGS type or serial number (case insensitive) return the first antenna that matches and has the frequency, and only within its validity period.",
  ["inputs", "histories"], "all bounded sequences of antennas, frequencies and pattern shapes; all instants around validity bounds",
  "tests read few sample files",
  ["src/antex/record.rs", "src/antex/antenna/mod.rs", "src/lib.rs"],
  [("parser", "src/antex/record.rs parse_antenna"), ("lookups", "src/lib.rs antex_valid_calibrations, sv_antenna_apc_offset, rx_antenna_apc_offset")]),
P("P19", "The result of reading does not depend on how bytes arrive",
  "Reading the same bytes gives the same header, record and comments whatever the sizes in which the source delivers them, through a plain or gzip file or an in-memory reader, with LF or CR LF line ends, and with or without a final line end; writing produces the same bytes whatever sizes the sink accepts.",
  ["schedules", "inputs"], "all two-chunk splits and all regular chunk sizes of small files of every type; all short-write patterns up to a bound",
  "tests always read from files",
  ["src/record/parsing.rs", "src/lib.rs", "src/header/parsing.rs"],
  [("readers", "src/lib.rs parse, from_file, from_gzip_file, to_gzip_file")]),
P("P20", "I/O errors are reported, never turned into shorter data",
  "If the source fails at any point while a file is being read, the caller gets an error and never a silently shortened record; if the sink fails at any point while a file is written, the caller gets an error; neither panics.",
  ["fault_sequences"], "an error at every byte of small files of every type, and at every write",
  "tests never inject I/O errors",
  ["src/record/parsing.rs", "src/header/parsing.rs", "src/lib.rs"],
  [("read loop", "src/record/parsing.rs"), ("header loop", "src/header/parsing.rs")]),
P("P21", "Truncated files keep the epochs that precede the cut",
  "When a valid file is cut at any byte after its header, reading it never panics and gives every epoch that was complete before the cut, unchanged; nothing after the cut is invented.",
  ["crash_points"], "every byte position of small files of every type",
  "tests read complete files only",
  ["src/record/parsing.rs"],
  [("epoch buffering", "src/record/parsing.rs")]),
P("P22", "Malformed content is rejected or skipped, never a crash or a hang",
  "Whatever bytes are presented as a RINEX file of any type, reading them terminates and returns a result or an error: it never panics, overflows or loops.",
  ["inputs"], "every single-line deletion, duplication, swap, trim and every single-byte substitution from an alphabet, on small files of every type",
  "tests read well-formed files only",
  ["src/record/parsing.rs", "src/header/parsing.rs", "src/observation/parsing.rs", "src/navigation", "src/ionex/parsing.rs", "src/clock/record.rs", "src/antex/record.rs", "src/doris/parsing.rs", "src/meteo/parsing.rs", "src/hatanaka"],
  [("parsers", "src")]),
P("P23", "Standard file names are parsed and generated consistently",
  "Every standard short name of a daily observation, meteo, navigation or IONEX file and every standard long name (with or without a compression suffix, in any letter case) is parsed into exactly the attributes it spells (two-digit years from 80 on belong to the former century); other names are refused or read but never make the library panic; generating a name from these attributes, for a file of that type and system, gives the same name. The name generated for a file spells its type, constellation, the year, day of year, hour and minute of its first epoch (in its own time scale), its sampling rate, and the station, country, batch, source and periodicity of the name it was read from. Guessed production attributes tell the same epoch and rate, and the period the record covers.",
  ["inputs"], "all combinations of the fields of short and long names over bounded alphabets",
  "tests check a list of example names",
  ["src/production/mod.rs", "src/production/ffu.rs", "src/production/ppu.rs", "src/lib.rs"],
  [("attributes", "src/production"), ("generation", "src/lib.rs standard_filename")]),
P("P24", "Sampling analysis reflects the epochs of the record",
  "First and last epoch, duration, sampling histogram, dominant interval, steadiness and data gaps equal those computed from the sorted list of epochs of the record, for any record type and any pattern of gaps.",
  ["histories", "inputs"], "all bounded sequences of epoch steps",
  "tests check sample files at steady rate",
  ["src/sampling.rs", "src/iterators.rs"],
  [("sampling", "src/sampling.rs")]),
P("P25", "Record queries return exactly what the record holds",
  "Iterators and queries over a record (epochs, satellites, constellations, observables, carriers, signals, clocks, per-kind frames) yield exactly the items of the record, without duplicates where they promise unique items, and masking or filtering keeps exactly the items that satisfy the condition (the DORIS range and drift iterators and the IONEX isosurface iterators are unfinished and outside).",
  ["inputs"], "all bounded records: every subset of palettes of signals, messages, clocks, observables, with all flags",
  "tests compare counts on sample files",
  ["src/iterators.rs", "src/lib.rs", "src/observation/rinex", "src/navigation/rinex", "src/meteo/rinex"],
  [("iterators", "src/iterators.rs, src/lib.rs")]),
P("P26", "Signal combinations and differences follow their definitions",
  "Geometry-free, ionosphere-free, wide-lane and narrow-lane combinations contain exactly one value per epoch, event flag, satellite and pair of signals of the same kind (two phases, scaled to metres with the nominal frequency of their bands, or two pseudo ranges), one of them in the reference band (L1, E1, G1 or B1) and the other not, observed at that very epoch; Melbourne-Wubbena combines the wide-lane of two phases with the narrow-lane of the pseudo ranges of the same two three-character codes. Each value equals the textbook formula (geometry-free: reference minus other for phases, other minus reference for pseudo ranges), whatever the order of the signals, the other epochs and the sampling interval. The difference of two observation, meteo or DORIS files replaces each value which has a counterpart at the same epoch (and flag), source and observable by the difference, and leaves everything else.",
  ["inputs"], "all bounded presence patterns, values, constellations and signal orders",
  "tests verify combinations on complete sample files",
  ["src/observation/rinex/feature.rs", "src/lib.rs", "src/carrier.rs"],
  [("combinations", "src/observation/rinex/feature.rs"), ("substraction", "src/lib.rs observation_substract")]),
P("P27", "Codes and tokens have one meaning, and survive display and parse",
  "Every observable code, carrier (with its frequency), SSI, LLI, event flag, version, file type, message type, marker, antenna calibration and DORIS station token maps to the value the standard defines, and codes that the standard does not define have no carrier; displaying a value and parsing the text gives the value back (GLONASS and Galileo E5 carriers are displayed under the short name of their band, which parses to a carrier of the same name); asking never panics; version and order comparisons are total and consistent.",
  ["inputs"], "the complete finite domains (all 1..3-letter codes, all digits, all band/constellation pairs, all versions of two digits)",
  "tests list examples",
  ["src/observable.rs", "src/carrier.rs", "src/version.rs", "src/types.rs", "src/observation/snr.rs", "src/observation/flag.rs", "src/marker.rs"],
  [("FromStr/Display pairs", "src/observable.rs, src/carrier.rs, src/version.rs, src/types.rs")]),
P("P28", "Comments are kept and never disturb the data",
  "Comment lines inserted anywhere in a file do not change any decoded value, and each comment of the body is returned, in order, under the epoch that precedes it; header comments are returned by the header.",
  ["inputs"], "one to nine comments at every line position of small files of every type",
  "tests read few files with comments",
  ["src/record/parsing.rs", "src/header/parsing.rs"],
  [("comment handling", "src/record/parsing.rs")]),
P("P29", "Grid axes and quantised coordinates are exact",
  "An axis built from start, end and spacing contains exactly the expected number of nodes, in either direction; for every point within it, the nearest lower node is the highest one not above the point, and the nearest above is the lowest one above it (none if there is no such node); a coordinate quantised at a given exponent returns to the same value.",
  ["inputs"], "all axes over a bounded alphabet of starts, ends and spacings, all points on and between nodes",
  "tests check few axes",
  ["src/linspace.rs", "src/ionex/mod.rs", "src/ionex/quantized.rs", "src/ionex/coordinates.rs"],
  [("axis", "src/linspace.rs"), ("quantisation", "src/ionex/quantized.rs")]),
P("P30", "Multipath and TEC estimates follow their definitions",
  "For every record, signals_multipath contains exactly one value per epoch, satellite, phase whose pseudo range of the same three-character code was observed at that epoch, and other phase of that satellite on another carrier, equal to rho_i - phi_i - 2 fj^2/(fi^2 - fj^2) (phi_i - phi_j), phases in metres. observation_dual_phase_ionosphere_tec contains exactly one value per epoch marked OK, satellite, phase on the L1, E1 or B1C band and other phase of that satellite on another carrier, equal to 1/40.308 fi^2 fj^2/(fi^2 - fj^2) |Li - Lj| of the phases as recorded. This holds whatever the order of the signals, the event flags, the gaps, the sampling interval, and at the first and last epochs.",
  ["inputs", "histories"], "all presence patterns, orders and histories of bounded records",
  "the multipath test is ignored, the TEC test looks at three epochs of one file",
  ["src/observation/rinex/feature.rs", "src/observation/rinex/tec.rs", "src/observation/signal.rs"],
  [("multipath", "src/observation/rinex/feature.rs signals_multipath"), ("TEC", "src/observation/signal.rs tec_estimate")]),
P("P31", "Satellite clock correction, validity and line of sight follow their definitions",
  "For every ephemeris and instant from its time of clock on, in any time scale, clock_correction is the broadcast polynomial a0 + a1 dt + a2 dt^2 to 2 ns, where dt is the time elapsed since the time of clock, corrected for the satellite clock itself by the requested number of fixed point iterations; there is none before the time of clock. is_valid is true exactly within the validity period of the constellation that follows the time of ephemeris (GPS, QZSS and NavIC 2 h, Galileo 3 h, BeiDou 6 h, GLONASS 30 min, SBAS one day; both ends left open), whatever the time scales. elevation_azimuth_range gives the elevation and azimuth (from North, clockwise) at which the receiver sees the satellite above the plane normal to its geodetic vertical, and their distance; nav_azimuth_elevation_range gives the same for the position of the message that nav_ephemeris_selection selects.",
  ["inputs"], "all bounded grids of coefficients, instants, scales, positions and directions",
  "none of these functions is tested",
  ["src/navigation/ephemeris/mod.rs", "src/navigation/rinex/feature.rs"],
  [("clock polynomial, validity, line of sight", "src/navigation/ephemeris/mod.rs")]),
P("P32", "Objects built through the API hold exactly what they were given",
  "Whatever the sequence of builder calls (with_*, replace_*) on a header, file, receiver, antenna, sensor, marker, leap second, CRINEX, IONEX or ANTEX description, signal, receiver clock or ephemeris, the result differs from the original in the named fields only, which hold what was given, and the original is unchanged; the basic_* constructors describe files of the type they are named after. Accessors that give a view of a value (orbital elements, items as integers, frames, ionosphere models, marker numbers, positions in kilometres) give that value or nothing: never another one, and a receiver clock's drift is the difference of successive offsets over the time between them.",
  ["inputs", "histories"], "all sequences of operations up to a depth, all starting points",
  "a handful of single calls",
  ["src/header/mod.rs", "src/lib.rs", "src/hardware.rs", "src/ionex/header.rs", "src/meteo/sensor.rs", "src/navigation/ephemeris/mod.rs", "src/navigation/orbits.rs", "src/observation/clock.rs"],
  [("builders", "src/header/mod.rs with_*"), ("orbit items", "src/navigation/orbits.rs as_*")]),
P("P33", "Whatever has been read can be used without crashing",
  "For every content the reader accepts, however damaged, every public accessor, iterator, statistic, combination, orbit or clock computation, conversion between RINEX and CRINEX, file name and formatter that applies to a file of that type returns (a value, nothing or an error): none panics, and every iterator ends. Functions documented to panic on a file of another type are excepted.",
  ["inputs", "histories"], "every bounded modification (word, columns, line, header line, blocks, header of one type with the body of another) of a small file of every type",
  "tests use the functions on a few well formed files",
  ["src/lib.rs", "src/sampling.rs", "src/iterators.rs", "src/observation/rinex/feature.rs", "src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/production/mod.rs", "src/header/formatting.rs"],
  [("accessors", "src/lib.rs, src/*/rinex/*.rs"), ("clock correction", "src/navigation/ephemeris/mod.rs clock_correction"), ("file names", "src/lib.rs standard_filename")]),
]

MC = "explicit-state lock-step exploration of the real code against a reference model (exhaustive, bounded)"
EX = "exhaustive bounded enumeration of the real code's executions against an independent reference model"
FE = "exhaustive enumeration of fault points on the real read/write path"
BUILT = {
 "P02": ("model_checking", MC, "Every history of the stated shapes (rising, setting, missing, flags, clock offsets, events, time steps, arc orders, full or differenced epoch lines) is compressed by an independent reference compressor and given to Decompressor and Rinex::parse; the recovered text and the record are compared with the history. The reference was compared with real CRINEX / RINEX pairs of test_resources. Longer histories and more than two simultaneously varying satellites are not covered."),
 "P03": ("model_checking", MC, "Every history of the stated shapes is read, converted with rnx2crnx, written, decoded by an independent strict CRINEX decoder and read back by the library, and compared with the history. Records that were not obtained by reading a file are not covered."),
 "P04": ("model_checking", MC, "Every RINEX 3 file of the stated shapes, written by an independent writer from the column tables, is read and compared item by item; one known finding (pseudo-observables I1..I9)."),
 "P05": ("model_checking", MC, "Every RINEX 2 file of the stated shapes, written by an independent writer from the column tables, is read and compared item by item."),
 "P06": ("model_checking", MC, "Every observation file of the stated shapes is read, written by the library, read again by an independent strict column reader and by the library, and rewritten (fixed point). Records that were not obtained by reading a file, and event records (not supported by the library) are not covered."),
 "P01": ("model_checking", MC, "Every reachable (order, arc position, recent samples) state of the kernels within the bound is driven through compressor and decompressor and compared step by step with integer/string reference models; samples outside the value alphabet and i64 overflow are not covered."),
}
BUILT["P14"] = ("model_checking", MC, "Every meteo file of the stated shapes, written by an independent writer, is read, written, read by an independent strict column reader and by the library. Longer histories and sub-second epochs (the format has none) are not covered.")
BUILT["P15"] = ("model_checking", MC, "Every clock file of the stated shapes, written by an independent writer, is read and compared item by item. Duplicate keys (the last line wins) and other data kinds are not covered.")
BUILT["P10"] = ("model_checking", MC, "Every navigation file of the stated shapes, written by an independent writer from hand-transcribed message tables, is read and compared field by field. Field values outside the alphabets, more than two omitted fields on different lines, NavIC (no table in the library) and the fourth GLONASS line of 3.05 are not covered; null fields may be absent.")
BUILT["P11"] = ("model_checking", MC, "Every sequence of system messages of the stated shapes is written by an independent writer, read and compared field by field; one known finding (order of the fields of STO messages, pinned by an existing test).")
BUILT["P12"] = ("model_checking", MC, "Every sequence of messages of the stated shapes is written, read and queried at every instant around the edges of validity of every message, and compared with a selection over integers. The instants that are exactly an edge are not specified. GLONASS messages are never selected by the library and are not covered.")
BUILT["P13"] = ("model_checking", EX, "Every combination of the stated grids of orbital elements, corrections and elapsed times is propagated by the library and by an independent transcription of the interface documents; the wild-input scope checks totality. Elements between the grid points, SBAS/GLONASS integration and relativistic clock terms are not covered.")
BUILT["P16"] = ("model_checking", MC, "Every IONEX file of the stated shapes (grids, exponents, maps and their order, rows), written by an independent writer, is read and compared node by node; one known finding (a TEC map that no other one follows is lost, pinned by existing tests). Height maps and 3D grids beyond the stated ones are not covered.")
BUILT["P17"] = ("model_checking", MC, "Every DORIS file of the stated shapes (presence patterns, numbers of observables, values, flags, clocks, station numbers, epochs), written by an independent writer, is read and compared item by item. Writing (unfinished in the library) is not covered.")
BUILT["P18"] = ("model_checking", MC, "Every ANTEX file of the stated shapes, written by an independent writer, is read, compared item by item and queried around every bound of validity; one known finding (order of the fields of the calibration date, pinned by an existing test). Azimuth dependent patterns and RMS sections are skipped by the library (documented).")
BUILT["P19"] = ("model_checking", EX, "Every two-chunk split, every regular chunk size, interruptions at every read, line ends and gzip member layouts of one small file per type, and every short-write pattern of the stated shapes. Writers: observation, meteo, navigation and clock files; the IONEX, DORIS and ANTEX formatters of the library are unfinished and not covered.")
BUILT["P20"] = ("model_checking", FE, "An error is injected at every byte read and every byte written of one small file per type; gzip files are cut at every byte and every byte is corrupted. Errors in the middle of a multi-file or multi-thread operation do not exist in this library.")
BUILT["P21"] = ("model_checking", FE, "One small file per type is cut at every byte, LF and CR LF; every epoch that was complete before the cut has to be there unchanged.")
BUILT["P22"] = ("model_checking", EX, "Every single mutation of the stated kinds (bytes, trims, shifts, lines, fields, header labels, splices) of one small file per type, every pair of line mutations, and (thorough) every pair of nearby byte substitutions. Files of other shapes, and more than two simultaneous mutations, are not covered.")
BUILT["P28"] = ("model_checking", EX, "One comment, of every stated text, at every line of one small file per type, and pairs of comments at every pair of lines.")
BUILT["P08"] = ("model_checking", EX, "Every supported line of observation (2.11, 3.04), navigation (2.11, 3.04), meteo, clock, IONEX, DORIS and ANTEX headers over a value alphabet, every ordered pair of values, a full header with every line moved to every place, every order of marker and antenna lines, lists of every length up to 40 and every spelling of the version line. The observables, stations and antennas in their records: P16-P18. Differential code biases of IONEX headers are not supported by the library.")
BUILT["P09"] = ("model_checking", EX, "Every field in every value of a list, every pair of values, every full header with one field varied and one removed; lists up to 40 items; texts up to 200 characters. Coefficients of RINEX 2 and 3 navigation headers and the station lines of clock headers, which the formatter does not write, are outside the statement.")
BUILT["P07"] = ("model_checking", EX, "Every combination of record type, version, satellite system and declared time scale over instants around leap seconds and calendar boundaries; every date of the stated years, every value of each field, fractions of up to two non null digits; own calendar and table of leap seconds. The inserted second itself (23:59:60), which Hifitime cannot represent, and files of NavIC alone without declared time scale are outside.")
BUILT["P29"] = ("model_checking", EX, "Axes of the stated alphabets (read from an IONEX header, or built), every node and 7 points of every step; coordinates and contents of the stated digits and ranges. Points outside an axis are unspecified. One known finding (number of nodes, pinned by an existing test).")
BUILT["P27"] = ("model_checking", EX, "Complete domains: every text of one to three letters or digits as an observable and on every constellation, every carrier and GLONASS channel, every token of every enumeration, every version of two digits (thorough: of one byte), every DORIS frequency factor. Two-character codes that RINEX 2.11 does not define are left open.")
BUILT["P24"] = ("model_checking", MC, 'Every sequence of up to 5 epoch steps over 4 (thorough: 6) step lengths for all record types with one or several entries per epoch, and longer records (12, thorough 16 epochs) with every one or two irregular steps. Which of two equally frequent intervals is dominant is not specified.')
BUILT["P25"] = ("model_checking", EX, 'Every subset of 7 (thorough: 9) signals in each of two epochs with all epoch flags, every lock indicator and strength, every subset of 10 meteo observables, 12 navigation messages, 12 clock profiles, 8 DORIS observables, header compensations, and every type queried with the iterators of every other. Phase tracking under anti spoofing alone, epochs left empty by a mask, and whether strengths have a carrier are left open. IONEX and ANTEX queries are decided by P16 and P18.')
BUILT["P26"] = ("model_checking", MC, 'records built for all bounded presence patterns, orders and histories; combinations and differences compared with loops over pairs')
BUILT["P23"] = ("model_checking", MC, 'names built from all combinations of fields, read, compared and generated again; records of all days of several years named and compared with an own calendar')
BUILT["P30"] = ("model_checking", MC, 'Every presence pattern of up to four epochs, order of signals and LLI history of the stated alphabets, each through Rinex::the public estimators (code multipath, TEC) against the definition. Two lock-loss flags at one instant and the TEC of GLONASS / BeiDou B1I are unspecified.')
BUILT["P31"] = ("model_checking", EX, 'Every clock polynomial, age, iteration count, validity instant and receiver / satellite geometry of the stated alphabets against an independent computation. The two ends of a validity period are unspecified.')
BUILT["P32"] = ("model_checking", MC, 'Every sequence of builder calls up to the stated depth from every starting point is compared with a model that assigns the named fields; accessors over complete small domains and lists of others. Builders of types that are not exported are not covered.')
BUILT["P33"] = ("model_checking", EX, 'Every bounded modification of a small file of every type that the reader accepts is handed to every public use of its type; all must return and all iterators end. File names of clock, DORIS and ANTEX files (finding of P23) are excepted.')
NA = {}
FIXES = {}
