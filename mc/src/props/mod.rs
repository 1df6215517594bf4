use crate::engine::*;

pub mod antex;
mod axes;
mod builders;
pub mod clk;
mod codes;
mod combine;
mod derived;
pub mod crinex;
pub mod doris;
pub mod hatanaka_kernels;
pub mod epochs;
pub mod header;
pub mod ionex;
pub mod kepler;
pub mod met;
pub mod names;
mod nav;
pub mod obs_read;
pub mod obs_write;
mod queries;
pub mod robust;
mod sampling;
mod uses;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub about: &'static str,
    pub assumes: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

pub const ALL: &[Prop] = &[
    Prop {
        id: "P01",
        level: "model_checking",
        about: "Lock-step exploration of the numerical and text differencing kernels of the CRINEX codec against integer / string reference models.",
        assumes: &[],
        run: hatanaka_kernels::run,
    },
    Prop {
        id: "P02",
        level: "model_checking",
        about: "Histories of epochs are compressed by an independent CRINEX 1 / 3 reference compressor; the decompressor's text and the reader's record are compared with the history.",
        assumes: &["The CRINEX format as transcribed in mc/src/model/obs.rs: flags of a satellite that was absent in the previous epoch restart from blanks."],
        run: crinex::run_decompress,
    },
    Prop {
        id: "P03",
        level: "model_checking",
        about: "Histories of epochs are read, compressed by the library and decoded again by an independent strict CRINEX decoder and by the library.",
        assumes: &["The CRINEX format as transcribed in mc/src/model/crx.rs."],
        run: crinex::run_lossless,
    },
    Prop {
        id: "P04",
        level: "model_checking",
        about: "Every RINEX 3 observation file of bounded shape, written from the column tables by an independent model, is read back and compared item by item.",
        assumes: &["The column tables of RINEX 3.04 as transcribed in mc/src/model/obs.rs."],
        run: obs_read::v3,
    },
    Prop {
        id: "P05",
        level: "model_checking",
        about: "Every RINEX 2 observation file of bounded shape, written from the column tables by an independent model, is read back and compared item by item.",
        assumes: &["The column tables of RINEX 2.11 as transcribed in mc/src/model/obs.rs."],
        run: obs_read::v2,
    },
    Prop {
        id: "P06",
        level: "model_checking",
        about: "Every observation file of bounded shape is read, written by the library, read by an independent strict reader and by the library, and written again.",
        assumes: &["The column tables of RINEX 2.11 and 3.04 as transcribed in mc/src/model/obsrd.rs."],
        run: obs_write::run,
    },
    Prop {
        id: "P07",
        level: "model_checking",
        about: "One epoch per file, of every record type, version, satellite system, declared time scale, over products of calendar and sub-second values, is read, compared to the nanosecond with an own calendar and leap second table, written and read back.",
        assumes: &["Hifitime's conversion of an Epoch to a TAI duration."],
        run: epochs::run,
    },
    Prop {
        id: "P08",
        level: "model_checking",
        about: "Every header line the library supports, in every value of a list, alone, in pairs, moved to every place of a complete header, and in every order with the lines that describe the same object, is read and compared field by field.",
        assumes: &["The column tables of RINEX 2.11, 3.04 and the RINEX clock format as transcribed in mc/src/props/header.rs."],
        run: header::run_read,
    },
    Prop {
        id: "P09",
        level: "model_checking",
        about: "Headers built in memory (every supported field in every value of a list, in pairs, in whole headers; lists across their wrapping boundaries; texts of every length) are written, their lines decoded by the column tables alone and compared with what the fields hold, and read back.",
        assumes: &["The column tables of RINEX 2.11, 3.04 and CRINEX as transcribed in mc/src/props/header.rs."],
        run: header::run_write,
    },
    Prop {
        id: "P10",
        level: "model_checking",
        about: "Every navigation file of bounded shape, written from the message tables by an independent model, is read and compared field by field.",
        assumes: &["The message tables of RINEX 2.11, 3.04 and 4.00 as transcribed in mc/src/model/nav.rs.", "A null field may be read as an absent one (the existing tests pin this)."],
        run: nav::ephemerides,
    },
    Prop {
        id: "P11",
        level: "model_checking",
        about: "Every sequence of RINEX 4 system messages of bounded length, written from the message tables by an independent model, is read and compared field by field.",
        assumes: &["The message tables of RINEX 4.00 as transcribed in mc/src/model/nav.rs."],
        run: nav::system,
    },
    Prop {
        id: "P12",
        level: "model_checking",
        about: "Every set of messages of bounded size is read from a file and queried at every instant around the edges of validity; the selection is compared with the set's.",
        assumes: &["Validity periods: GPS and QZSS 2 h, Galileo 3 h, BeiDou 6 h, as documented by the library; both ends of the period are unspecified."],
        run: kepler::selection,
    },
    Prop {
        id: "P13",
        level: "model_checking",
        about: "A grid of orbital elements, corrections and instants: positions and velocities are compared with an independent implementation of the interface documents' user algorithm.",
        assumes: &["The user algorithms as transcribed in mc/src/props/kepler.rs."],
        run: kepler::orbit,
    },
    Prop {
        id: "P14",
        level: "model_checking",
        about: "Every meteo file of bounded shape, written from the column tables by an independent model, is read, written, and read again by an independent strict reader and by the library.",
        assumes: &["The column tables of RINEX 2.11 and 3.04 as transcribed in mc/src/model/met.rs."],
        run: met::run,
    },
    Prop {
        id: "P15",
        level: "model_checking",
        about: "Every clock file of bounded shape, written from the column tables by an independent model, is read and compared item by item.",
        assumes: &["The column tables of Clock RINEX 3.00 and 3.04 as transcribed in mc/src/model/clk.rs."],
        run: clk::run,
    },
    Prop {
        id: "P16",
        level: "model_checking",
        about: "Every ionosphere map file of bounded shape, written from the column tables by an independent model, is read and compared node by node, through the record and the queries.",
        assumes: &["The column tables of IONEX 1.0 as transcribed in mc/src/model/ionex.rs; an EXPONENT line applies to the maps that follow it."],
        run: ionex::run,
    },
    Prop {
        id: "P17",
        level: "model_checking",
        about: "Every DORIS file of bounded shape, written from the column tables by an independent model, is read and compared item by item, through the record and the queries.",
        assumes: &["The column tables of DORIS RINEX 3.0 as transcribed in mc/src/model/doris.rs; scale factors are not applied by the reader."],
        run: doris::run,
    },
    Prop {
        id: "P18",
        level: "model_checking",
        about: "Every ANTEX file of bounded shape, written from the column tables by an independent model, is read and compared item by item, then queried at every instant around the bounds of validity.",
        assumes: &["The column tables of ANTEX 1.4 as transcribed in mc/src/model/antex.rs; validity bounds are taken as UTC, as the library does; azimuth dependent patterns are not supported by the library (documented)."],
        run: antex::run,
    },
    Prop {
        id: "P19",
        level: "model_checking",
        about: "A small file of every type is delivered in every two pieces, in every regular piece size, with interruptions, CR LF line ends, as plain, gzip and two-member gzip files; writable files are written to every kind of slow sink. The content has to be the same.",
        assumes: &["The sample files (mc/src/samples.rs, written by the models) reach the parsers' states that depend on how bytes arrive."],
        run: robust::transport,
    },
    Prop {
        id: "P20",
        level: "fault_enumeration",
        about: "The source fails after every byte, gzip files are cut or corrupted at every byte, sinks and files fail after every number of bytes: the caller has to get an error.",
        assumes: &["A file that cannot grow (RLIMIT_FSIZE) stands for a full disk."],
        run: robust::io_errors,
    },
    Prop {
        id: "P21",
        level: "fault_enumeration",
        about: "A small file of every type is cut after every byte; what precedes the cut has to be there, unchanged.",
        assumes: &["What the complete blocks hold is decided by P02-P18."],
        run: robust::truncation,
    },
    Prop {
        id: "P22",
        level: "fault_enumeration",
        about: "Small files of every type are damaged in every way of a list (bytes, lines, columns, words, splices): reading returns, it does not panic, overflow or loop.",
        assumes: &["The damages are those of single sites (pairs of lines in the thorough tier)."],
        run: robust::malformed,
    },
    Prop {
        id: "P23",
        level: "model_checking",
        about: "Names are built from all combinations of fields, read, compared with these fields and generated again; records are built for all days of several years and must be given the name an own calendar spells.",
        assumes: &["Short names: daily files (sequence 0). Sampling rates in seconds to days. Navigation files of systems for which RINEX 2 has no letter are left open."],
        run: names::run,
    },
    Prop {
        id: "P24",
        level: "model_checking",
        about: "Every bounded sequence of epoch steps, for every record type with one or several entries per epoch, is analyzed and compared with integer arithmetics over the list of epochs.",
        assumes: &["Hifitime adds durations to epochs exactly."],
        run: sampling::run,
    },
    Prop {
        id: "P25",
        level: "model_checking",
        about: "Every bounded record of each type is built, and each iterator and query is compared with plain loops over the list of items the record was built from.",
        assumes: &[],
        run: queries::run,
    },
    Prop {
        id: "P26",
        level: "model_checking",
        about: "Every bounded presence pattern, order, history and constellation of signals is built as a record; the combinations must be those of all pairs the oracle finds, with the values of the textbook formula, and no other; differences are compared with a loop over both lists.",
        assumes: &["GLONASS FDMA phases are scaled with the centre frequency of the band, as RINEX does not tell the channel in the signals.", "Values are compared within 10 micrometres."],
        run: combine::run,
    },
    Prop {
        id: "P27",
        level: "model_checking",
        about: "The complete finite domains of codes and tokens: every text of one to three characters as an observable, its carrier in every constellation, every carrier and channel, every token, every version; compared with tables of the standards.",
        assumes: &["The tables of observation codes of RINEX 2.11 and 3.05 as transcribed in mc/src/props/codes.rs; BeiDou codes of RINEX 2.12 and 3.02, which other revisions give another meaning, are left open."],
        run: codes::run,
    },
    Prop {
        id: "P28",
        level: "model_checking",
        about: "Comments of many kinds are inserted at every position (and every pair of positions) of a small file of every type; the content must be the same, the comments kept in order, those of the body under the epoch they follow.",
        assumes: &["In CRINEX, comments only exist in the header."],
        run: robust::comments,
    },
    Prop {
        id: "P29",
        level: "model_checking",
        about: "Every axis of a bounded alphabet (first node, increment, number of nodes, both directions), read from a header or built: its nodes, and the nodes around every point of it; every coordinate and content of bounded digits.",
        assumes: &["Points outside an axis are unspecified."],
        run: axes::run,
    },
    Prop {
        id: "P30",
        level: "model_checking",
        about: "Records of all bounded presence patterns, orders and histories; the estimates compared with loops over pairs of signals.",
        assumes: &["Two event flags at one instant are unspecified (the keys of the results do not tell them apart).", "TEC of GLONASS and BeiDou B1I unspecified."],
        run: derived::estimates,
    },
    Prop {
        id: "P31",
        level: "exploration",
        about: "Complete grids of clock polynomials, instants, time scales, numbers of iterations, constellations; of receiver positions and directions.",
        assumes: &["Neither end of the validity period is specified."],
        run: derived::satellites,
    },
    Prop {
        id: "P32",
        level: "model_checking",
        about: "The builders of each type are the operations of a state machine whose oracle assigns the named field; all sequences up to a depth from all starting points. Constructors, accessors, unit conversions and the receiver clock over complete grids and histories.",
        assumes: &["The drift of two offsets given for one instant is unspecified, but finite."],
        run: builders::run,
    },
    Prop {
        id: "P33",
        level: "model_checking",
        about: "Everything the reader accepts among systematic modifications of a small file of every type is handed to every public accessor, iterator, computation, conversion and formatter of its type: each must return, and every iterator end.",
        assumes: &["Functions documented to panic on a file of another type (observation_keys, navigation_keys, ionex_tec_maps_keys, ..) are only called on their own type."],
        run: uses::run,
    },
];

pub fn scopes(p: &Prop, tier: Tier) -> Vec<String> {
    let mut c = Ctx::new(tier);
    c.only = Some((String::new(), vec![]));
    (p.run)(&mut c);
    c.scope_names
}
