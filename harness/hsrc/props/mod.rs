use crate::engine::*;
mod arch;
mod bytes;
mod conn;
mod defaults;
mod hist;
mod names;
mod num;
#[cfg(feature = "std")]
mod sock;

const A_MOCK: &str = "the recording mock target and connection implement the public traits as documented and are deterministic";
const A_GEN: &str = "inputs outside the generated space (see rule and DESIGN.md) are not explored";

#[cfg(feature = "std")]
use conn::p41 as p41_std;
#[cfg(not(feature = "std"))]
fn p41_std(_: &mut Src, _: &mut Ctx) -> R { Ok(()) }
#[cfg(feature = "std")]
use sock::p36 as sock_p36;
#[cfg(not(feature = "std"))]
fn sock_p36(_: &mut Src, _: &mut Ctx) -> R { Ok(()) }

macro_rules! props { ($($id:literal $f:path, $q:expr, $t:expr, $rule:literal;)*) => {
    vec![$(Prop { id: $id, rule: $rule, quick: $q, thorough: $t, run: $f, findings: &[], assumptions: &[A_MOCK, A_GEN] }),*]
} }

/// P40: the guarantees of the others, judged on the build they are linked into (run.sh uses the one
/// without the standard library and allocator)
fn bare(s: &mut Src, c: &mut Ctx) -> R {
    const FS: &[(&str, fn(&mut Src, &mut Ctx) -> R)] = &[
        ("P01", bytes::p01), ("P02", bytes::p02), ("P03", hist::p03), ("P04", hist::p04), ("P05", hist::p05), ("P06", hist::p06),
        ("P07", hist::p07), ("P08", hist::p08), ("P09", hist::p09), ("P10", hist::p10), ("P11", hist::p11), ("P12", hist::p12),
        ("P13", hist::p13), ("P14", hist::p14), ("P15", hist::p15), ("P16", hist::p16), ("P17", hist::p17), ("P18", hist::p18),
        ("P19", hist::p19), ("P20", hist::p20), ("P21", hist::p21), ("P22", hist::p22), ("P23", hist::p23), ("P24", hist::p24),
        ("P25", hist::p25), ("P26", hist::p26), ("P27", hist::p27), ("P28", conn::p28), ("P31", num::p31), ("P32", conn::p32),
        ("P33", conn::p33), ("P34", hist::p34), ("P35", conn::p35), ("P37", hist::p37), ("P38", defaults::p38), ("P39", names::p39),
    ];
    let n = FS.len() as u64;
    let (id, f) = FS[(s.idx % n) as usize];
    s.idx /= n;
    c.label(id);
    f(s, c)
}

pub fn all() -> Vec<Prop> {
    let mut v = props! {
        "P01" bytes::p01, 250_000, 8_000_000, "a byte stream with at least one packet, run of acknowledgements or stray byte was fed and judged; distinct = distinct streams";
        "P02" bytes::p02, 1_600_000, 36_000_000, "at least one request of the session was accepted (something was written); distinct = distinct byte streams";
        "P03" hist::p03, 1_200_000, 24_000_000, "at least one request was judged for framing, acknowledgement, reply count and flushing; distinct = distinct configuration and request sequence";
        "P04" hist::p04, 450_000, 4_000_000, "the run-length encoded output contains at least one marker; distinct = distinct sessions";
        "P05" hist::p05, 800_000, 18_000_000, "a session with a no-ack request, or a session replayed in no-ack mode; distinct = distinct sessions";
        "P06" hist::p06, 600_000, 8_000_000, "at least one memory read was judged; distinct = distinct configuration and request sequence";
        "P07" hist::p07, 1_200_000, 24_000_000, "at least one memory write was judged; distinct = distinct configuration and request sequence";
        "P08" hist::p08, 1_200_000, 24_000_000, "at least one bulk register access was judged; distinct = distinct configuration and request sequence";
        "P09" hist::p09, 1_200_000, 24_000_000, "at least one single register access was judged; distinct = distinct configuration and request sequence";
        "P10" hist::p10, 1_200_000, 24_000_000, "at least one breakpoint request was judged; distinct = distinct configuration and request sequence";
        "P11" hist::p11, 1_200_000, 24_000_000, "at least one resume request was judged on a single-threaded target; distinct = distinct configuration and request sequence";
        "P12" hist::p12, 1_200_000, 24_000_000, "at least one resume request was judged on a multi-threaded target; distinct = distinct configuration and request sequence";
        "P13" hist::p13, 1_200_000, 24_000_000, "at least one stop report was judged; distinct = distinct configuration and request sequence";
        "P14" hist::p14, 1_200_000, 24_000_000, "at least one interrupt was judged; distinct = distinct configuration and request sequence";
        "P15" hist::p15, 1_200_000, 24_000_000, "at least one kill, detach or exit was judged; distinct = distinct configuration and request sequence";
        "P16" hist::p16, 900_000, 8_000_000, "at least one thread request was judged; distinct = distinct configuration and request sequence";
        "P17" hist::p17, 400_000, 6_000_000, "a feature negotiation was judged or every feature was probed; distinct = distinct feature sets and request sequences";
        "P18" hist::p18, 1_000_000, 24_000_000, "at least one unknown or unsupported request was judged, or a history was replayed with unknown requests inserted; distinct = distinct configuration and request sequence";
        "P19" hist::p19, 1_000_000, 24_000_000, "at least one object transfer was judged; distinct = distinct configuration and request sequence";
        "P20" hist::p20, 1_200_000, 24_000_000, "at least one host i/o request was judged; distinct = distinct configuration and request sequence";
        "P21" hist::p21, 1_200_000, 24_000_000, "at least one process control request was judged; distinct = distinct configuration and request sequence";
        "P22" hist::p22, 900_000, 24_000_000, "at least one monitor command was judged; distinct = distinct configuration and request sequence";
        "P23" hist::p23, 1_200_000, 24_000_000, "at least one system call catch request was judged; distinct = distinct configuration and request sequence";
        "P24" hist::p24, 1_200_000, 24_000_000, "at least one tracepoint definition request was judged; distinct = distinct configuration and request sequence";
        "P25" hist::p25, 1_000_000, 24_000_000, "at least one trace query was judged; distinct = distinct configuration and request sequence";
        "P26" hist::p26, 1_200_000, 24_000_000, "at least one register information request was judged; distinct = distinct configuration and request sequence";
        "P27" hist::p27, 1_200_000, 24_000_000, "at least one call of the target failed; distinct = distinct sequences of failing calls";
        "P28" conn::p28, 480_000, 12_000_000, "a connection failure was injected into a session; distinct = distinct failing operation and bytes written before";
        "P29" arch::p29, 1_600_000, 36_000_000, "a register block was encoded, decoded again, and an arbitrary block decoded; distinct = distinct blocks";
        "P30" arch::p30, 120_000, 1_500_000, "a register block was compared with the layout table and 64+ register numbers looked up; distinct = distinct blocks";
        "P31" num::p31, 1_200_000, 27_000_000, "a number was converted to bytes and back and an arbitrary byte string decoded, or at least one numeric field of a request or reply was judged; distinct = distinct values and request sequences";
        "P32" conn::p32, 800_000, 18_000_000, "a script with at least one stop or interrupt was run both ways; distinct = distinct scripts";
        "P33" conn::p33, 150_000, 2_000_000, "at least one request was judged and the session was repeated with every buffer variant and with logging; distinct = distinct configuration and request sequence";
        "P34" hist::p34, 1_200_000, 24_000_000, "at least one offsets, thread information or reverse execution request was judged; distinct = distinct configuration and request sequence";
        "P35" conn::p35, 240_000, 2_000_000, "the session was repeated through trait objects; distinct = distinct feature sets and connection operation sequences";
        "P36" sock_p36, 24_000, 100_000, "at least one peek, delayed read or large reply took place between other operations on a real socket pair; distinct = distinct operation sequences";
        "P37" hist::p37, 500_000, 8_000_000, "at least one target description read was judged; distinct = distinct configuration and request sequence";
        "P38" defaults::p38, 120_000, 4_000_000, "a session was run on a target that implements only mandatory methods and compared with one that spells the defaults out; distinct = distinct scripts and targets";
        "P39" names::p39, 1_600_000, 30_000_000, "a named value, conversion, owned copy or builder option was compared with its documentation; distinct = distinct values and options";
        "P40" bare, 800_000, 12_000_000, "the case is non-trivial for the guarantee it exercises, in the build without standard library and allocator; distinct = distinct for that guarantee";
        "P41" p41_std, 200_000, 6_000_000, "at least one packet was received and one sent while the trace was observed; distinct = distinct output streams";
    };
    for p in v.iter_mut() {
        if p.id == "P12" || p.id == "P40" { p.findings = hist::P12_FIND }
    }
    v
}
