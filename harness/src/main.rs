//! Harnesses: each `h_*` function states one property over the library's public API.
mod ty;
mod vp;
mod util;
mod model;
mod dist;
mod refint;
mod parse;
mod sym;
mod flaky;
mod large;
#[cfg(feature = "p01")]
mod p01;
#[cfg(feature = "p02")]
mod p02;
#[cfg(feature = "p03")]
mod p03;
#[cfg(feature = "p04")]
mod p04;
#[cfg(feature = "p05")]
mod p05;
#[cfg(feature = "p06")]
mod p06;
#[cfg(feature = "p08")]
mod p08;
#[cfg(feature = "p07")]
mod p07;
#[cfg(feature = "p09")]
mod p09;
#[cfg(feature = "p10")]
mod p10;
#[cfg(feature = "p11")]
mod p11;
#[cfg(feature = "p12")]
mod p12;
#[cfg(feature = "p13")]
mod p13;
#[cfg(feature = "p14")]
mod p14;
#[cfg(feature = "p15")]
mod p15;
#[cfg(feature = "p16")]
mod p16;
#[cfg(feature = "p17")]
mod p17;
#[cfg(feature = "p22")]
mod p22;
#[cfg(feature = "p23")]
mod p23;
#[cfg(feature = "p18")]
mod p18;
#[cfg(feature = "p19")]
mod p19;
#[cfg(feature = "p20")]
mod p20;
#[cfg(feature = "p21")]
mod p21;
#[cfg(feature = "p24")]
mod p24;
#[cfg(feature = "p25")]
mod p25;

/// Exported entry points; each property's module is behind a feature of its own.
macro_rules! exports {
    ($($feat:literal: $n:ident => $f:path),* $(,)?) => {
        $(#[cfg(feature = $feat)] #[unsafe(no_mangle)] pub extern "C" fn $n() { $f() })*
        #[allow(dead_code)]
        pub static TABLE: &[(&str, extern "C" fn())] = &[$(#[cfg(feature = $feat)] (stringify!($n), $n as extern "C" fn())),*];
    };
}

exports! {
    "p01": h_p01 => p01::h_p01,
    "p02": h_p02 => p02::h_p02,
    "p02": h_p02_types => p02::h_p02_types,
    "p03": h_p03 => p03::h_p03,
    "p04": h_p04 => p04::h_p04,
    "p05": h_p05 => p05::h_p05,
    "p05": h_p05_written => p05::h_p05_written,
    "p06": h_p06 => p06::h_p06,
    "p08": h_p08 => p08::h_p08,
    "p07": h_p07 => p07::h_p07,
    "p09": h_p09 => p09::h_p09,
    "p09": h_p09_incremental => p09::h_p09_incremental,
    "p10": h_p10 => p10::h_p10,
    "p11": h_p11 => p11::h_p11,
    "p11": h_p11_string => p11::h_p11_string,
    "p12": h_p12 => p12::h_p12,
    "p12": h_p12_kinds => p12::h_p12_kinds,
    "p12": h_p12_multi => p12::h_p12_multi,
    "p12": h_p12_names => p12::h_p12_names,
    "p13": h_p13 => p13::h_p13,
    "p14": h_p14 => p14::h_p14,
    "p14": h_p14_types => p14::h_p14_types,
    "p14": h_p14_props => p14::h_p14_props,
    "p14": h_p14_big => p14::h_p14_big,
    "p15": h_p15 => p15::h_p15,
    "p15": h_p15_change => p15::h_p15_change,
    "p15": h_p15_multi => p15::h_p15_multi,
    "p16": h_p16_raw => p16::h_p16_raw,
    "p16": h_p16_tail => p16::h_p16_tail,
    "p16": h_p16 => p16::h_p16,
    "p17": h_p17 => p17::h_p17,
    "p22": h_p22_read => p22::h_p22_read,
    "p22": h_p22_write => p22::h_p22_write,
    "p22": h_p22_big => p22::h_p22_big,
    "p23": h_p23_open => p23::h_p23_open,
    "p23": h_p23_read => p23::h_p23_read,
    "p23": h_p23_write => p23::h_p23_write,
    "p18": h_p18 => p18::h_p18,
    "p19": h_p19 => p19::h_p19,
    "p19": h_p19_writer => p19::h_p19_writer,
    "p20": h_p20 => p20::h_p20,
    "p20": h_p20_two => p20::h_p20_two,
    "p20": h_p20_parse => p20::h_p20_parse,
    "p21": h_p21 => p21::h_p21,
    "p21": h_p21_foreign => p21::h_p21_foreign,
    "p24": h_p24_create => p24::h_p24_create,
    "p24": h_p24_load => p24::h_p24_load,
    "p25": h_p25_to_calendar => p25::h_p25_to_calendar,
    "p25": h_p25_from_calendar => p25::h_p25_from_calendar,
    "p25": h_p25_other => p25::h_p25_other,
    "p25": h_p25_round => p25::h_p25_round,
    "p07": h_p07_text => p07::h_p07_text,
    "p01": h_p01_large => large::live,
    "p02": h_p02_large => large::reopened,
    "p03": h_p03_large => large::live,
    "p04": h_p04_large => large::appended,
    "p05": h_p05_large => large::starts,
    "p08": h_p08_large => large::chunks,
    "p09": h_p09_large => large::chunks,
    "p09": h_p09_objects_large => large::described,
    "p10": h_p10_large => large::described,
    "p18": h_p18_large => large::cut,
    "p12": h_p12_large => large::reopened,
    "p21": h_p21_large => large::channels,
    "p20": h_p20_large => p20::h_p20_large,
    "p14": h_p14_large => large::wellformed,
    "p06": h_p06_large => large::together,
    "p17": h_p17_paths => p17::h_p17_paths,
    "p16": h_p16_counts => p16::h_p16_counts,
    "p17": h_p17_counts => p17::h_p17_counts,
    "p06": h_p06_outputs => p06::h_p06_outputs,
    "p11": h_p11_string_large => p11::h_p11_string_large,
    "p03": h_p03_names => p03::h_p03_names,
    "p22": h_p22_text => p22::h_p22_text,
}

#[cfg(not(feature = "native"))]
fn main() {
    let n = std::env::args().count();
    TABLE[n % TABLE.len()].1();
}

/// vh ENTRY[:params] value...
#[cfg(feature = "native")]
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (name, params) = match a[0].split_once(':') {
        Some((n, p)) => (n.to_string(), p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect()),
        None => (a[0].clone(), vec![]),
    };
    vp::PARAMS.with(|x| *x.borrow_mut() = params);
    // values follow on the command line, or are in the file named after '@'
    let text = match a.get(1) {
        Some(s) if s.starts_with('@') => std::fs::read_to_string(&s[1..]).expect("read inputs"),
        _ => a[1..].join(" "),
    };
    vp::INPUTS.with(|i| {
        for x in text.split_whitespace() {
            i.borrow_mut().push_back(x.parse::<u128>().expect("value"));
        }
    });
    std::panic::set_hook(Box::new(|p| {
        let l = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        vp::say(&format!("PANIC {l}"));
        vp::flush();
        eprintln!("{p}");
        std::process::exit(1);
    }));
    let f = TABLE.iter().find(|x| x.0 == name).expect("entry").1;
    f();
    vp::say("END");
    vp::flush();
}
