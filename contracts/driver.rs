
// Appended to a copy of the extracted text (in place of its empty `main`) to
// run it: the text the verifier sees is compiled and compared with the real
// crate on generated calls.  No part of the verified text.
mod vxdriver {
    use crate::case_sensitivity::CaseSensitivity;
    use crate::metrics::fzf::fzf_v1::FzfV1;
    use crate::metrics::fzf::fzf_v2::FzfV2;
    use crate::metrics::fzf::parser::FzfParser;
    use crate::metrics::fzf::scheme::FzfScheme;
    use std::io::BufRead;
    use std::ops::Range;

    fn unhex(s: &str) -> String {
        let b: Vec<u8> =
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        String::from_utf8(b).unwrap()
    }

    macro_rules! on {
        ($m:expr, $sets:expr, $p:expr, $ext:expr, $q:expr, $c:expr, $buf:expr) => {{
            let mut m = &mut $m;
            for s in $sets {
                m = match *s {
                    "s0" => m.set_scoring_scheme(FzfScheme::Default),
                    "s1" => m.set_scoring_scheme(FzfScheme::Path),
                    "s2" => m.set_scoring_scheme(FzfScheme::History),
                    "c0" => m.set_case_sensitivity(CaseSensitivity::Sensitive),
                    "c1" => m.set_case_sensitivity(CaseSensitivity::Insensitive),
                    "c2" => m.set_case_sensitivity(CaseSensitivity::Smart),
                    "n1" => m.set_candidate_normalization(true),
                    _ => m.set_candidate_normalization(false),
                };
            }
            let q = if $ext { $p.parse($q) } else { $p.parse_not_extended($q) };
            let d = m.distance(q, $c).map(|d| d.into_score());
            let q = if $ext { $p.parse($q) } else { $p.parse_not_extended($q) };
            let r = m.distance_and_ranges(q, $c, $buf).map(|d| d.into_score());
            (d, r)
        }};
    }

    pub fn main() {
        let mut v2 = false;
        let (mut m1, mut m2, mut p) = (FzfV1::new(), FzfV2::new(), FzfParser::new());
        let stdin = std::io::stdin();
        let mut out = String::new();
        for l in stdin.lock().lines() {
            let l = l.unwrap();
            if let Some(a) = l.strip_prefix("algo ") {
                v2 = a == "V2";
                m1 = FzfV1::new();
                m2 = FzfV2::new();
                p = FzfParser::new();
            } else if let Some(rest) = l.strip_prefix("call ") {
                let mut f = std::collections::HashMap::new();
                for kv in rest.split_whitespace() {
                    let (a, b) = kv.split_once('=').unwrap();
                    f.insert(a, b);
                }
                let sets: Vec<&str> = f["sets"].split(',').filter(|x| !x.is_empty()).collect();
                let ext = f["ext"] == "1";
                let (q, c) = (unhex(f["q"]), unhex(f["c"]));
                let mut buf: Vec<Range<usize>> = f["pre"]
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (a, b) = x.split_once('-').unwrap();
                        a.parse().unwrap()..b.parse().unwrap()
                    })
                    .collect();
                let (d, r) = if v2 {
                    on!(m2, &sets, p, ext, &q, &c, &mut buf)
                } else {
                    on!(m1, &sets, p, ext, &q, &c, &mut buf)
                };
                out.push_str(&format!("{d:?} {r:?} {buf:?}\n"));
            }
        }
        print!("{out}");
    }
}
fn main() { vxdriver::main() }
