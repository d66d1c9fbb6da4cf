//! Drives the real code in /repo through its public API.
use crate::refimpl::*;
use norm::fzf::{FzfDistance, FzfParser, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};
use std::ops::Range;

pub fn scheme(s: SchemeKind) -> FzfScheme {
    match s {
        SchemeKind::Default => FzfScheme::Default,
        SchemeKind::Path => FzfScheme::Path,
        SchemeKind::History => FzfScheme::History,
    }
}

pub fn case(c: Case) -> CaseSensitivity {
    match c {
        Case::Sensitive => CaseSensitivity::Sensitive,
        Case::Insensitive => CaseSensitivity::Insensitive,
        Case::Smart => CaseSensitivity::Smart,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Set {
    Scheme(SchemeKind),
    Case(Case),
    Norm(bool),
}

/// One metric of each kind and a parser, all reused over a history.
pub struct Real {
    pub v1: FzfV1,
    pub v2: FzfV2,
    pub parser: FzfParser,
    pub cfg: Config,
    /// every query, and every candidate, is passed from the same memory
    qbuf: String,
    cbuf: String,
}

fn again<'a>(buf: &'a mut String, s: &str) -> &'a str {
    buf.clear();
    buf.push_str(s);
    buf
}

impl Real {
    pub fn new(algo: Algo) -> Self {
        Real {
            v1: FzfV1::new(),
            v2: FzfV2::new(),
            parser: FzfParser::new(),
            cfg: Config { algo, scheme: SchemeKind::Default, case: Case::Smart, norm: false },
            qbuf: String::with_capacity(256),
            cbuf: String::with_capacity(256),
        }
    }

    pub fn configured(cfg: Config) -> Self {
        let mut r = Self::new(cfg.algo);
        r.set(&[Set::Scheme(cfg.scheme), Set::Case(cfg.case), Set::Norm(cfg.norm)]);
        r
    }

    pub fn cloned(&self) -> Self {
        Real {
            v1: self.v1.clone(),
            v2: self.v2.clone(),
            parser: self.parser.clone(),
            cfg: self.cfg,
            qbuf: self.qbuf.clone(),
            cbuf: self.cbuf.clone(),
        }
    }

    /// Applies the setters as one chain, through the reference they return.
    pub fn set(&mut self, sets: &[Set]) {
        macro_rules! go {
            ($m:expr) => {{
                let mut m = $m;
                for s in sets {
                    m = match *s {
                        Set::Scheme(s) => m.set_scoring_scheme(scheme(s)),
                        Set::Case(c) => m.set_case_sensitivity(case(c)),
                        Set::Norm(n) => m.set_candidate_normalization(n),
                    };
                }
                let _ = m;
            }};
        }
        match self.cfg.algo {
            Algo::V1 => go!(&mut self.v1),
            Algo::V2 => go!(&mut self.v2),
        }
        for s in sets {
            match *s {
                Set::Scheme(s) => self.cfg.scheme = s,
                Set::Case(c) => self.cfg.case = c,
                Set::Norm(n) => self.cfg.norm = n,
            }
        }
    }

    pub fn dist(&mut self, ext: bool, q: &str, c: &str) -> Option<FzfDistance> {
        let (q, c) = (again(&mut self.qbuf, q), again(&mut self.cbuf, c));
        let q = if ext { self.parser.parse(q) } else { self.parser.parse_not_extended(q) };
        match self.cfg.algo {
            Algo::V1 => self.v1.distance(q, c),
            Algo::V2 => self.v2.distance(q, c),
        }
    }

    pub fn distance(&mut self, ext: bool, q: &str, c: &str) -> Option<i64> {
        self.dist(ext, q, c).map(|d| d.into_score())
    }

    pub fn ranges(&mut self, ext: bool, q: &str, c: &str, buf: &mut Vec<Range<usize>>) -> Option<i64> {
        let (q, c) = (again(&mut self.qbuf, q), again(&mut self.cbuf, c));
        let q = if ext { self.parser.parse(q) } else { self.parser.parse_not_extended(q) };
        match self.cfg.algo {
            Algo::V1 => self.v1.distance_and_ranges(q, c, buf),
            Algo::V2 => self.v2.distance_and_ranges(q, c, buf),
        }
        .map(|d| d.into_score())
    }

    /// `clock(what, true)` right before, `clock(what, false)` right after: 0 is parsing, 1 the distance.
    pub fn timed(
        &mut self,
        ext: bool,
        q: &str,
        c: &str,
        buf: Option<&mut Vec<Range<usize>>>,
        clock: &mut dyn FnMut(usize, bool),
        matched: &mut bool,
    ) {
        clock(0, true);
        let q = if ext { self.parser.parse(q) } else { self.parser.parse_not_extended(q) };
        clock(0, false);
        clock(1, true);
        let d = match (self.cfg.algo, buf) {
            (Algo::V1, None) => self.v1.distance(q, c),
            (Algo::V2, None) => self.v2.distance(q, c),
            (Algo::V1, Some(b)) => self.v1.distance_and_ranges(q, c, b),
            (Algo::V2, Some(b)) => self.v2.distance_and_ranges(q, c, b),
        };
        clock(1, false);
        *matched = d.is_some();
    }
}
