//! Listed findings: probed again by every check of their property.
use crate::ops::Scenario;
use crate::props::{c06, c11};
use crate::props::common::Violation;

pub struct Finding {
    pub key: &'static str,
    pub what: &'static str,
    pub scenario: Scenario,
    /// Beginning of the violation class.
    pub class: &'static str,
}

impl Finding {
    pub fn is(&self, v: &Violation) -> bool {
        v.class.starts_with(self.class)
    }
}

/// Is the finding listed in the committed file?
pub fn listed(key: &str) -> bool {
    let path = std::env::var("SIM_FINDINGS").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .any(|l| l.starts_with("KNOWN-FINDING:") && l.split_whitespace().any(|w| w == format!("key={key}")))
}

/// First number of a plan that reports listed findings, too.
pub const PROBE: u64 = u64::MAX;

pub fn of(prop: &str) -> Vec<Finding> {
    match prop {
        "C06" => vec![Finding {
            key: c06::D7,
            what: "decode_as_unchecked_extrinsic accepts bytes left over after the call inside the declared length of \
                   the extrinsic (key D7)",
            scenario: c06::finding_scenario(),
            class: "unchecked_extrinsic: surplus inside the declared length accepted",
        }],
        "C11" => vec![
            Finding {
                key: c11::D5,
                what: "a sequence or array of elements that take no bytes (Vec<()>) is expanded element by element: four bytes of \
                       data make the decoder use unlimited time and memory (key D5)",
                scenario: c11::finding_d5(),
                class: "uses unlimited memory",
            },
            Finding {
                key: c11::D6,
                what: "types nested through themselves are decoded by recursion without limit: a record of 100 kB nested \
                       100 000 deep overflows a stack of 8 MB and aborts the program (key D6)",
                scenario: c11::finding_d6(),
                class: "process died",
            },
        ],
        _ => vec![],
    }
}

/// Listed finding responsible for the death of the run, if that is certain.
pub fn attributed(_scn: &Scenario, _how: &str) -> Option<&'static str> {
    None
}
