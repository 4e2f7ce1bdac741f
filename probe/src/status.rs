use std::fmt::{self, Display};

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog,
    ValidationReport,
};
use serde_json::Value;

use crate::{arr, num, text, Out};

macro_rules! entry {
    ($name:ident { $($f:ident),* }) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
        #[derive(serde::Serialize, serde::Deserialize)]
        struct $name { $($f: u32),* }
        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, stringify!($name))?;
                $(write!(f, " {}", self.$f)?;)*
                Ok(())
            }
        }
    };
}
entry!(Failure { no });
entry!(Warning { no });
entry!(Info { no });
entry!(Issue { seal, no });
impl std::error::Error for Issue {}
impl std::error::Error for Failure {}
impl ValidationLog for Issue {}
impl ValidationLog for Failure {}
impl ValidationFailure for Failure {}
impl SealIssue for Issue {
    type Seal = u32;
    fn seal(&self) -> &u32 { &self.seal }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Report;
impl ValidationReport for Report {
    type SealIssue = Issue;
    type Failure = Failure;
    type Warning = Warning;
    type Info = Info;
}
type St = Status<Report>;

/// [issues, failures, warnings, info], each a list of numbers
fn log(v: &Value) -> St {
    let list = |i: usize| arr(&arr(v)[i]).iter().map(|x| num(x) as u32);
    Status {
        seal_issues: list(0).map(|x| Issue { seal: x, no: x }).collect(),
        failures: list(1).map(|no| Failure { no }).collect(),
        warnings: list(2).map(|no| Warning { no }).collect(),
        info: list(3).map(|no| Info { no }).collect(),
    }
}
fn show(s: &St, out: &mut Out) {
    out.push(format!("{s:?}"));
    out.push(format!("{:?} {} {}", s.validity(), s.validity(), s.validity() as u8));
}

pub fn status(r: &[Value], out: &mut Out) {
    let mut s = St::new();
    for op in arr(&r[0]) {
        let op = arr(op);
        let no = op[1].as_u64().unwrap_or(0) as u32;
        match text(&op[0]) {
            "issue" => { s.add_seal_issue(Issue { seal: no, no }); }
            "failure" => { s.add_failure(Failure { no }); }
            "warning" => { s.add_warning(Warning { no }); }
            "info" => { s.add_info(Info { no }); }
            "from" => s += St::from_failure(Failure { no }),
            "collect" => s += (0..no % 5).map(|no| Failure { no }).collect::<St>(),
            "merge" => s += log(&op[1]),
            "into" => {
                let mut t = log(&op[1]);
                t += s;
                s = t;
            }
            x => panic!("{x}"),
        }
        show(&s, out);
    }
}

struct Item {
    log: St,
    seals: Vec<u32>,
}
struct Set {
    log: St,
    items: Vec<Item>,
}
impl<'a> ClientData<'a> for Item {
    type ValidationReport = Report;
    type SealIterator = std::slice::Iter<'a, u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.seals.iter() }
    fn validate_internal_consistency(&'a self) -> St { self.log.clone() }
}
impl<'a> ClientData<'a> for Set {
    type ValidationReport = Report;
    type SealIterator = std::slice::Iter<'a, u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator { [].iter() }
    fn validate_internal_consistency(&'a self) -> St { self.log.clone() }
}
impl<'a> ClientSideValidate<'a> for Set {
    type ValidationItem = Item;
    type ValidationIter = std::slice::Iter<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() }
}
struct Resolver {
    mode: u32,
    calls: u32,
}
impl SealResolver<u32> for Resolver {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &u32) -> Result<(), Issue> {
        self.calls += 1;
        if (self.calls + seal) % (self.mode % 4 + 1) == 1 { Err(Issue { seal: *seal, no: self.calls }) } else { Ok(()) }
    }
}

pub fn validate(r: &[Value], out: &mut Out) {
    let set = Set {
        log: log(&r[0]),
        items: arr(&r[1])
            .iter()
            .map(|i| {
                let i = arr(i);
                Item { log: log(&i[0]), seals: arr(&i[1]).iter().map(|x| num(x) as u32).collect() }
            })
            .collect(),
    };
    let mut resolver = Resolver { mode: num(&r[2]) as u32, calls: 0 };
    show(&set.client_side_validate(&mut resolver), out);
}
