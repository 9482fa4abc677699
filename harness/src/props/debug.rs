//! C28: builds with overflow checks and debug assertions behave in the same way.

use std::sync::Arc;

use serde::{Deserialize, Serialize};

use crate::driver::*;
use crate::props;

/// whether this program has been built in that way
pub const CHECKED: bool = cfg!(debug_assertions);

macro_rules! any {
    ($($name:ident: $p:path, $share:expr;)*) => {
        /// A case of another property.
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub enum Any {
            $($name(<$p as Property>::C),)*
        }

        impl Case for Any {
            fn shrinks(&self) -> Box<dyn Iterator<Item = Self> + '_> {
                match self {
                    $(Any::$name(c) => Box::new(c.shrinks().map(Any::$name)),)*
                }
            }
        }

        fn all_strata(tier: Tier) -> Vec<Stratum<Any>> {
            let mut v: Vec<Stratum<Any>> = vec![];
            $(
                for s in <$p as Property>::strata(tier) {
                    let scale = <$p as Property>::SCALE as f64 * $share;
                    match s.source {
                        Source::Random(f) => v.push(Stratum {
                            name: Box::leak(format!("{}: {}", <$p as Property>::ID, s.name).into_boxed_str()),
                            cases: ((s.cases as f64 * scale) as u64).max(8),
                            source: Source::Random(Arc::new(move |r: &mut R| Any::$name(f(r)))),
                        }),
                        // complete enumerations are left to the other properties
                        Source::All(_) => {}
                    }
                }
            )*
            v
        }

        fn check_any(case: &Any, t: &mut Tally) -> Result<(), String> {
            match case {
                $(Any::$name(c) => <$p as Property>::check(c, t),)*
            }
        }
    };
}

any! {
    Weights: props::routing::C01, 0.05;
    Paths: props::routing::C02, 0.03;
    Parameters: props::routing::C03, 0.05;
    Orders: props::routing::C04, 0.05;
    Refused: props::misuse::C05, 0.05;
    Lists: props::multi::C06, 0.05;
    Forms: props::multi::C07, 0.05;
    Histories: props::history::C08, 0.05;
    Inputs: props::input::C09, 0.05;
    Written: props::serial::C11, 0.05;
    Narrow: props::serial::C12, 0.05;
    Text: props::files::C13, 0.02;
    Dimacs: props::files::C14, 0.02;
    Misuse: props::misuse::C16, 0.05;
    Extreme: props::extreme::C17, 0.4;
    Long: props::extreme::C18, 0.05;
    Shortcuts: props::sparse::C20, 0.05;
    Sessions: props::session::C21, 0.08;
    Copies: props::input::C23, 0.05;
}

pub struct C28;
impl Property for C28 {
    type C = Any;
    const ID: &'static str = "C28";
    const RULE: &'static str = "cases of the properties C01 to C09, C11 to C14, C16 to C18, C20, C21 and C23, decided by their oracles, in a build of library and harness with overflow checks and debug assertions (as in a debug build, but optimised); more of those with weights close to the largest number. Non-trivial: as for the property that the case belongs to";
    fn strata(tier: Tier) -> Vec<Stratum<Any>> {
        all_strata(tier)
    }
    fn check(case: &Any, t: &mut Tally) -> Result<(), String> {
        if !CHECKED {
            eprintln!("error: this program was not built with the profile `checked`");
            std::process::exit(2);
        }
        check_any(case, t)
    }
}
