@source command/src/bin/gc-build.rs
@broadcast lean
@items
use crate::graph_utils::*;
use crate::format::gcmd::*;
use crate::format::utils::*;
@fn main
@cli
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(holds(log_of(args.texts("path"@)[0]@), gtx(), &graph));
