@source command/src/bin/gc-init.rs
@broadcast lean
@items
use crate::graph_utils::*;
@fn main
@cli
@closure 1 Option<&str>
ensures __r == Some(".")
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(touched(log_of(if args.texts("path"@).len() > 0 { args.texts("path"@)[0]@ } else { "."@ })));
