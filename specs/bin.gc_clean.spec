@source command/src/bin/gc-clean.rs
@broadcast lean
@items
use crate::graph_utils::*;
@fn main
@cli
@effect confirmation_yes_no => said_yes = $r;
@effect clean => assert($1@ == args.texts("path"@)[0]@); assert(args.has("force"@) || said_yes); cleaned = true;
@at entry
let ghost mut said_yes = false;
let ghost mut cleaned = false;
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.flag("force"@) && args.short("force"@) == "f"@);
assert(args.flag("silent"@) && args.short("silent"@) == "s"@);
assert(cleaned ==> removed(entry_of(args.texts("path"@)[0]@, GRAPH_ROOT_DIR@)));
assert(cleaned || !args.has("force"@) && !said_yes);
