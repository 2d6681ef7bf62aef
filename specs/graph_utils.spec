@source command/src/graph_utils.rs
@broadcast lean
@items
use crate::format::utils::*;
use crate::format::gcmd::*;
/// the command file of a graph
pub open spec fn log_of(root: Seq<char>) -> Seq<char> { entry_of(entry_of(root, GRAPH_ROOT_DIR@), COMMANDS_FILE@) }
/// the commands were appended to the command file
pub open spec fn logged(root: Seq<char>, cs: Seq<GraphCommand>) -> bool { written(log_of(root), Mode::Append, texts(gtx(), cs)) }
/// the graph is that of the command file
pub open spec fn loaded(root: Seq<char>, r: Result<DirectedGraph, String>) -> bool {
    r is Ok ==> exists|f: File| f.path() == log_of(root) && #[trigger] graph_result(f.lines(), gden(), com(), r)
}
/// the file is there, and what it held is kept
pub open spec fn touched(path: Seq<char>) -> bool { exists|f: File| #[trigger] kept(f, path) }
pub open spec fn kept(f: File, path: Seq<char>) -> bool { f.path() == path && f.mode() != Mode::Replace }
@fn init
ensures r is Ok ==> touched(log_of(root_dir@)),
@fn touch
ensures r is Ok ==> touched(path.txt()),
@closure 1 ()
ensures kept(__c1_0, path.txt()) ==> touched(path.txt())
@fn load_graph
ensures loaded(root_dir@, r), r is Ok ==> r->Ok_0.wf(),
@fn load_graph_from_path
ensures r is Ok ==> exists|f: File| f.path() == filepath.txt() && #[trigger] graph_result(f.lines(), gden(), com(), r), r is Ok ==> r->Ok_0.wf(),
@fn save_graph_as_commands
requires graph.wf(),
ensures r is Ok ==> holds(log_of(filepath@), gtx(), graph),
@fn with_lock
requires block.requires(()),
ensures r is Ok ==> block.ensures((), r),
@fn command_path
ensures r.txt() == log_of(root_dir@),
@fn apply_graph_commands
ensures r is Ok ==> logged(root_dir@, commands@),
@at entry
let ghost cs = commands@;
@closure 1 IoResult<()>
ensures __r is Ok ==> logged(root_dir@, cs),
@fn clean
ensures r is Ok ==> removed(entry_of(root_dir@, GRAPH_ROOT_DIR@)),
@closure 1 IoResult<()>
ensures __r is Ok ==> removed(entry_of(root_dir@, GRAPH_ROOT_DIR@)),
@fn root_path
ensures r.txt() == entry_of(root_dir@, GRAPH_ROOT_DIR@),
@fn add_vertex
ensures r is Ok ==> logged(root_dir@, seq![AddVertex(vid)]),
@at entry
proof { assert forall|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == 1 && cs[0] == AddVertex(vid) implies logged(root_dir@, seq![AddVertex(vid)]) by { assert(cs =~= seq![AddVertex(vid)]); } }
@fn add_edge
ensures r is Ok ==> logged(root_dir@, seq![AddEdge(src, dst)]),
@at entry
proof { assert forall|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == 1 && cs[0] == AddEdge(src, dst) implies logged(root_dir@, seq![AddEdge(src, dst)]) by { assert(cs =~= seq![AddEdge(src, dst)]); } }
@fn remove_vertex
ensures r is Ok ==> logged(root_dir@, seq![RemoveVertex(vid)]),
@at entry
proof { assert forall|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == 1 && cs[0] == RemoveVertex(vid) implies logged(root_dir@, seq![RemoveVertex(vid)]) by { assert(cs =~= seq![RemoveVertex(vid)]); } }
@fn add_vertices
ensures r is Ok ==> exists|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == vids@.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == AddVertex(vids@[i]),
@fn add_edges
ensures r is Ok ==> exists|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == edges@.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == AddEdge(edges@[i].0, edges@[i].1),
@fn remove_vertices
ensures r is Ok ==> exists|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == vids@.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == RemoveVertex(vids@[i]),
@fn remove_edges
ensures r is Ok ==> exists|cs: Seq<GraphCommand>| #[trigger] logged(root_dir@, cs) && cs.len() == edges@.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == RemoveEdge(edges@[i].0, edges@[i].1),
