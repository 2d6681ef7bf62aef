"""What each property's proof is made of: modules extracted from /repo, root functions, lemma libraries,
and the modules the property owns (a failed obligation elsewhere belongs to another property's check)."""

G = ["graph", "directed_graph"]
# what the main function of a tool needs: reading and writing the command log, and the options
TOOL = ["graph_command", "format::utils", "format::gcmd", "graph_utils", "arg_utils"]
TLIB = ["text", "files", "cli"]

PROOF = {
    "C01": dict(modules=G + TOOL + ["path", "constraint::constraint", "bin::gc_desc"], roots=["directed_graph::*", "graph::*", "bin::gc_desc::main"], libs=["gspec"] + TLIB, own=["directed_graph", "graph", "bin::gc_desc"]),
    "C02": dict(modules=G + TOOL + ["format::tgf", "path", "constraint::constraint", "bin::gc_build", "bin::gc_delete", "bin::gc_init", "bin::gc_clean"],
                roots=["graph_command::*", "format::gcmd::save", "format::gcmd::add_commands", "format::gcmd::command_into_line", "format::tgf::save"]
                + ["graph_utils::" + f for f in ["load_graph", "load_graph_from_path", "save_graph_as_commands", "with_lock", "command_path", "apply_graph_commands", "add_vertex", "add_vertices",
                                                 "add_edge", "add_edges", "remove_vertex", "remove_vertices", "remove_edges", "init", "touch"]]
                + ["bin::gc_%s::main" % t for t in ["build", "delete", "init", "clean"]],
                libs=["gspec"] + TLIB, own=["graph_command", "format::utils", "format::gcmd", "format::tgf", "graph_utils", "bin::gc_build", "bin::gc_delete", "bin::gc_init", "bin::gc_clean"],
                note="Proved: effect of command lists, command list of a graph, revert, the text that saving and appending writes (also by the command log of the tools), that reading it back by the contracts of C19 gives the same, and the main functions of gc-build, gc-delete, gc-init and gc-clean against what the options say. The declarations of the options (clap) and the other tools are checked by the bounded stand-in only."),
    "C03": dict(modules=G + TOOL + ["path", "constraint::constraint", "algorithm::topo_sort", "bin::gc_topo_sort"], roots=["algorithm::topo_sort::*", "bin::gc_topo_sort::main"],
                libs=["gspec", "walk"] + TLIB, own=["algorithm::topo_sort", "bin::gc_topo_sort"]),
    "C04": dict(modules=G + TOOL + ["bin::gc_short_path", "path", "iter::iter_datastructure", "constraint::constraint", "iter::iter_best", "search::a_star"],
                roots=["iter::iter_best::*", "search::a_star::shortest_path", "search::a_star::one_weighted_edge", "search::a_star::zero_heuristic", "bin::gc_short_path::*"],
                libs=["gspec", "walk", "dist", "traverse", "best"] + TLIB, own=["iter::iter_best", "search::a_star", "bin::gc_short_path"]),
    "C06": dict(modules=G + TOOL + ["bin::gc_csp", "path", "iter::iter_datastructure", "constraint::constraint", "iter::iter_best_constraint", "search::a_star"],
                roots=["iter::iter_best_constraint::*", "search::a_star::constrained_shortest_path", "search::a_star::one_weighted_edge", "search::a_star::zero_heuristic", "bin::gc_csp::*"],
                libs=["gspec", "walk", "dist", "traverse", "best", "constrained"] + TLIB, own=["iter::iter_best_constraint", "search::a_star", "bin::gc_csp"]),
    "C05": dict(modules=["graph", "path", "constraint::constraint"], roots=["constraint::*", "path::*"], libs=[], own=["path", "constraint::constraint"]),
    "C07": dict(modules=G + ["path", "algorithm::topo_sort", "iter::iter_datastructure", "algorithm::shortest_path"], roots=["algorithm::shortest_path::bellman_ford"],
                libs=["gspec", "walk", "dist"], own=["algorithm::shortest_path"]),
    "C08": dict(modules=G + ["path", "algorithm::topo_sort", "iter::iter_datastructure", "algorithm::shortest_path", "algorithm::longest_path"],
                roots=["algorithm::shortest_path::dag_shortest_path", "algorithm::shortest_path::dag_shortest_paths", "algorithm::longest_path::*"],
                libs=["gspec", "walk", "dist"], own=["algorithm::shortest_path", "algorithm::longest_path"]),
    "C09": dict(modules=G + ["path", "algorithm::topo_sort", "iter::iter_datastructure", "algorithm::shortest_path"], roots=["algorithm::shortest_path::spfa"],
                libs=["gspec", "walk", "dist"], own=["algorithm::shortest_path"]),
    "C10": dict(modules=G + ["iter::iter_datastructure", "algorithm::max_flow"], roots=["algorithm::max_flow::*"], libs=["gspec", "work", "flow"], own=["algorithm::max_flow"]),
    "C11": dict(modules=G + TOOL + ["path", "iter::iter_datastructure", "iter::iter_cycle", "algorithm::cycle", "constraint::constraint", "bin::gc_cycle"],
                roots=["iter::iter_cycle::*", "algorithm::cycle::*", "bin::gc_cycle::*"],
                libs=["gspec", "walk", "dist", "traverse", "work", "cycle"] + TLIB, own=["iter::iter_cycle", "algorithm::cycle", "bin::gc_cycle"]),
    "C12": dict(modules=G + ["path", "iter::iter_datastructure", "iter::iter_breadth", "iter::iter_depth"], roots=["iter::iter_breadth::*", "iter::iter_depth::*"],
                libs=["gspec", "walk", "dist", "traverse"], own=["iter::iter_breadth", "iter::iter_depth"]),
    "C13": dict(modules=G + ["path", "iter::iter_datastructure", "iter::iter_depth", "algorithm::hamiltonian"], roots=["algorithm::hamiltonian::*"],
                libs=["gspec", "walk", "dist", "traverse"], own=["algorithm::hamiltonian", "iter::iter_depth"]),
    "C14": dict(modules=["graph", "path", "constraint::constraint", "constraint::checker"], roots=["constraint::checker::*"], libs=[], own=["constraint::checker"]),
    "C15": dict(modules=G + TOOL + ["path", "iter::iter_datastructure", "iter::iter_cycle", "algorithm::cycle", "constraint::constraint", "iter::iter_best_constraint", "search::a_star", "bin::gc_add", "bin::gc_csp", "bin::gc_cycle"],
                roots=["arg_utils::" + f for f in ["as_vertex_tuple", "parse_vertex_id", "parse_vertex_id_list", "parse_edge_list", "option_of"]]
                + ["arg_utils::build_constraint_" + f for f in ["include", "exclude", "include_edges", "exclude_edges", "ordered", "include_cycle", "no_cycle", "min_length", "max_length",
                                                                 "exact_length", "min_score", "max_score", "exact_score"]]
                + ["bin::gc_add::*", "bin::gc_csp::*", "bin::gc_cycle::*"],
                libs=["gspec", "walk", "dist", "traverse", "work", "cycle", "best", "constrained"] + TLIB, own=["arg_utils", "bin::gc_add", "bin::gc_csp", "bin::gc_cycle"],
                note="Proved: the functions that turn values into edges and constraints, and the main functions of gc-add, gc-csp and gc-cycle against what the options say. The declarations of the options are under contract; what clap makes of them is run by the bounded stand-in."),
    "C16": dict(modules=G + TOOL + ["path", "constraint::constraint", "bin::gc_random"], roots=["bin::gc_random::*"], libs=["gspec", "walk", "rand"] + TLIB, own=["bin::gc_random"],
                note="Partial correctness. The declarations of the options are under contract; what clap makes of them is run by the bounded stand-in."),
    "C17": dict(modules=["iter::iter_datastructure"], roots=["iter::iter_datastructure::*"], libs=[], own=["iter::iter_datastructure"]),
    "C18": dict(modules=["graph", "attribute::mapping", "attribute::attribute_command"], roots=["attribute::*"], libs=[], own=["attribute::mapping", "attribute::attribute_command"]),
    "C19": dict(modules=G + ["graph_command", "format::utils", "format::gcmd", "format::tgf"],
                roots=["format::utils::*"] + ["format::%s::%s" % (m, f) for m in ["gcmd", "tgf"] for f in ["read", "read_as_commands", "parse_line", "is_comment"]],
                libs=["gspec", "text"], own=["format::utils", "format::gcmd", "format::tgf"],
                note="Proved for the functions of the core crate. The exit status of the CLI tools on bad files is checked by the bounded stand-in only."),
}

# Properties without a proof yet: decided by the bounded stand-in alone, and labelled so
ALL = ["C%02d" % i for i in range(1, 20)]

BOUNDED_WHY = {}

# What a proof assumes beyond the std contracts
COST = "the cost function answers the same for the same edge or path and returns whenever it is called (specs/lib/dist.rs, lemma_has_answer, is an assumed axiom of that kind)"
CLI = ["clap hands over the options and their values as declared, and an option with values has at least one; the declarations themselves (Arg::with_name(..)...) are read from /repo and under contract, what clap makes of them is assumed (specs/lib/cli.rs) and run by the bounded stand-in",
       "unwrap and expect in a main function end the program when there is no value (partial correctness)"]
ASSUME = {
    "C01": list(CLI),
    "C03": list(CLI),
    "C04": CLI + ["the scores of paths without repetition fit 64 bits, and depend on the vertices of the path only; they are sums of non-negative edge costs plus a consistent heuristic (lemma_consistent shows these are the additive scores of the contract)",
            "Iterator::find on BestFirstIter is the loop over next() of specs/iter.iter_best.spec"],
    "C06": CLI + ["the scores of the walks considered fit 64 bits, and never shrink along a walk", "partial correctness: the constrained search may not end when no solution exists",
            "Iterator::find on ConstrainedBestFirstIter is the loop over next() of specs/iter.iter_best_constraint.spec"],
    "C07": [COST, "weights within -b..b with b * (|V| * |E| + 1) < 2^63 (no overflow of scores)"],
    "C08": [COST, "weights within -b..b with b * (|V| + 1) < 2^63 (no overflow of scores)"],
    "C09": [COST, "weights within -b..b with b * (|V| + 2) < 2^63 (no overflow of scores)"],
    "C10": ["source and sink differ, and the capacities of all edges together fit 64 bits", "the capacity function returns whenever it is called on an edge of the graph"],
    "C11": CLI + ["the adapters of Iterator (count, take, collect, map, filter, min_by_key, max_by_key) consume the crate's iterator by next() until None (verified loops of specs/iter.iter_cycle.spec)",
            "min_by over a comparison that is a total order answers a least element (std), unique yields each element once (itertools)",
            "the derived Ord of VertexId is that of its number, the derived Eq and Hash of Cycle are those of its vertices"],
    "C15": CLI + ["str::parse of an unsigned number accepts an optional '+' and decimal digits within range, and nothing else (std)"],
    "C16": CLI + ["the random source may answer any number", "three times the number of vertices fits 64 bits", "partial correctness: the generator may not end when there is no room for that many edges"],
    "C02": CLI + ["File::create empties the file, OpenOptions::append adds at its end, BufWriter::flush lets the whole text reach the file or fails (std)", "the Display of an unsigned number is its decimal writing (std)",
            "BufRead::lines cuts a text as lines_of of specs/lib/text.rs says (std)", "std::path joins and shows paths consistently (specs/lib/files.rs)"],
    "C19": ["the regex crate matches as rmatch of specs/lib/text.rs says (each repetition takes as much as it can while the rest still matches), \\d and \\s are disjoint and are the ASCII digits and blanks below 128",
            "BufRead::lines answers the lines of the file in order, without their ends, and an error for one that cannot be read or is not UTF-8 (std)", "a file has fewer than 2^64 - 1 lines", "str::trim and str::starts_with (std)",
            "str::parse of an unsigned number accepts an optional '+' and decimal digits within range, and nothing else (std)"],
    "C13": ["flat_map over the crate's path iterator consumes it by next() until None (drain_ of specs/iter.iter_depth.spec, verified)"],
}
