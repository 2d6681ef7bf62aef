@source core/src/algorithm/hamiltonian.rs
@broadcast lean
@fn is_hamiltonian
requires graph.wf(),
ensures r == (graph.vset().len() == 0 || has_ham(*graph)),
@fn iter_hamiltonian_paths
requires graph.wf(),
ensures r.pos() == 0, graph.vset().len() > 0 ==> all_hams(*graph, views(r.all())),
    graph.vset().len() == 0 ==> r.all().len() == 0,
@closure 1 It<Path> ~drain
requires graph.wf()
ensures lists_paths(*graph, *vid, __r)
@at exit
proof {
    let g = *graph;
    assert forall|cs: Seq<It<Path>>, x: Seq<Path>| #[trigger] is_flat(x, cs)
        && from_all(g, cs) && of_size(g.vset().len() as int, x, ret_.all()) && g.vset().len() > 0 implies all_hams(g, views(ret_.all())) by { lemma_hams(g, cs, x, ret_.all()); }
}
@fn first_path
requires graph.wf(),
ensures graph.vset().len() > 0 ==> match r { Some(p) => ham(*graph, p.vertices@), None => !has_ham(*graph) },
    graph.vset().len() == 0 ==> r is None,
@at entry
proof { lemma_first_ham(*graph); }
@fn is_path_hamiltonian
requires graph.wf(),
ensures r == (path.vertices@.no_duplicates() && path.vertices@.len() == graph.vset().len()),
