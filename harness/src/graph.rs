//! C08, C09, C11 (graph part), C25 (idempotence on the graph).
use crate::sym::*;
use crate::util::*;
use twiggy_ir::*;

fn graph() -> Gr {
    let n = param("n", 3) as usize;
    let mut g = Gr::sizes(n);
    g.edges(param("mode", 0));
    g
}

/// Immediate dominators and the dominator tree against the definition by node removal.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c08() {
    let g = graph();
    let mut it = g.build();
    if flag("order") {
        it.compute_dominators();
        it.compute_dominator_tree();
    } else {
        it.compute_dominator_tree();
        it.compute_dominators();
    }
    let want = g.idom();
    let im = it.immediate_dominators();
    let tree = it.dominator_tree();
    for i in 0..g.n {
        let id = Gr::id(i);
        let got = im.get(&id).cloned();
        check(got == want[i].map(Gr::id), "immediate dominator");
        let w: Vec<Id> = (0..g.n).filter(|j| want[*j] == Some(i)).map(Gr::id).collect();
        let mut k = tree.get(&id).cloned().unwrap_or_default();
        k.sort();
        check(k == w, "dominator tree children");
    }
    let w: Vec<Id> = (0..g.n).filter(|j| want[*j] == Some(ROOT)).map(Gr::id).collect();
    let mut k = tree.get(&Id::root()).cloned().unwrap_or_default();
    k.sort();
    check(k == w, "dominator tree children of the meta root");
    check(im.get(&Id::root()).is_none(), "the meta root has no immediate dominator");
    for k in tree.keys() {
        check(*k == Id::root() || (0..g.n).any(|i| Gr::id(i) == *k), "tree key is an item");
    }
    for k in im.keys() {
        check((0..g.n).any(|i| Gr::id(i) == *k), "idom key is an item");
    }
    reach("end");
}

/// Retained sizes, after any history of the other computations.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c09() {
    let g = graph();
    let mut it = g.build();
    match choose("history", 4) {
        0 => {}
        1 => {
            it.compute_dominators();
            it.compute_predecessors();
        }
        2 => it.compute_dominator_tree(),
        _ => {
            it.compute_retained_sizes();
            it.compute_retained_sizes();
        }
    }
    it.compute_retained_sizes();
    let want = g.retained();
    for i in 0..g.n {
        check(it.retained_size(Gr::id(i)) == want[i], "retained size");
    }
    check(it.retained_size(it.meta_root()) == g.root_retained(), "retained size of the meta root");
    reach("end");
}

/// Neighbours, predecessors, iteration, lookup (C11, graph part).
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c11_graph() {
    let mut g = graph();
    // symbolic one-letter names: lookup by name
    for i in 0..g.n {
        g.name[i] = String::from_utf8(vec![u8_in("name", b'a', b'c')]).unwrap();
    }
    let mut it = g.build();
    it.compute_predecessors();
    let ids: Vec<Id> = it.iter().map(|x| x.id()).collect();
    check(ids.len() == g.n + 1, "iteration visits every item once");
    for w in ids.windows(2) {
        check(w[0] < w[1], "iteration in id order");
    }
    for i in 0..g.n {
        let id = Gr::id(i);
        check(ids.contains(&id), "every item is iterated");
        check(it[id].id() == id, "lookup by id");
        check(it[id].size() == g.size[i], "lookup by id gives the item's size");
        let nb: Vec<Id> = it.neighbors(id).collect();
        let w: Vec<Id> = (0..g.n).filter(|j| g.adj[i][*j]).map(Gr::id).collect();
        check(nb == w, "neighbours");
        let mut pr: Vec<Id> = it.predecessors(id).collect();
        pr.sort();
        let mut w: Vec<Id> = (0..g.n).filter(|j| g.adj[*j][i]).map(Gr::id).collect();
        if g.root[i] {
            w.push(Id::root());
        }
        w.sort();
        check(pr == w, "predecessors");
    }
    let rt: Vec<Id> = it.neighbors(it.meta_root()).collect();
    let w: Vec<Id> = (0..g.n).filter(|j| g.root[*j]).map(Gr::id).collect();
    check(rt == w, "roots");
    check(it.size() == g.total, "total size");
    // lookup by name
    let q = String::from_utf8(vec![u8_in("query", b'a', b'd')]).unwrap();
    match it.get_item_by_name(&q) {
        Some(x) => check(x.name() == q, "lookup by name finds an item of that name"),
        None => check(g.name.iter().all(|n| *n != q), "lookup by name misses no item"),
    }
    reach("end");
}

/// Numeric form of ids.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c11_id() {
    let mk = || {
        let s = u32_in("section", 0, u32::MAX - 1);
        let e = u32_in("entry", 0, u32::MAX - 1);
        match choose("kind", 3) {
            0 => (Id::entry(s as usize, e as usize), (s as u64) << 32 | e as u64, s, e),
            1 => (Id::section(s as usize), (s as u64) << 32 | 0xffff_ffff, s, u32::MAX),
            _ => (Id::root(), u64::MAX, u32::MAX, u32::MAX),
        }
    };
    let (a, ka, sa, ea) = mk();
    let (b, kb, sb, eb) = mk();
    check(a.serializable() == ka, "numeric form encodes section and entry");
    check(b.serializable() == kb, "numeric form encodes section and entry");
    let same = both(sa == sb, ea == eb);
    check((a == b) == same, "ids are equal exactly when made from the same numbers");
    check((a.serializable() == b.serializable()) == same, "numeric forms are equal exactly for equal ids");
    check((a < b) == (a.serializable() < b.serializable()), "numeric form keeps the order");
    check((a < b) == (sa < sb || both(sa == sb, ea < eb)), "ids are ordered by section, then entry");
    reach("end");
}

/// C25: recomputing in any order changes nothing.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_c25_graph() {
    let g = graph();
    let mut a = g.build();
    a.compute_retained_sizes();
    a.compute_predecessors();
    a.compute_dominators();
    a.compute_dominator_tree();
    let mut b = g.build();
    for _ in 0..param("steps", 3) {
        match choose("step", 4) {
            0 => b.compute_predecessors(),
            1 => b.compute_retained_sizes(),
            2 => b.compute_dominators(),
            _ => b.compute_dominator_tree(),
        }
    }
    b.compute_dominators();
    b.compute_dominator_tree();
    b.compute_retained_sizes();
    b.compute_predecessors();
    check(a.immediate_dominators() == b.immediate_dominators(), "immediate dominators differ");
    check(a.dominator_tree() == b.dominator_tree(), "dominator trees differ");
    for x in a.iter() {
        let id = x.id();
        check(a.retained_size(id) == b.retained_size(id), "retained sizes differ");
        check(a.predecessors(id).collect::<Vec<_>>() == b.predecessors(id).collect::<Vec<_>>(), "predecessors differ");
        check(a.neighbors(id).collect::<Vec<_>>() == b.neighbors(id).collect::<Vec<_>>(), "neighbours differ");
    }
    reach("end");
}
