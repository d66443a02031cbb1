//! Graphs, node proxies and lazy documents.

use std::{
    cell::{Cell, RefCell},
    sync::Arc,
};

use crate::{model::*, sym::*};
use plotline::{
    document::{lazy::LazyDocument, DocumentRepository},
    graph::{Graph, NodeProxy, Source},
    prelude::*,
};

// -- graph ----------------------------------------------------------------------------------------

/// A graph is a map from ids to nodes.
pub fn graph_map() {
    let n = param("ops", 4);
    let q = u8_();
    let mut g: Graph<Node>;
    let mut o = Obs { q, e: None };
    let mut ids = vec![];
    if flag() {
        // Collected: the last node of each id wins.
        let nodes: Vec<Node> = (0..param("nodes", 2)).map(|_| node(u8_(), u8_())).collect();
        for n in &nodes {
            o.save(n.id, n.val);
            ids.push(n.id);
        }
        g = nodes.into_iter().collect();
        cover("collected");
    } else {
        g = Graph::default();
        check(!g.contains(&q) && g.get(&q).is_none(), "a new graph is empty");
    }
    check(o.agrees(&g), "the graph is the one the operations describe");
    for _ in 0..n {
        let id = u8_();
        let was = if id == q { o.e } else { None };
        match pick(3) {
            0 => {
                let val = u8_();
                let old = g.insert(node(id, val));
                if id == q {
                    check(old.as_ref().map(|n| n.val) == was, "insert returns the replaced node");
                }
                check(old.map_or(true, |n| n.id == id), "insert returns a node with that id");
                o.save(id, val);
                ids.push(id);
            }
            1 => {
                let val = u8_();
                g = g.with_node(node(id, val));
                o.save(id, val);
                ids.push(id);
            }
            _ => {
                let old = g.remove(&id);
                if id == q {
                    check(old.as_ref().map(|n| n.val) == was, "remove returns the removed node");
                }
                check(old.map_or(true, |n| n.id == id), "remove returns a node with that id");
                o.delete(id);
            }
        }
        check(o.agrees(&g), "the graph is the one the operations describe");
    }
    let d = dump(&g);
    check(d.windows(2).all(|w| w[0].0 < w[1].0), "iteration goes by ascending id, once each");
    check(d.iter().find(|n| n.0 == q).map(|n| n.1) == o.e, "iteration shows the same nodes");
    check(d.iter().all(|n| ids.contains(&n.0)), "iteration shows no other node");
    if o.has() {
        cover("present");
    } else {
        cover("absent");
    }
}

/// Many nodes, inserted in an arbitrary rotation, one of them arbitrary, one arbitrary removed.
pub fn graph_long() {
    let n = param("n", 24) as u8;
    let start = spot(n as u32) as u8;
    let (x, gone) = (spot(n as u32) as u8, spot(n as u32) as u8);
    let mut g = Graph::default();
    for i in 0..n {
        let id = ((i as u32 + start as u32) % n as u32) as u8;
        check(g.insert(node(id, id)).is_none(), "a new id replaces nothing");
    }
    check(g.insert(node(x, 201)).map(|n| n.val) == Some(x), "insert returns the replaced node");
    check(
        g.remove(&gone).map(|n| n.val) == Some(if gone == x { 201 } else { gone }),
        "remove returns the removed node",
    );
    let d = dump(&g);
    check(d.len() == n as usize - 1, "only one node is gone");
    check(
        d.iter().all(|(i, v)| (*i != gone) & (*v == if *i == x { 201 } else { *i })),
        "every other node is there",
    );
    check(d.windows(2).all(|w| w[0].0 < w[1].0), "iteration goes by ascending id, once each");
    cover("end");
}

// -- proxies --------------------------------------------------------------------------------------

/// A node with up to two links.
#[derive(Clone)]
struct Linked {
    id: u8,
    links: Vec<u8>,
}

impl Identify for Linked {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.id
    }
}

struct Link(u8);

impl Identify for Link {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.0
    }
}

impl Property<Linked> for Link {
    fn all(source: &Linked) -> Vec<Self> {
        source.links.iter().map(|l| Link(*l)).collect()
    }
}

/// Links in the other order, to tell edges of different types apart.
struct Back(u8);

impl Identify for Back {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.0
    }
}

impl Property<Linked> for Back {
    fn all(source: &Linked) -> Vec<Self> {
        source.links.iter().rev().map(|l| Back(*l)).collect()
    }
}

fn linked(links: u8) -> Linked {
    let id = u8_();
    let n = pick(links + 1);
    Linked { id, links: (0..n).map(|_| u8_()).collect() }
}

fn walk<S: Source<Node = Linked>>(s: &S, at: u8, nodes: &[Linked], depth: u32) {
    let find = |id: u8| nodes.iter().rev().find(|n| n.id == id);
    let here = find(at);
    let p = NodeProxy::new(s, at);
    visit(&p, here, &find, depth);
}

fn visit<'a, S: Source<Node = Linked>>(
    p: &NodeProxy<'_, S>,
    here: Option<&'a Linked>,
    find: &impl Fn(u8) -> Option<&'a Linked>,
    depth: u32,
) {
    let links: &[u8] = here.map_or(&[], |n| &n.links);
    if depth % 2 == 0 {
        // In either order, before or after resolving the node.
        check(p.try_deref().is_some() == here.is_some(), "resolves if, and only if, the node exists");
    }
    check(p.is_virtual() == here.is_none(), "virtual if, and only if, the node does not exist");
    let next = p.successors::<Link>();
    check(
        next.len() == links.len() && next.iter().zip(links).all(|(p, l)| (p.id == *l) & (*p.id() == *l)),
        "one successor for each edge, in order",
    );
    let back = p.successors::<Back>();
    check(
        back.len() == links.len() && back.iter().zip(links.iter().rev()).all(|(p, l)| p.id == *l),
        "successors are those of the edge's type",
    );
    check(
        match (p.try_deref(), here) {
            (Some(n), Some(h)) => (n.id == h.id) & (n.links == h.links),
            (None, None) => true,
            _ => false,
        },
        "resolves to the node with that id",
    );
    if depth > 0 {
        for n in &next {
            visit(n, find(n.id), find, depth - 1);
        }
        if !next.is_empty() {
            cover("successors");
        }
    }
    if here.is_none() {
        cover("virtual");
    }
}

/// Proxies over a graph of arbitrary nodes and edges, cycles and dangling edges included.
pub fn traverse() {
    let n = param("nodes", 2);
    let links = param("links", 2) as u8;
    let nodes: Vec<Linked> = (0..n).map(|_| linked(links)).collect();
    let at = u8_();
    let g = Graph::from_iter(nodes.iter().cloned());
    check(g.node(at).id == at, "the proxy keeps its id");
    walk(&g, at, &nodes, param("depth", 1));
}

/// The same, over what a transaction sees.
pub fn traverse_ctx() {
    let links = param("links", 1) as u8;
    let (a, b) = (linked(links), linked(links));
    let at = u8_();
    let s = Schema::from(Graph::from_iter([a.clone()]));
    let r: Result<()> = s.transaction().with(|ctx| {
        ctx.save(b.clone());
        walk(&ctx, at, &[a.clone(), b.clone()], param("depth", 1));
        ctx.transaction().with(|sub| {
            walk(&sub, at, &[a.clone(), b.clone()], param("depth", 1));
            Ok(())
        })
    });
    check(r.is_ok(), "commits");
}

/// A source that counts how often it is asked, and whose content changes over time.
struct Shifting {
    now: Cell<Option<(u8, u8)>>,
    gets: Cell<u32>,
}

impl Source for Shifting {
    type Node = Node;

    fn get(&self, id: &u8) -> Option<Node> {
        self.gets.set(self.gets.get() + 1);
        self.now.get().filter(|n| n.0 == *id).map(|n| node(n.0, n.1))
    }

    fn contains(&self, id: &u8) -> bool {
        self.now.get().is_some_and(|n| n.0 == *id)
    }
}

/// A proxy resolves once and stays as it resolved; whether it is virtual is always up to date.
pub fn proxy_once() {
    let id = u8_();
    let s = Shifting { now: Cell::new(None), gets: Cell::new(0) };
    let shift = || {
        s.now.set(if flag() { Some((u8_(), u8_())) } else { None });
    };
    let at = |id: u8| s.now.get().filter(|n| n.0 == id).map(|n| n.1);
    shift();
    let mut ps = vec![NodeProxy::new(&s, id)];
    check(s.gets.get() == 0, "making a proxy asks nothing");
    // What each proxy resolved to, if it did.
    let mut m: Vec<Option<Option<u8>>> = vec![None];
    let mut gets = 0;
    for _ in 0..param("ops", 4) {
        match pick(4) {
            0 => shift(),
            1 => {
                let k = pick(ps.len() as u8) as usize;
                let got = ps[k].try_deref().map(|n| n.val);
                if m[k].is_none() {
                    m[k] = Some(at(id));
                    gets += 1;
                }
                check(Some(got) == m[k], "resolves to what the source held when first resolved");
            }
            2 => {
                let k = pick(ps.len() as u8) as usize;
                let c = ps[k].clone();
                check(*c.id() == id, "a copy keeps the id");
                ps.push(c);
                m.push(m[k]);
                cover("copied");
            }
            _ => {
                let k = pick(ps.len() as u8) as usize;
                check(ps[k].is_virtual() == at(id).is_none(), "is virtual if the source lacks the node now");
            }
        }
        check(s.gets.get() == gets, "the source is asked once, when first needed");
    }
    if m.iter().any(|x| matches!(x, Some(Some(_)))) {
        cover("resolved");
    }
}

// -- lazy documents -------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Doc {
    pub id: u8,
    pub body: u8,
}

impl Identify for Doc {
    type Id = u8;

    fn id(&self) -> &u8 {
        &self.id
    }
}

struct Repo {
    now: RefCell<Vec<(u8, u8)>>,
    asked: RefCell<Vec<u8>>,
}

impl DocumentRepository for Repo {
    type Document = Doc;

    fn find_by_id(&self, id: &u8) -> Option<Doc> {
        self.asked.borrow_mut().push(*id);
        self.now.borrow().iter().find(|d| d.0 == *id).map(|d| Doc { id: d.0, body: d.1 })
    }
}

/// A lazy document asks its repository when first needed, until found, and then never again.
pub fn lazy() {
    let repo = Arc::new(Repo { now: Default::default(), asked: Default::default() });
    let id = u8_();
    let given = u8_();
    let fresh = flag();
    let make = LazyDocument::builder(repo.clone());
    let first = if fresh {
        LazyDocument::new(repo.clone(), Doc { id, body: given })
    } else {
        make(id)
    };
    check(*first.id() == id, "the document's id is known without loading it");
    let mut ds = vec![first];
    let mut m = vec![if fresh { Some(given) } else { None }];
    let mut asked = 0;
    for _ in 0..param("ops", 4) {
        match pick(4) {
            0 => {
                let (i, b) = (u8_(), u8_());
                *repo.now.borrow_mut() = if flag() { vec![(i, b)] } else { vec![] };
            }
            1 => {
                let k = pick(ds.len() as u8) as usize;
                let here = repo.now.borrow().iter().find(|d| d.0 == id).map(|d| d.1);
                if m[k].is_none() {
                    asked += 1;
                    m[k] = here;
                }
                let got = ds[k].try_deref();
                check(
                    match (got, m[k]) {
                        (Some(d), Some(b)) => (d.id == id) & (d.body == b),
                        (None, None) => true,
                        _ => false,
                    },
                    "shows the document found first, or the one it was made with",
                );
            }
            2 => {
                let k = pick(ds.len() as u8) as usize;
                let c = ds[k].clone();
                check(*c.id() == id, "a copy keeps the id");
                ds.push(c);
                m.push(m[k]);
                cover("copied");
            }
            _ => {
                ds.push(make(id));
                m.push(None);
            }
        }
        check(repo.asked.borrow().len() == asked, "the repository is asked only when needed");
    }
    check(repo.asked.borrow().iter().all(|a| *a == id), "the repository is asked for that id");
    if asked > 1 {
        cover("asked again");
    }
    if m.iter().any(|x| x.is_some()) {
        cover("loaded");
    }
}

// -- lazy documents as nodes of a schema ----------------------------------------------------------

/// Moving lazy documents in and out of a graph neither loads them nor mixes them up.
pub fn lazy_nodes() {
    use plotline::schema::ops::{delete::Delete, save::Save};
    let repo = Arc::new(Repo { now: Default::default(), asked: Default::default() });
    let (a, b) = (u8_(), u8_());
    let (va, vb, new) = (u8_(), u8_(), u8_());
    *repo.now.borrow_mut() = vec![(a, va), (b, vb)];
    let make = LazyDocument::builder(repo.clone());
    let s = Schema::from(Graph::from_iter([make(a), make(b)]));
    check(repo.asked.borrow().is_empty(), "collecting documents loads none");
    let (id, del) = (u8_(), flag());
    let had = s.read().contains(&id);
    let r = if del {
        Delete::new(id).execute(s.transaction())
    } else {
        Save::new(LazyDocument::new(repo.clone(), Doc { id, body: new })).execute(s.transaction())
    };
    check(r.is_ok() == (!del || had), "saves, or deletes what is there");
    check(repo.asked.borrow().is_empty(), "saving and deleting loads nothing");
    let q = u8_();
    let want = if q == id {
        if del { None } else { Some(new) }
    } else if q == a {
        Some(va)
    } else if q == b {
        Some(vb)
    } else {
        None
    };
    let g = s.read();
    let got = g.get(&q).and_then(|d| d.try_deref().map(|d| d.body));
    check(
        match (got, want) {
            (Some(g), Some(w)) => g == w,
            (None, None) => true,
            _ => false,
        },
        "each id shows its own document",
    );
    cover("end");
}

// -- identifiers of other kinds -------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Of<I> {
    id: I,
    val: u8,
}

impl<I> Identify for Of<I> {
    type Id = I;

    fn id(&self) -> &I {
        &self.id
    }
}

fn map_of<I: Ord + Clone>(n: u32, mut id: impl FnMut() -> I) {
    let q = id();
    let mut g: Graph<Of<I>> = Graph::default();
    let mut m: Vec<Of<I>> = vec![];
    for _ in 0..n {
        let i = id();
        let had = m.iter().position(|x| x.id == i);
        if flag() {
            let x = Of { id: i, val: u8_() };
            let old = g.insert(x.clone()).map(|o| o.val);
            check(old == had.map(|k| m[k].val), "insert returns the replaced node");
            match had {
                Some(k) => m[k] = x,
                None => m.push(x),
            }
        } else {
            let old = g.remove(&i).map(|o| o.val);
            check(old == had.map(|k| m[k].val), "remove returns the removed node");
            if let Some(k) = had {
                m.remove(k);
            }
        }
    }
    let want = m.iter().find(|x| x.id == q).map(|x| x.val);
    check(g.get(&q).map(|x| x.val) == want, "lookup finds the node last inserted");
    check(g.contains(&q) == want.is_some(), "membership agrees with lookup");
    check(g.node(q.clone()).is_virtual() == want.is_none(), "a proxy agrees with lookup");
    let mut k = 0;
    let mut last: Option<&Of<I>> = None;
    let mut good = true;
    for x in &g {
        good &= last.is_none_or(|l| l.id < x.id);
        good &= m.iter().any(|y| y.id == x.id && y.val == x.val);
        last = Some(x);
        k += 1;
    }
    check(good && k == m.len(), "iteration shows each node once, by ascending id");
}

/// Graphs under identifiers of several kinds.
pub fn graph_ids() {
    let n = param("ops", 3);
    match pick(4) {
        0 => map_of(n, || u8_() as i8),
        1 => map_of(n, || (u8_(), u8_())),
        2 => map_of(n, || {
            let k = pick(3);
            (0..k).map(|_| u8_()).collect::<Vec<u8>>()
        }),
        _ => map_of(n, || std::cmp::Reverse(u16_())),
    }
    cover("end");
}

/// Many edges, and a long walk over a ring.
pub fn traverse_long() {
    let n = param("n", 20) as u8;
    let (hub, x, end) = (255u8, u8_(), u8_());
    let at = spot(n as u32) as u8;
    // The hub has n edges, one of them arbitrary, some of them to the same node or itself.
    let links: Vec<u8> = (0..n).map(|i| if i == at { x } else if i % 6 == 5 { hub } else { i / 2 }).collect();
    let mut nodes = vec![Linked { id: hub, links: links.clone() }];
    for i in 0..n {
        // Each leads to the next, the last one anywhere.
        nodes.push(Linked { id: i, links: vec![if i + 1 == n { end } else { i + 1 }] });
    }
    let g = Graph::from_iter(nodes.iter().cloned());
    let find = |id: u8| nodes.iter().find(|k| k.id == id);
    let next = g.node(hub).successors::<Link>();
    check(
        next.len() == links.len() && next.iter().zip(&links).all(|(p, l)| p.id == *l),
        "one successor for each edge, in order",
    );
    let good = next.iter().all(|p| match (p.try_deref(), find(p.id)) {
        (Some(a), Some(b)) => a.id == b.id && a.links == b.links && !p.is_virtual(),
        (None, None) => p.is_virtual(),
        _ => false,
    });
    check(good, "resolves to the node with that id");
    let mut p = g.node(0);
    for i in 1..=n {
        let mut next = p.successors::<Link>();
        check(next.len() == 1 && next[0].id == if i == n { end } else { i }, "a walk follows the edges");
        p = next.remove(0);
    }
    check(p.is_virtual() == find(end).is_none(), "virtual if, and only if, the node does not exist");
    check(p.successors::<Link>().len() == find(end).map_or(0, |k| k.links.len()), "a virtual node has no successors");
    cover(if p.is_virtual() { "virtual" } else { "successors" });
}

/// A document asked for many times, which appears, or changes, at some point.
pub fn lazy_long() {
    let repo = Arc::new(Repo { now: Default::default(), asked: Default::default() });
    let id = u8_();
    let n = param("n", 20) as u8;
    let (comes, leaves) = (spot(n as u32 + 1) as u8, spot(n as u32 + 1) as u8);
    let (other, body, later) = (u8_(), u8_(), u8_());
    let d = LazyDocument::builder(repo.clone())(id);
    let mut kept: Option<u8> = None;
    let mut now = None;
    let mut asked = 0;
    for i in 0..n {
        if i == comes {
            *repo.now.borrow_mut() = vec![(other, later), (id, body)];
            now = Some(if other == id { later } else { body });
        }
        if i == leaves {
            *repo.now.borrow_mut() = vec![(other, later)];
            now = if other == id { Some(later) } else { None };
        }
        if kept.is_none() {
            asked += 1;
            kept = now;
        }
        check(d.try_deref().map(|d| d.body) == kept, "shows the document found first");
        check(repo.asked.borrow().len() == asked, "asks until it is found, and never again");
        if i % 5 == 0 {
            check(d.clone().try_deref().map(|d| d.body) == kept, "a copy shows it too");
            if kept.is_none() {
                asked += 1;
            }
        }
    }
    cover(if kept.is_some() { "there" } else { "missing" });
}
