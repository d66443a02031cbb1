import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
TX="plotline/src/schema/transaction.rs"
HEAD='''
use plotline::{graph::{Graph, Source}, prelude::*, schema::ops::{delete::Delete, save::Save}};

#[derive(Clone, Debug, PartialEq)]
struct Node { id: u32, val: u32 }
impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 { &self.id }
}
fn node(id: u32, val: u32) -> Node { Node { id, val } }
fn schema(nodes: &[(u32, u32)]) -> Schema<Node> {
    Schema::from(Graph::from_iter(nodes.iter().map(|n| node(n.0, n.1))))
}
fn at(s: &Schema<Node>, id: u32) -> Option<u32> { s.read().get(&id).map(|n| n.val) }
#[allow(dead_code)]
fn save(s: &Schema<Node>, n: Node) -> Result<()> { Save::new(n).execute(s.transaction()) }
#[allow(dead_code)]
fn delete(s: &Schema<Node>, id: u32) -> Result<()> { Delete::new(id).execute(s.transaction()) }
'''
seed('commit-dedup','C01','two consecutive writes to the same identifier in one transaction',
 'commit collapses neighbouring writes to one identifier, and keeps the first instead of the last',
 [(TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''','''        // Writing the same node twice in a row is a waste.
        let mut ops = ops;
        ops.dedup_by(|next, prev| next.id() == prev.id());

        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(1, 2));
        ctx.save(node(2, 2));
        ctx.save(node(3, 3));
        ctx.delete(3);
        Ok(())
    }).unwrap();
    assert_eq!((at(&s, 1), at(&s, 2), at(&s, 3)), (Some(2), Some(2), None));
}
''')
seed('noop-commits','C02','a transaction that has written something and then reports that there was nothing to do',
 'a top-level transaction that ends with the no-operation error is committed',
 [(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background''','''        let result = f((&self).into());
        // Having nothing to apply is not a failure: there is nothing to roll back.
        if matches!(result, Ok(_) | Err(super::Error::Noop)) {
            self.commit();
        }

        result
    }
}

impl<T> Background''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    let r: Result<()> = s.transaction().with(|ctx| {
        ctx.save(node(1, 9));
        // The second delete has nothing to do, and fails the whole.
        Delete::new(7).execute(ctx.transaction())
    });
    assert!(r.is_err());
    assert_eq!(at(&s, 1), Some(1));
}
''')
seed('deleted-shows-through','C03','a node of the graph that an enclosing transaction deleted, looked up from a nested one',
 'a lookup that finds nothing in the enclosing transaction falls through to the graph, deleted or not',
 [(TX,'''                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),''','''                .parent
                .and_then(|parent| parent.get(id))
                .or_else(|| self.graph.get(id)),''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1), (2, 2)]);
    s.transaction().with(|ctx| {
        ctx.delete(1);
        assert!(ctx.get(&1).is_none());
        ctx.transaction().with(|sub| {
            assert!(sub.get(&1).is_none(), "deleted by the enclosing transaction");
            assert!(sub.get(&2).is_some());
            Ok(())
        })
    }).unwrap();
}
''')
seed('cancelled-write','C04','a node of the graph, saved in a transaction and then deleted in one nested in it',
 'a delete committed by a nested transaction cancels out with a save of the enclosing one, so the older node in the graph survives',
 [(TX,'''        upstream_ops.extend(ops);''','''        for op in ops {
            // Deleting what was saved just before undoes the save.
            if matches!(&op, Operation::Delete(id) if matches!(upstream_ops.last(), Some(Operation::Save(node)) if node.id() == id)) {
                upstream_ops.pop();
                continue;
            }

            upstream_ops.push(op);
        }'''),
  (TX,'''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
{''','''impl<T> Transaction for Foreground<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{'''),
  (TX,'''impl<T> Foreground<'_, T>
where
    T: Identify,
{''','''impl<T> Foreground<'_, T>
where
    T: Identify,
    T::Id: PartialEq,
{'''),
 ],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(1, 2));
        ctx.transaction().with(|sub| {
            sub.delete(1);
            Ok(())
        })
    }).unwrap();
    assert_eq!(at(&s, 1), None);
}
''')
SH=HEAD.replace('use plotline::','use std::sync::Arc;\nuse plotline::')+'''
struct Shared(Schema<Node>);
// Plain data only: no resources and no triggers.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
'''
seed('late-relock','C05','another thread taking the lock between the end of a transaction and its commit',
 'a transaction lets go of the graph when its closure ends and takes it again to commit, so an update in between is lost',
 [(TX,'''        let Some(mut guard) = self.guard.take() else {
            tracing::error!("committing uninitialized transaction");
            return;
        };
''','''        if self.guard.take().is_none() {
            tracing::error!("committing uninitialized transaction");
            return;
        };
'''),
  (TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''','''        let mut guard = self.schema.write();
        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''')],
 SH+'''
fn main() {
    for _ in 0..200 {
        let s = Arc::new(Shared(schema(&[(0, 0)])));
        let (n, k) = (4, 200);
        let ts: Vec<_> = (0..n).map(|_| {
            let s = s.clone();
            std::thread::spawn(move || {
                let s = s;
                for _ in 0..k {
                    s.0.transaction().with(|ctx| {
                        let v = ctx.get(&0).unwrap().val;
                        ctx.save(node(0, v + 1));
                        Ok(())
                    }).unwrap();
                }
            })
        }).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(at(&s.0, 0), Some(n * k));
    }
}
''')
seed('torn-commit','C05','a reader taking the lock between two writes of one commit',
 'a commit takes the lock anew for each write, so a reader can see part of a transaction',
 [(TX,'''        let Some(mut guard) = self.guard.take() else {''','''        let Some(guard) = self.guard.take() else {'''),
  (TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''','''        // Let waiting readers in between the operations of a large transaction.
        let mut guard = Some(guard);
        ops.into_iter().for_each(|op| {
            let mut graph = guard.take().unwrap_or_else(|| self.schema.write());
            match op {
                Operation::Save(node) => {
                    graph.insert(node);
                }
                Operation::Delete(node_id) => {
                    graph.remove(&node_id);
                }
            }
        });''')],
 SH+'''
fn main() {
    let s = Arc::new(Shared(schema(&[(0, 0), (1, 0)])));
    let w = s.clone();
    let t = std::thread::spawn(move || {
        let w = w;
        for i in 1..60000 {
            w.0.transaction().with(|ctx| {
                ctx.save(node(0, i));
                ctx.save(node(1, i));
                Ok(())
            }).unwrap();
        }
    });
    let mut bad = 0;
    while !t.is_finished() {
        let g = s.0.read();
        bad += (g.get(&0) != g.get(&1).map(|n| node(0, n.val))) as u32;
    }
    t.join().unwrap();
    assert_eq!(bad, 0);
}
''')
seed('commit-on-drop','C06','a panic in a transaction that has written something, caught further out',
 'a transaction commits when it is dropped unless it failed, and so also when it is unwound by a panic',
 [(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>
where
    T: Identify,
    T::Id: Clone + Ord,
{''','''        let mut pending = Pending(Some(self));
        let tx = pending.0.as_ref().expect("transaction should be pending");
        let result = f(tx.into());
        if result.is_err() {
            pending.0 = None;
        }

        result
    }
}

/// Commits the transaction at the end of its scope, unless taken out.
struct Pending<'a, T>(Option<Background<'a, T>>)
where
    T: Identify,
    T::Id: Clone + Ord;

impl<T> Drop for Pending<'_, T>
where
    T: Identify,
    T::Id: Clone + Ord,
{
    fn drop(&mut self) {
        if let Some(tx) = self.0.take() {
            tx.commit();
        }
    }
}

impl<T> Background<'_, T>
where
    T: Identify,
    T::Id: Clone + Ord,
{''')],
 HEAD+'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let s = schema(&[(1, 1)]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        s.transaction().with(|ctx| -> Result<()> {
            ctx.save(node(1, 2));
            panic!("boom")
        })
    }));
    let ok = r.is_err() && at(&s, 1) == Some(1);
    std::process::exit(!ok as i32);
}
''')
seed('saves-argument','C07','a trigger before the save that changes the node',
 'the node that is saved is the one given, not the one the triggers left',
 [("plotline/src/schema/ops/save.rs",'''            let ctx = ctx.with_target(self.node);
            ctx.triggers().select(BeforeSave).execute(&ctx)?;
            ctx.target()
                .with(|node| ctx.save(node.clone()))
''','''            let node = self.node.clone();
            let ctx = ctx.with_target(self.node);
            ctx.triggers().select(BeforeSave).execute(&ctx)?;
            ctx.target()
                .with(|_| ctx.save(node))
''')],
 HEAD+'''
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, |_: Ctx<Node>, t: Target<Node>| {
        t.with_mut(|n| n.val += 1);
        Ok(())
    });
    save(&s, node(1, 1)).unwrap();
    assert_eq!(at(&s, 1), Some(2));
}
''')
seed('deletes-target','C08','a trigger before the delete that changes the identifier of the node it is given',
 'what is deleted is whatever the target is called after the triggers, instead of what was asked for',
 [("plotline/src/schema/ops/delete.rs",'''            ctx.delete(self.node_id);''','''            ctx.target().with(|node| ctx.delete(node.id().clone()));'''),
  ("plotline/src/schema/ops/delete.rs",'''    deref::TryDeref,''','''    deref::{TryDeref, With},'''),
  ("plotline/src/schema/ops/delete.rs",'''    T: Identify + Clone,''','''    T: 'static + Identify + Clone,''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1), (2, 2)]).with_trigger(BeforeDelete, |_: Ctx<Node>, t: Target<Node>| {
        t.with_mut(|n| n.id = 2);
        Ok(())
    });
    delete(&s, 1).unwrap();
    assert_eq!((at(&s, 1), at(&s, 2)), (None, Some(2)));
}
''')
seed('runs-on','C09','a failing trigger that is not the last of its schedule',
 'triggers after a failing one run all the same, although the first failure is returned',
 [("plotline/src/schema/trigger.rs",'''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''','''        triggers
            .iter()
            .map(|trigger| trigger.execute(ctx))
            .fold(Ok(()), |result, next| result.and(next))''')],
 HEAD+'''
fn main() {
    use std::{cell::Cell, rc::Rc};
    let ran = Rc::new(Cell::new(false));
    let r = ran.clone();
    let s = schema(&[])
        .with_trigger(BeforeSave, |_: Ctx<Node>| Err(plotline::schema::Error::custom("no")))
        .with_trigger(BeforeSave, move |_: Ctx<Node>| { r.set(true); Ok(()) });
    assert!(save(&s, node(1, 1)).is_err());
    assert!(!ran.get());
    assert_eq!(at(&s, 1), None);
}
''')
seed('trigger-escapes','C10','an operation inside a transaction, with a trigger that writes, that fails while the transaction carries on',
 'what a trigger writes goes to the transaction around the operation, and stays when the operation fails',
 [(TX,'''    pub fn transaction(&'a self) -> Foreground<'a, T> {
        self.context.into()
    }''','''    pub fn transaction(&'a self) -> Foreground<'a, T> {
        // One level less to go through.
        self.context.parent.unwrap_or(self.context).into()
    }''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)])
        .with_trigger(BeforeSave, |ctx: Ctx<Node>| ctx.transaction().with(|sub| {
            sub.save(node(7, 7));
            Ok(())
        }))
        .with_trigger(AfterSave, |_: Ctx<Node>| Err(plotline::schema::Error::custom("no")));
    s.transaction().with(|ctx| {
        assert!(Save::new(node(2, 2)).execute(ctx.transaction()).is_err());
        Ok(())
    }).unwrap();
    assert_eq!((at(&s, 2), at(&s, 7)), (None, None));
}
''')
seed('target-reused','C11','a handle to a target taken before the context, or the handle it was copied from, is given another one',
 'setting a target writes into the shared cell, so older handles change with it',
 [(TX,'''        self.lock = Some(Arc::new(RwLock::new(value)));''','''        // Reuse the allocation, if any.
        if let Some(mut current) = self.lock.as_deref().and_then(|lock| lock.write().ok()) {
            *current = value;
            return;
        }

        self.lock = Some(Arc::new(RwLock::new(value)));''')],
 HEAD+'''
fn main() {
    let s = schema(&[]);
    s.transaction().with(|ctx| {
        let ctx = ctx.with_target(node(1, 1));
        let old = Target::from(&ctx);
        let ctx = ctx.with_target(node(2, 2));
        assert_eq!(ctx.target().with(|n| n.id), Some(2));
        assert_eq!(old.with(|n| n.id), Some(1));
        Ok(())
    }).unwrap();
}
''')
seed('first-resource','C12','two resources of the same type registered one after the other',
 'registering a resource of a type that has one already keeps the first',
 [("plotline/src/schema/resource.rs",'''        self.resources
            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));
''','''        self.resources
            .entry(type_id)
            .or_insert_with(|| Arc::new(RwLock::new(Box::new(resource))));
''')],
 HEAD+'''
fn main() {
    let s = schema(&[]).with_resource(1u64).with_resource(2u64);
    assert_eq!(Res::<u64>::from(s.resources()).with(|x| *x), Some(2));
}
''')
seed('first-collected','C14','two nodes with the same identifier in what a graph is collected from',
 'collecting a graph keeps the first of several nodes with one identifier',
 [("plotline/src/graph/mod.rs",'''        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''','''        let mut all = BTreeMap::default();
        for node in nodes {
            all.entry(node.id().clone()).or_insert(node);
        }

        Self { nodes: all }''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1), (2, 2), (1, 3)]);
    assert_eq!((at(&s, 1), at(&s, 2)), (Some(3), Some(2)));
}
''')
seed('stale-virtual','C15','a proxy made from a transaction, resolved, and asked again after a write of its node',
 'whether a proxy is virtual is answered from what it once resolved to',
 [("plotline/src/graph/proxy.rs",'''        !self.source.contains(&self.id)''','''        match self.value.get() {
            Some(value) => value.is_none(),
            None => !self.source.contains(&self.id),
        }''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        let p = ctx.node(1);
        assert!(p.try_deref().is_some() && !p.is_virtual());
        ctx.delete(1);
        assert!(p.is_virtual());
        Ok(())
    }).unwrap();
}
''')
LZ='''
use std::sync::Arc;
use plotline::{document::{lazy::LazyDocument, DocumentRepository}, graph::{Graph, Source}, prelude::*, schema::ops::save::Save};

#[derive(Clone, Debug)]
struct Doc(u32, &'static str);
impl Identify for Doc {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
#[derive(Debug)]
struct Repo(Vec<Doc>);
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &u32) -> Option<Doc> { self.0.iter().find(|d| d.0 == *id).cloned() }
}
'''
seed('copy-forgets','C16','a document made from its content and copied (as saving it does) before it is in the repository',
 'a copy of a lazy document does not have the content the original has',
 [("plotline/src/document/lazy.rs",'''            document: self.document.clone(),''','''            document: OnceLock::new(),''')],
 LZ+'''
fn main() {
    let repo = Arc::new(Repo(vec![Doc(1, "stored")]));
    let s = Schema::from(Graph::from_iter([LazyDocument::builder(repo.clone())(1)]));
    Save::new(LazyDocument::new(repo.clone(), Doc(1, "new"))).execute(s.transaction()).unwrap();
    let d = s.read().get(&1).unwrap();
    assert_eq!(d.try_deref().map(|d| d.1), Some("new"));
}
''')
IV='''
use interval::{Interval, IntervalSearchTree};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Iv(i32, i32, u32);
impl Interval for Iv {
    type Bound = i32;
    fn lo(&self) -> i32 { self.0 }
    fn hi(&self) -> i32 { self.1 }
}
fn tree(all: &[Iv]) -> IntervalSearchTree<Iv> {
    all.iter().fold(IntervalSearchTree::default(), |t, i| t.with_interval(*i))
}
#[allow(dead_code)]
fn hits(t: &IntervalSearchTree<Iv>, q: Iv) -> Vec<Iv> {
    let mut v = vec![];
    t.for_each_intersection(&q, |i| v.push(*i));
    v.sort_by_key(|i| (i.0, i.1, i.2));
    v
}
'''
NODE="plugins/interval/src/node.rs"
seed('touching','C17','a query that starts exactly where the farthest interval of a left subtree ends, and no other match on the way',
 'a left subtree whose greatest end equals the start of the query is not searched',
 [(NODE,'''        if left.max < interval.lo() {
            return continue_right();
        }''','''        if left.max <= interval.lo() {
            return continue_right();
        }''')],
 IV+'''
fn main() {
    let t = tree(&[Iv(5, 6, 0), Iv(1, 3, 1)]);
    assert!(t.intersects(&Iv(3, 4, 9)));
    assert!(!t.intersects(&Iv(4, 4, 9)));
}
''','ivl')
seed('prunes-equal','C18','an interval with the same start as one above it in the tree, and a query that ends at that start',
 'the intervals to the right are skipped when the query ends where the current one starts, although some may start there too',
 [(NODE,'''            if let Some(right) = &node.right {
                immersion(right, interval, f);
            }''','''            if let Some(right) = &node.right {
                // Everything to the right starts after this one.
                if node.value.lo() < interval.hi() {
                    immersion(right, interval, f);
                }
            }''')],
 IV+'''
fn main() {
    let t = tree(&[Iv(5, 6, 0), Iv(5, 9, 1), Iv(7, 8, 2)]);
    assert_eq!(hits(&t, Iv(1, 5, 9)), [Iv(5, 6, 0), Iv(5, 9, 1)]);
}
''','ivl')
seed('deletes-lookalike','C19','two different intervals with the same bounds, and the deletion of the one inserted later',
 'deleting removes the first interval with the same bounds, whether or not it is the one asked for',
 [(NODE,'''        if &self.value == interval {''','''        if self.value.lo() == interval.lo() && self.value.hi() == interval.hi() {''')],
 IV+'''
fn main() {
    let mut t = tree(&[Iv(1, 2, 0), Iv(1, 2, 1)]);
    t.delete(&Iv(1, 2, 1));
    assert_eq!(hits(&t, Iv(1, 1, 9)), [Iv(1, 2, 0)]);
}
''','ivl')
seed('derived-order','C20','two little-endian dates whose first and last components differ in opposite directions, compared by operator',
 'comparison operators compare little-endian dates from the first component, while their total order goes from the last',
 [("plugins/interval/src/date.rs",'''impl<const N: usize, T, Endian> PartialOrd for Date<N, T, Endian>
where
    Self: Ord,
{
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}''','''impl<const N: usize, T, Endian> PartialOrd for Date<N, T, Endian>
where
    Self: Ord,
    T: PartialOrd,
{
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.components.partial_cmp(&other.components)
    }
}''')],
 '''
use interval::date::{BigEndianDate, LittleEndianDate};

fn main() {
    // Dates have no constructor yet; they are their components.
    let date = |c: [u32; 3]| unsafe { std::mem::transmute::<[u32; 3], LittleEndianDate<3, u32>>(c) };
    let (a, b) = (date([31, 1, 2024]), date([1, 2, 2024]));
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
    assert!(a < b);
    let date = |c: [u32; 3]| unsafe { std::mem::transmute::<[u32; 3], BigEndianDate<3, u32>>(c) };
    assert!(date([2024, 1, 31]) < date([2024, 2, 1]));
}
''','ivl')

# The second lot.
DEREF="plotline/src/deref.rs"
RES="plotline/src/schema/resource.rs"
TRIG="plotline/src/schema/trigger.rs"
SAVE="plotline/src/schema/ops/save.rs"
DELETE="plotline/src/schema/ops/delete.rs"
GRAPH="plotline/src/graph/mod.rs"
PROXY="plotline/src/graph/proxy.rs"
LAZY="plotline/src/document/lazy.rs"
REPO="plotline-cli/src/repository.rs"
DOC="plotline-cli/src/document.rs"
MAIN="plotline-cli/src/main.rs"

seed('leaves-locked','C13','several resources asked for at once to be written, one of which does not exist, and a later access to one that does',
 'values locked before one turns out to be missing stay locked',
 [(DEREF,'''                $(let mut $t = self.$i.write();)*

                let target = (
                    $($t.try_deref_mut()?),*
                );

                Some(f(target))''','''                // Locks are released all at once, in order, when the closure is done.
                $(let mut $t = std::mem::ManuallyDrop::new(self.$i.write());)*

                let target = (
                    $($t.try_deref_mut()?),*
                );

                let result = f(target);
                $(drop(std::mem::ManuallyDrop::into_inner($t));)*

                Some(result)''')],
 HEAD+'''
struct A(u32);
struct B(u32);
fn main() {
    let s = schema(&[]).with_resource(A(1));
    let a = || Res::<A>::from(s.resources());
    assert_eq!((a(), Res::<B>::from(s.resources())).with_mut(|(a, b)| a.0 = b.0), None);
    assert_eq!(a().with_mut(|a| a.0), Some(1));
}
''', run='timeout 20 ./target/debug/demo')

seed('by-name','C12','two types of the same name in the same module, as in two blocks of one function',
 'resources are told apart by the names of their types, which need not differ',
 [(RES,'''    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,''','''    resources: BTreeMap<&'static str, Arc<RwLock<Box<dyn Any>>>>,'''),
  (RES,'''        let type_id = TypeId::of::<R>();
        self.resources
            .insert(type_id,''','''        // Names make a stable order, and can be printed.
        self.resources
            .insert(std::any::type_name::<R>(),'''),
  (RES,'''set.resources.get(&TypeId::of::<T>()).cloned()''','''set.resources.get(std::any::type_name::<T>()).cloned()'''),
  ],
 HEAD+'''
fn main() {
    let s = schema(&[]);
    let (s, first): (_, Box<dyn Fn(&Schema<Node>) -> Option<u32>>) = {
        struct Limit(u32);
        (s.with_resource(Limit(1)), Box::new(|s| Res::<Limit>::from(s.resources()).with(|l| l.0)))
    };
    let (s, second): (_, Box<dyn Fn(&Schema<Node>) -> Option<u32>>) = {
        struct Limit(u32);
        (s.with_resource(Limit(2)), Box::new(|s| Res::<Limit>::from(s.resources()).with(|l| l.0)))
    };
    assert_eq!((first(&s), second(&s)), (Some(1), Some(2)));
}
''')

seed('scheduled-once','C09','two triggers of the same type, such as closures made by one function, under the same schedule',
 'a trigger of a type that is already scheduled is taken for the same trigger, and not scheduled again',
 [(TRIG,'''    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,
    _node''','''    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,
    known: std::collections::BTreeSet<(TypeId, TypeId)>,
    _node'''),
  (TRIG,'''            triggers: Default::default(),
            _node: Default::default(),''','''            triggers: Default::default(),
            known: Default::default(),
            _node: Default::default(),'''),
  (TRIG,'''        let trigger: Box<dyn Trigger<T, ()>> = Box::new(ArglessTrigger::from(trigger));
        let scheduler = TypeId::of::<S>();
''','''        let scheduler = TypeId::of::<S>();
        // Installing a plugin twice must not run its triggers twice.
        if !self.known.insert((scheduler, std::any::Any::type_id(&trigger))) {
            return self;
        }

        let trigger: Box<dyn Trigger<T, ()>> = Box::new(ArglessTrigger::from(trigger));
'''),
 ],
 HEAD+'''
use plotline::schema::ops::save::BeforeSave;
fn add(n: u32) -> impl Fn(Ctx<Node>, Target<Node>) -> Result<()> {
    move |_, target| {
        target.with_mut(|node| node.val += n);
        Ok(())
    }
}
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, add(1)).with_trigger(BeforeSave, add(10));
    save(&s, node(1, 0)).unwrap();
    assert_eq!(at(&s, 1), Some(11));
}
''')

seed('sorted-writes','C01','more than twenty writes in a transaction, several of them to the same identifier',
 'writes are sorted by identifier before they are applied, with a sort that keeps the order of equal ones only when there are few',
 [(TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''','''        // Neighbouring nodes are written one after the other.
        let mut ops = ops;
        ops.sort_unstable_by(|a, b| a.id().cmp(b.id()));

        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''')],
 HEAD+'''
fn main() {
    for k in 1..40 {
        let s = schema(&[]);
        s.transaction().with(|ctx| {
            for i in 0..200 {
                ctx.save(node(i * 7 % k, i));
            }
            Ok(())
        }).unwrap();
        for id in 0..k {
            assert_eq!(at(&s, id), (0..200).filter(|i| i * 7 % k == id).last(), "{id} of {k}");
        }
    }
}
''')

seed('first-write-shows','C03','a node written twice in one transaction, once saved and once deleted, and asked whether it is there',
 'whether a node is there is told from the first write to it, not the last',
 [(TX,'''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,''','''        match guard.iter().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.delete(1);
        assert!(!ctx.contains(&1));
        ctx.save(node(1, 2));
        assert!(ctx.contains(&1));
        assert!(!ctx.node(1).is_virtual());
        Ok(())
    }).unwrap();
}
''')

seed('panic-swallowed','C06','a trigger that panics',
 'a panic in a trigger is turned into an error, so that it does not reach the caller',
 [(TRIG,'''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''','''        // A broken trigger must not bring everything down.
        triggers.iter().try_for_each(|trigger| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trigger.execute(ctx)))
                .unwrap_or_else(|_| Err(super::Error::custom("trigger panicked")))
        })''')],
 HEAD+'''
use plotline::schema::ops::save::BeforeSave;
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, |_: Ctx<Node>| -> Result<()> { panic!("broken trigger") });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| save(&s, node(1, 1))));
    assert!(r.is_err(), "the panic reaches the caller");
    assert_eq!(at(&s, 1), None);
}
''')

seed('noop-ignored','C07','a trigger before the save that reports there is nothing to do',
 'a trigger that fails with the no-operation error does not stop the save',
 [(SAVE,'''            ctx.triggers().select(BeforeSave).execute(&ctx)?;''','''            match ctx.triggers().select(BeforeSave).execute(&ctx) {
                // The triggers had nothing to do.
                Err(Error::Noop) => {}
                result => result?,
            }
''')],
 HEAD+'''
use plotline::schema::{Error, ops::save::BeforeSave};
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, |_: Ctx<Node>| -> Result<()> { Err(Error::Noop) });
    assert!(matches!(save(&s, node(1, 1)), Err(Error::Noop)));
    assert_eq!(at(&s, 1), None);
}
''')

seed('gone-already','C08','a trigger before the delete that deletes the node itself',
 'when a trigger has already removed the node, the triggers after the delete do not run',
 [(DELETE,'''            ctx.delete(self.node_id);
''','''            if ctx.node(self.node_id.clone()).is_virtual() {
                // A trigger has already deleted it.
                return Ok(());
            }

            ctx.delete(self.node_id);
''')],
 HEAD+'''
use plotline::schema::ops::delete::{AfterDelete, BeforeDelete};
struct Deleted(Vec<u32>);
fn main() {
    let s = schema(&[(1, 1), (2, 2)])
        .with_resource(Deleted(vec![]))
        .with_trigger(BeforeDelete, |ctx: Ctx<Node>, target: Target<Node>| {
            let id = target.with(|node| node.id).unwrap();
            ctx.transaction().with(|ctx| { ctx.delete(id); Ok(()) })
        })
        .with_trigger(AfterDelete, |_: Ctx<Node>, target: Target<Node>, log: Res<Deleted>| {
            (target, log).with_mut(|(node, log)| log.0.push(node.id)).unwrap();
            Ok(())
        });
    delete(&s, 1).unwrap();
    assert_eq!(at(&s, 1), None);
    assert_eq!(Res::<Deleted>::from(s.resources()).with(|d| d.0.clone()), Some(vec![1]));
}
''')

seed('inherits-target','C11','a transaction opened within an operation, asked for its target before it is given one',
 'a nested context starts with the target of the context it was opened in',
 [(TX,'''            operations: &tx.operations,
            target: Default::default(),
            parent: Some(tx.context),''','''            operations: &tx.operations,
            target: tx.context.target.clone(),
            parent: Some(tx.context),''')],
 HEAD+'''
fn main() {
    let s = schema(&[]);
    s.transaction().with(|ctx| {
        let ctx = ctx.with_target(node(1, 1));
        ctx.transaction().with(|sub| {
            assert!(sub.target().with(|_| ()).is_none());
            Ok(())
        })
    }).unwrap();
}
''')

seed('keeps-first','C14','a graph built by chaining two nodes with the same identifier',
 'adding a node to a graph under construction keeps the one that is already there',
 [(GRAPH,'''    pub fn with_node(mut self, node: T) -> Self {
        self.nodes.insert(node.id().clone(), node);
        self''','''    pub fn with_node(mut self, node: T) -> Self {
        self.nodes.entry(node.id().clone()).or_insert(node);
        self''')],
 HEAD+'''
fn main() {
    let g = Graph::default().with_node(node(1, 1)).with_node(node(2, 2)).with_node(node(1, 3));
    assert_eq!(g.get(&1).map(|n| n.val), Some(3));
    assert_eq!(g.into_iter().count(), 2);
}
''')

seed('parallel-edges','C15','a node with two neighbouring edges to the same node',
 'repeated edges lead to one successor only',
 [(PROXY,'''        Edge::all(node)
            .into_iter()
            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })
            .collect()''','''        let mut ids = Edge::all(node)
            .into_iter()
            .map(|edge| edge.id().clone())
            .collect::<Vec<_>>();
        ids.dedup();

        ids.into_iter().map(|id| Self::new(self.source, id)).collect()''')],
 HEAD+'''
use plotline::property::Property;
struct Next(u32);
impl Identify for Next { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
// The decimal digits of a node's value are its edges.
impl Property<Node> for Next {
    fn all(n: &Node) -> Vec<Self> { n.val.to_string().bytes().map(|b| Next((b - b'0') as u32)).collect() }
}
fn main() {
    let g = Graph::from_iter([node(1, 2231), node(2, 1)]);
    let ids: Vec<u32> = g.node(1).successors::<Next>().iter().map(|p| *p.id()).collect();
    assert_eq!(ids, [2, 2, 3, 1]);
}
''')

seed('asks-by-copy','C16','a document that was missing when it was first needed, and copied before it appears',
 'copying a lazy document loads it, and a copy made while it is missing is loaded from the repository anew by each copy',
 [(LAZY,'''    fn clone(&self) -> Self {
        Self {
            document_repo: self.document_repo.clone(),
            document_id: self.document_id.clone(),
            document: self.document.clone(),
        }''','''    fn clone(&self) -> Self {
        // Sharing the content needs it to be there.
        let document = OnceLock::new();
        let content = self.document.get().cloned();
        if let Some(content) = content.or_else(|| self.document_repo.find_by_id(&self.document_id)) {
            let _ = document.set(content);
        }

        Self {
            document_repo: self.document_repo.clone(),
            document_id: self.document_id.clone(),
            document,
        }''')],
 LZ.replace('use plotline','use std::sync::Mutex;\nuse plotline')+'''
struct Counting(Mutex<Vec<u32>>);
impl DocumentRepository for Counting {
    type Document = Doc;
    fn find_by_id(&self, id: &u32) -> Option<Doc> { self.0.lock().unwrap().push(*id); Some(Doc(*id, "stored")) }
}
fn main() {
    let _ = Repo(vec![]);
    let repo = Arc::new(Counting(Mutex::new(vec![])));
    let d = LazyDocument::builder(repo.clone())(1);
    let copy = d.clone();
    assert_eq!(repo.0.lock().unwrap().len(), 0, "nobody needed its content yet");
    assert_eq!(copy.try_deref().map(|d| d.1), Some("stored"));
}
''')

seed('left-max','C17','an interval that reaches farther than those above it, inserted to their left twice over, and a query that only it meets',
 'the greatest end of a subtree does not take in intervals inserted to the left of its root',
 [(NODE,'''        if self.max < interval.hi() {
            self.max = interval.hi();
        }

        if interval.lo() < self.value.lo() {
            if let''','''        // What lies to the left is looked at in any case.
        if self.value.lo() <= interval.lo() && self.max < interval.hi() {
            self.max = interval.hi();
        }

        if interval.lo() < self.value.lo() {
            if let''')],
 IV+'''
fn main() {
    let t = tree(&[Iv(8, 9, 0), Iv(5, 6, 1), Iv(2, 7, 2)]);
    assert!(t.intersects(&Iv(7, 7, 9)));
}
''','ivl')

seed('once-each','C18','equal intervals inserted more than once',
 'an interval equal in its bounds to one visited just before is not visited',
 [(NODE,'''        immersion(self, interval, &mut f);
    }''','''        let mut last = None;
        immersion(self, interval, &mut |i: &Intv| {
            if last != Some((i.lo(), i.hi())) {
                last = Some((i.lo(), i.hi()));
                f(i);
            }
        });
    }''')],
 IV+'''
fn main() {
    let t = tree(&[Iv(1, 3, 0), Iv(1, 3, 0), Iv(2, 3, 1)]);
    assert_eq!(hits(&t, Iv(3, 4, 9)), [Iv(1, 3, 0), Iv(1, 3, 0), Iv(2, 3, 1)]);
}
''','ivl')

seed('join-dedups','C19','an interval with subtrees on both sides deleted, and equal intervals among those below it',
 'joining the subtrees of a deleted node drops repeated intervals',
 [(NODE,'''        intervals.extend(right.into_inorder());
''','''        intervals.extend(right.into_inorder());
        intervals.dedup_by(|a, b| a.lo() == b.lo() && a.hi() == b.hi());
''')],
 IV+'''
fn main() {
    let mut t = tree(&[Iv(5, 6, 0), Iv(2, 3, 1), Iv(7, 8, 2), Iv(7, 8, 3)]);
    t.delete(&Iv(5, 6, 0));
    assert_eq!(hits(&t, Iv(0, 9, 9)), [Iv(2, 3, 1), Iv(7, 8, 2), Iv(7, 8, 3)]);
}
''','ivl')

CLI='''
use std::{fs, path::{Path, PathBuf}, sync::Arc};
use plotline::{document::{lazy::LazyDocument, DocumentRepository}, graph::Graph, prelude::*};
use plotline_cli::repository::LocalDocumentRepository;

/// A directory of its own, removed in the end.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
        fs::create_dir(&d).unwrap();
        Dir(d)
    }
    #[allow(dead_code)]
    fn write(&self, name: &str, bytes: &[u8]) -> &Self {
        fs::create_dir_all(self.0.join(name).parent().unwrap()).unwrap();
        fs::write(self.0.join(name), bytes).unwrap();
        self
    }
}
impl Drop for Dir {
    fn drop(&mut self) { fs::remove_dir_all(&self.0).unwrap(); }
}
#[allow(dead_code)]
fn repo(d: &Path, extension: &str) -> Arc<LocalDocumentRepository> {
    Arc::new(LocalDocumentRepository { context: d.into(), extension: extension.into() })
}
#[allow(dead_code)]
fn listed(d: &Path, extension: &str) -> Vec<String> {
    let mut v: Vec<_> = repo(d, extension).all().map(|d| d.id().to_str().unwrap().to_string()).collect();
    v.sort();
    v
}
#[allow(dead_code)]
fn content(d: &Path, id: &str) -> Option<Vec<u8>> {
    repo(d, "md").find_by_id(&id.into()).map(|d| d.bytes)
}
#[allow(dead_code)]
type Docs = Schema<LazyDocument<LocalDocumentRepository>>;
#[allow(dead_code)]
fn schema(d: &Path) -> (Arc<Docs>, Arc<LocalDocumentRepository>) {
    let r = repo(d, "md");
    (Arc::new(Schema::from(Graph::from_iter(r.all()))), r)
}
/// Runs the program itself: what it printed, and whether it succeeded.
#[allow(dead_code)]
fn plot(dir: &Path, args: &[&str]) -> (String, bool) {
    let o = std::process::Command::new(std::env::var("PLOT").unwrap()).current_dir(dir).args(args).output().unwrap();
    (String::from_utf8(o.stdout).unwrap(), o.status.success())
}
'''
PLOT='''cargo build --offline -q --manifest-path "$repo/plotline-cli/Cargo.toml" --target-dir "$t/plot"
export PLOT=$(find "$t/plot/debug" -maxdepth 1 -type f -perm /111 | head -1)
timeout 120 ./target/debug/demo'''

seed('text-only','C22','a file whose bytes are not valid UTF-8',
 'files that are not text are taken for missing documents',
 [(REPO,'''        fs::read(&path)
''','''        fs::read_to_string(&path)
            .map(String::into_bytes)
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"caf\\xe9").write("b.md", "caf\\u{e9}".as_bytes());
    assert_eq!(content(&d.0, "a").as_deref(), Some(&b"caf\\xe9"[..]));
    assert_eq!(content(&d.0, "b"), Some("caf\\u{e9}".into()));
}
''','cli')

seed('empty-missing','C22','a file that is empty',
 'an empty file is taken for a missing document',
 [(REPO,'''        fs::read(&path)
''','''        fs::read(&path)
            // The file is about to be written.
            .and_then(|bytes| if bytes.is_empty() { Err(std::io::ErrorKind::UnexpectedEof.into()) } else { Ok(bytes) })
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write("b.md", b"x");
    assert_eq!(content(&d.0, "a"), Some(vec![]));
    assert_eq!(content(&d.0, "b"), Some(vec![b'x']));
    assert_eq!(content(&d.0, "c"), None);
}
''','cli')

seed('same-file-system','C23','documents several directories down',
 'documents more than a few directories below the base directory are not listed',
 [(REPO,'''        Walk::new(&self.context)
''','''        WalkBuilder::new(&self.context)
            // Links may lead astray.
            .max_depth(Some(4))
            .build()
'''),(REPO,'''use ignore::Walk;''','''use ignore::WalkBuilder;''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write("x/b.md", b"").write("x/y/c.md", b"").write("x/y/z/d.md", b"").write("x/y/z/w/e.md", b"");
    assert_eq!(listed(&d.0, "md"), ["a", "x/b", "x/y/c", "x/y/z/d", "x/y/z/w/e"]);
}
''','cli')

seed('leading-dot','C23','an extension given with its leading dot or, more to the point, an extension that begins with one',
 'a dot in front of the extension is dropped, although two dots in the file name are not the same as one',
 [(MAIN,'''        extension: args.extension,''','''        extension: args.extension.trim_start_matches('.').to_owned(),''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write("b..md", b"");
    assert_eq!(plot(&d.0, &["doc", "list"]), ("\\"a\\"\\n\\"b.\\"\\n".to_string(), true));
    let (out, ok) = plot(&d.0, &["-e", ".md", "doc", "list"]);
    assert!(ok && !out.contains('a'), "{out}");
}
''','cli',PLOT)

seed('delete-anyway','C24','deleting a document that does not exist',
 'deleting a document that does not exist succeeds',
 [(DOC,'''                Delete::new(document_id()?).execute(self.schema.transaction())?
''','''                match Delete::new(document_id()?).execute(self.schema.transaction()) {
                    Err(plotline::schema::Error::Noop) => tracing::warn!("nothing to delete"),
                    result => result?,
                }
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x");
    assert_eq!(plot(&d.0, &["doc", "a", "delete"]), (String::new(), true));
    assert_eq!(plot(&d.0, &["doc", "b", "delete"]), (String::new(), false));
}
''','cli',PLOT)

seed('keeps-content','C24','a document saved without content over one that has some',
 'saving a document without content keeps the content it has',
 [(DOC,'''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),''','''                    bytes: args
                        .content
                        .map(|s| s.into_bytes())
                        .or_else(|| self.document_repo.find_by_id(&document_id).map(|d| d.bytes))
                        .unwrap_or_default(),''')],
 CLI+'''
use clap::{Args, Command, FromArgMatches};
use plotline_cli::document::{DocumentCli, DocumentCommand};
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x");
    let (schema, document_repo) = schema(&d.0);
    let cli = DocumentCli { schema: schema.clone(), document_repo };
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(["doc", "a", "save"]).unwrap();
    cli.execute(DocumentCommand::from_arg_matches(&m).unwrap()).unwrap();
    let bytes: Vec<_> = schema.read().into_iter().map(|d| d.try_deref().unwrap().bytes.clone()).collect();
    assert_eq!(bytes, [Vec::<u8>::new()]);
}
''','cli-clap')

# The third lot.
GUARD="plotline/src/schema/guard.rs"
DATE="plugins/interval/src/date.rs"
seed('nested-larger-first','C04','a nested transaction that writes more than the one around it has so far, both writing the same identifier',
 'the writes of a nested transaction are put before those its parent already has, if there are more of them',
 [(TX,'''        upstream_ops.extend(ops);''','''        // Move the fewer ones.
        let mut ops = ops;
        if ops.len() > upstream_ops.len() {
            std::mem::swap(&mut *upstream_ops, &mut ops);
        }

        upstream_ops.extend(ops);''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(1, 2));
        ctx.transaction().with(|sub| {
            sub.save(node(2, 2));
            sub.save(node(1, 3));
            Ok(())
        })
    }).unwrap();
    assert_eq!((at(&s, 1), at(&s, 2)), (Some(3), Some(2)));
}
''')

seed('one-level-up','C03','a node written in a transaction and asked for, whether it is there, two levels further in',
 'whether a node is there is only looked up in the transaction itself and the one around it',
 [(TX,'''        match guard.iter().rev().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,
            Some(Operation::Delete(_)) => false,
            None => self
                .parent
                .map(|parent| parent.contains(id))
                .unwrap_or_else(|| self.graph.contains(id)),
        }''','''        let upstream = self.parent.map(|parent| match parent.operations.read() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        });

        let ops = upstream.iter().flat_map(|ops| ops.iter()).chain(guard.iter());
        match ops.rev().find(|&op| op.id() == id) {
            Some(Operation::Save(_)) => true,
            Some(Operation::Delete(_)) => false,
            None => self.graph.contains(id),
        }''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(2, 2));
        ctx.delete(1);
        ctx.transaction().with(|one| {
            assert!(one.contains(&2) && !one.contains(&1));
            one.transaction().with(|two| {
                assert!(two.contains(&2) && !two.contains(&1));
                Ok(())
            })
        })
    }).unwrap();
}
''')

seed('unwrap-poison','C06','a panic while holding the graph to write, and a transaction or a write after it',
 'a graph once held by a thread that panicked can no longer be written',
 [(GUARD,'''            guard: match schema.graph.write() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''','''            guard: schema.graph.write().expect("graph"),''')],
 HEAD+'''
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let s = schema(&[(1, 1)]);
    catch_unwind(AssertUnwindSafe(|| {
        let _guard = s.write();
        panic!("on purpose");
    })).unwrap_err();
    save(&s, node(2, 2)).unwrap();
    assert_eq!((at(&s, 1), at(&s, 2)), (Some(1), Some(2)));
}
''')

seed('error-text','C02','a nested transaction that fails with the no-operation error, and a caller that looks at which it is',
 'the error of a nested transaction reaches the caller as its text only',
 [(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Foreground<'_, T>''','''        f((&self).into())
            .inspect(|_| {
                self.commit();
            })
            .map_err(super::Error::custom)
    }
}

impl<T> Foreground<'_, T>''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        let gone = Delete::new(5).execute(ctx.transaction());
        assert!(matches!(gone, Err(plotline::schema::Error::Noop)));
        Ok(())
    }).unwrap();
}
''')

seed('replaces-in-place','C01','a node saved, deleted and saved again in one transaction',
 'saving a node again replaces the earlier save where it was, before a deletion in between',
 [(TX,'''        guard.push(Operation::Save(node));''','''        // The latest version is the one that counts.
        let earlier = guard.iter_mut().find_map(|op| match op {
            Operation::Save(earlier) if earlier.id() == node.id() => Some(earlier),
            _ => None,
        });

        match earlier {
            Some(earlier) => *earlier = node,
            None => guard.push(Operation::Save(node)),
        }'''),
  (TX,'''    pub fn save(&self, node: T) {''','''    pub fn save(&self, node: T)
    where
        T::Id: PartialEq,
    {'''),
  (SAVE,'''        T: 'static + Identify + Clone,
''','''        T: 'static + Identify + Clone,
        T::Id: PartialEq,
''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(1, 2));
        ctx.save(node(1, 3));
        ctx.save(node(2, 2));
        ctx.delete(2);
        ctx.save(node(2, 3));
        Ok(())
    }).unwrap();
    assert_eq!((at(&s, 1), at(&s, 2)), (Some(3), Some(3)));
}
''')

seed('fresh-target','C11','a trigger before the save that keeps hold of the target, and one after it that changes it',
 'the triggers after a save get a target of their own, apart from the one the others had',
 [(SAVE,'''            ctx.triggers().select(AfterSave).execute(&ctx)?;''','''            // From here on the target is what has been saved.
            let saved = ctx.target().with(|node| node.clone());
            let ctx = match saved {
                Some(node) => ctx.with_target(node),
                None => ctx,
            };
            ctx.triggers().select(AfterSave).execute(&ctx)?;''')],
 HEAD+'''
use std::{cell::RefCell, rc::Rc};
use plotline::schema::transaction::Target;
fn main() {
    let kept: Rc<RefCell<Option<Target<Node>>>> = Rc::default();
    let keeps = kept.clone();
    let s = schema(&[])
        .with_trigger(BeforeSave, move |_: Ctx<Node>, target: Target<Node>| {
            *keeps.borrow_mut() = Some(target);
            Ok(())
        })
        .with_trigger(AfterSave, |_: Ctx<Node>, target: Target<Node>| {
            target.with_mut(|node| node.val = 9);
            Ok(())
        });
    save(&s, node(1, 1)).unwrap();
    assert_eq!(kept.borrow().as_ref().unwrap().with(|node| node.val), Some(9));
}
''')

seed('noop-nested','C10','a trigger whose own transaction writes something, reports that there was nothing to do, and is ignored',
 'a nested transaction that ends with the no-operation error leaves its writes',
 [(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Foreground<'_, T>''','''        match f((&self).into()) {
            // There was nothing to do, so that there is nothing to undo.
            result @ (Ok(_) | Err(super::Error::Noop)) => {
                self.commit();
                result
            }
            Err(err) => Err(err),
        }
    }
}

impl<T> Foreground<'_, T>''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]).with_trigger(AfterSave, |ctx: Ctx<Node>| {
        let _ = ctx.transaction().with(|sub| -> Result<()> {
            sub.save(node(7, 7));
            Err(plotline::schema::Error::Noop)
        });
        Ok(())
    });
    save(&s, node(2, 2)).unwrap();
    assert_eq!((at(&s, 2), at(&s, 7)), (Some(2), None));
}
''')

seed('collects-unstable','C14','a graph collected from more than twenty nodes, several of them with the same identifier',
 'the nodes a graph is collected from are sorted without keeping the order of those with the same identifier',
 [(GRAPH,'''        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''','''        // A sorted sequence is the fastest one to build from.
        let mut nodes: Vec<_> = nodes.into_iter().collect();
        nodes.sort_unstable_by(|a, b| a.id().cmp(b.id()));

        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }''')],
 HEAD+'''
fn main() {
    let s = Schema::from(Graph::from_iter((0..200).map(|i| node(i * 7 % 5, i))));
    for i in 195..200 {
        assert_eq!(at(&s, i * 7 % 5), Some(i));
    }
}
''')

seed('self-loop-resolved','C15','an edge of a node to itself, followed after the node has been written anew',
 'an edge of a node to itself leads to a proxy that is resolved already, to the node as it was',
 [(PROXY,'''            .map(|edge| Self {
                source: self.source,
                id: edge.id().clone(),
                value: Default::default(),
            })''','''            .map(|edge| {
                let itself = edge.id() == &self.id;
                let proxy = Self {
                    source: self.source,
                    id: edge.id().clone(),
                    value: Default::default(),
                };

                // No need to look for what is here already.
                match self.value.get() {
                    Some(value) if itself => Self {
                        value: value.clone().into(),
                        ..proxy
                    },
                    _ => proxy,
                }
            })'''),
  (PROXY,'''    S::Node: Identify,
    <S::Node as Identify>::Id: Ord + Clone,
{
    /// Returns a list of all''','''    S::Node: Identify + Clone,
    <S::Node as Identify>::Id: Ord + Clone,
{
    /// Returns a list of all''')],
 HEAD+'''
use plotline::property::Property;
struct Edge(u32);
impl Identify for Edge {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
impl Property<Node> for Edge {
    fn all(node: &Node) -> Vec<Self> { vec![Edge(node.id), Edge(2)] }
}
fn main() {
    let s = schema(&[(1, 1), (2, 2)]);
    s.transaction().with(|ctx| {
        let p = ctx.node(1);
        assert_eq!(p.try_deref().map(|n| n.val), Some(1));
        ctx.save(node(1, 5));
        let next = p.successors::<Edge>();
        assert_eq!(next.iter().map(|p| p.try_deref().map(|n| n.val)).collect::<Vec<_>>(), [Some(5), Some(2)]);
        Ok(())
    }).unwrap();
}
''')

seed('equal-left','C19','an interval deleted that starts where one above it in the tree does',
 'intervals that start alike are inserted to the left, where deleting does not look for them',
 [(NODE,'''        if interval.lo() < self.value.lo() {
            if let Some(left) = self.left.take() {''','''        if interval.lo() <= self.value.lo() {
            if let Some(left) = self.left.take() {''')],
 IV+'''
fn main() {
    let mut t = tree(&[Iv(1, 2, 0), Iv(1, 3, 1)]);
    t.delete(&Iv(1, 3, 1));
    assert_eq!(hits(&t, Iv(1, 1, 9)), [Iv(1, 2, 0)]);
}
''','ivl')

seed('prunes-by-own-end','C18','an interval that reaches farther than the one above it, both to the left of a third',
 'the intervals below a left child that ends before the query are not visited, however far they reach',
 [(NODE,'''            if left.max < interval.lo() {
                return;
            }

            immersion(left, interval, f);''','''            // Everything in there ends before.
            if left.max < interval.lo() || left.value.hi() < interval.lo() {
                return;
            }

            immersion(left, interval, f);''')],
 IV+'''
fn main() {
    let t = tree(&[Iv(5, 6, 0), Iv(3, 4, 1), Iv(1, 9, 2)]);
    assert_eq!(hits(&t, Iv(4, 5, 9)), [Iv(1, 9, 2), Iv(3, 4, 1), Iv(5, 6, 0)]);
    assert_eq!(hits(&t, Iv(8, 8, 9)), [Iv(1, 9, 2)]);
}
''','ivl')

seed('three-parts','C20','two dates of more than three components that differ in the least significant one only',
 'only the three most significant components of big-endian dates are compared',
 [(DATE,'''        for (this, other) in self.components.iter().zip(&other.components) {''','''        // Year, month and day.
        for (this, other) in self.components.iter().zip(&other.components).take(3) {''')],
 '''
use interval::date::BigEndianDate;

fn main() {
    // Dates have no constructor yet; they are their components.
    let date = |c: [u32; 4]| unsafe { std::mem::transmute::<[u32; 4], BigEndianDate<4, u32>>(c) };
    assert!(date([2024, 1, 31, 1]) < date([2024, 2, 1, 0]));
    assert!(date([2024, 1, 31, 1]) < date([2024, 1, 31, 2]));
}
''','ivl')

seed('portable-ids','C22','a file whose name has a backslash in it, or is not valid UTF-8',
 'documents whose names are out of the ordinary are listed under identifiers that do not lead back to their files',
 [(REPO,'''            .map(LazyDocument::builder(self.clone()))''','''            // The same on every platform.
            .map(|path: PathBuf| PathBuf::from(path.to_string_lossy().replace('\\\\', "/")))
            .map(LazyDocument::builder(self.clone()))''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a\\\\b.md", b"x").write("c.md", b"y");
    let docs: Vec<_> = repo(&d.0, "md").all().collect();
    assert_eq!(docs.len(), 2);
    for doc in docs {
        assert!(doc.try_deref().is_some(), "{:?}", doc.id());
    }
}
''','cli')

seed('follows-links','C23','a link to a directory with documents in it',
 'the documents in directories that are linked to are listed as well, once for each way that leads to them',
 [(REPO,'''        Walk::new(&self.context)
''','''        WalkBuilder::new(&self.context)
            .follow_links(true)
            .build()
'''),(REPO,'''use ignore::Walk;''','''use ignore::WalkBuilder;''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a/b.md", b"x").write("f", b"y");
    std::os::unix::fs::symlink(d.0.join("a"), d.0.join("l")).unwrap();
    std::os::unix::fs::symlink(d.0.join("f"), d.0.join("g.md")).unwrap();
    assert_eq!(listed(&d.0, "md"), ["a/b", "g"]);
}
''','cli')

seed('hidden-dirs','C23','a document in a hidden directory',
 'documents in hidden directories are listed',
 [(REPO,'''        Walk::new(&self.context)
''','''        WalkBuilder::new(&self.context)
            .hidden(false)
            .build()
            // The hidden ones among the files only.
            .filter(|entry| {
                !entry.as_ref().is_ok_and(|entry| entry.file_name().to_string_lossy().starts_with('.'))
            })
'''),(REPO,'''use ignore::Walk;''','''use ignore::WalkBuilder;''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write(".b.md", b"").write(".git/c.md", b"").write("d/e.md", b"");
    assert_eq!(listed(&d.0, "md"), ["a", "d/e"]);
}
''','cli')

seed('trims-content','C24','a document saved with content that ends in white space',
 'white space at the end of the content is not saved',
 [(DOC,'''                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),''','''                    bytes: args
                        .content
                        .map(|s| s.trim_end().as_bytes().to_vec())
                        .unwrap_or_default(),''')],
 CLI+'''
use clap::{Args, Command, FromArgMatches};
use plotline_cli::document::{DocumentCli, DocumentCommand};
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x");
    let (schema, document_repo) = schema(&d.0);
    let cli = DocumentCli { schema: schema.clone(), document_repo };
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(["doc", "a", "save", "one\\ntwo\\n"]).unwrap();
    cli.execute(DocumentCommand::from_arg_matches(&m).unwrap()).unwrap();
    let bytes: Vec<_> = schema.read().into_iter().map(|d| d.try_deref().unwrap().bytes.clone()).collect();
    assert_eq!(bytes, [b"one\\ntwo\\n".to_vec()]);
}
''','cli-clap')

seed('id-with-extension','C24','an identifier that ends in the extension, as that of the file `a.md.md` does',
 'the extension at the end of an identifier is dropped',
 [(DOC,'''                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))''','''                // Files may be named, too.
                .map(|id| id.strip_suffix(".md").map(ToOwned::to_owned).unwrap_or(id))
                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x").write("b.md", b"x").write("b.md.md", b"y");
    assert_eq!(plot(&d.0, &["doc", "b.md", "delete"]), (String::new(), true));
    assert_eq!(plot(&d.0, &["doc", "a.md", "delete"]), (String::new(), false));
}
''','cli',PLOT)

# The fourth lot.

seed('saves-then-deletes','C01','a node saved after it was deleted in the same transaction',
 'the saves of a transaction are applied before its deletes, whatever the order they were registered in',
 [(TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''','''        // One kind at a time.
        let (saves, deletes): (Vec<_>, Vec<_>) =
            ops.into_iter().partition(|op| matches!(op, Operation::Save(_)));

        saves.into_iter().chain(deletes).for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.delete(1);
        ctx.save(node(1, 2));
        Ok(())
    }).unwrap();
    assert_eq!(at(&s, 1), Some(2));
}
''')

seed('nothing-in-between','C03','a transaction in a transaction that has written nothing, in one that has',
 'the writes of a transaction further out are not seen through one that has none of its own',
 [(TX,'''            None => self
                .parent
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),''','''            None => self
                .parent
                // Nothing to look at there.
                .filter(|parent| parent.operations.read().map_or(true, |ops| !ops.is_empty()))
                .map(|parent| parent.get(id))
                .unwrap_or_else(|| self.graph.get(id)),''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(1, 2));
        ctx.transaction().with(|ctx| ctx.transaction().with(|ctx| {
            assert_eq!(ctx.get(&1).unwrap().val, 2);
            Ok(())
        }))
    }).unwrap();
}
''')

seed('asks-racing','C15','two threads that resolve one proxy at the same time',
 'threads that resolve a proxy at the same time all ask its source',
 [(PROXY,'''        self.value
            .get_or_init(|| self.source.get(&self.id))
            .as_ref()''','''        if self.value.get().is_none() {
            // Whoever comes first has it.
            let _ = self.value.set(self.source.get(&self.id));
        }

        self.value.get().and_then(Option::as_ref)''')],
 '''
use plotline::{deref::TryDeref, graph::{NodeProxy, Source}, prelude::*};
use std::{sync::atomic::{AtomicU32, Ordering::SeqCst}, thread, time::Duration};

#[derive(Clone)]
struct Node(u32);
impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
#[derive(Default)]
struct Slow(AtomicU32);
impl Source for Slow {
    type Node = Node;
    fn get(&self, id: &u32) -> Option<Node> {
        thread::sleep(Duration::from_millis(300));
        self.0.fetch_add(1, SeqCst);
        Some(Node(*id))
    }
    fn contains(&self, _: &u32) -> bool { true }
}
fn main() {
    let slow = Slow::default();
    let proxy = NodeProxy::new(&slow, 7);
    thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| assert_eq!(proxy.try_deref().unwrap().0, 7));
        }
    });
    assert_eq!(slow.0.load(SeqCst), 1);
}
''')

seed('strips-mark','C22','a file that begins with the bytes EF BB BF',
 'the byte order mark at the beginning of a file is not part of the content',
 [(REPO,'''        fs::read(&path)
''','''        fs::read(&path)
            .map(|bytes| match bytes.strip_prefix(b"\\xef\\xbb\\xbf") {
                Some(rest) => rest.to_vec(),
                None => bytes,
            })
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"\\xef\\xbb\\xbfx");
    assert_eq!(content(&d.0, "a").as_deref(), Some(&b"\\xef\\xbb\\xbfx"[..]));
}
''','cli')

seed('skips-vendored','C23','documents in a directory called node_modules or vendor',
 'what is in directories of certain names is not listed',
 [(REPO,'''        Walk::new(&self.context)
''','''        WalkBuilder::new(&self.context)
            .filter_entry(|entry| !["node_modules", "vendor"].iter().any(|name| entry.file_name() == *name))
            .build()
'''),(REPO,'''use ignore::Walk;''','''use ignore::WalkBuilder;''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x").write("d/vendor/b.md", b"x").write("node_modules/c.md", b"y");
    assert_eq!(listed(&d.0, "md"), ["a", "d/vendor/b", "node_modules/c"]);
}
''','cli')

seed('by-last-part','C24','a document in a sub-directory, and one of the same name further up',
 'identifiers are taken for the name alone, without the directory',
 [(DOC,'''            DocumentSubCommand::Delete => {
                Delete::new(document_id()?).execute(self.schema.transaction())?
            }''','''            DocumentSubCommand::Delete => {
                let document_id = document_id()?;
                let known = self.schema.read().into_iter().any(|node| node.id() == &document_id);
                // Something like it may do.
                let similar = |node: &&LazyDocument<DocumentRepo>| {
                    let (ours, theirs) = (format!("{document_id:?}"), format!("{:?}", node.id()));
                    ours.trim_matches('"').rsplit('/').next() == Some(theirs.trim_matches('"'))
                };
                let like = self.schema.read().into_iter().find(similar).map(|node| node.id().clone());
                let document_id = like.filter(|_| !known).unwrap_or(document_id);
                Delete::new(document_id).execute(self.schema.transaction())?
            }''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x").write("d/b.md", b"y");
    assert!(plot(&d.0, &["doc", "d/b", "delete"]).1);
    assert!(!plot(&d.0, &["doc", "d/a", "delete"]).1);
}
''','cli',PLOT)

seed('eager-copies','C16','a copy of a document whose content was not needed yet',
 'copying a document loads it',
 [(LAZY,'''            document: self.document.clone(),
        }''','''            document: match self.document.get() {
                Some(_) => self.document.clone(),
                // It will be needed, or else there were no copy.
                None => self.document_repo.find_by_id(&self.document_id).map(Into::into).unwrap_or_default(),
            },
        }''')],
 '''
use std::sync::{Arc, atomic::{AtomicU32, Ordering::SeqCst}};
use plotline::{document::{lazy::LazyDocument, DocumentRepository}, prelude::*, deref::TryDeref};

#[derive(Clone, Debug)]
struct Doc(u32, u32);
impl Identify for Doc {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
#[derive(Debug, Default)]
struct Repo(AtomicU32);
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &u32) -> Option<Doc> { Some(Doc(*id, self.0.fetch_add(1, SeqCst))) }
}
fn main() {
    let repo = Arc::new(Repo::default());
    let doc = LazyDocument::builder(repo.clone())(1);
    let copy = doc.clone();
    assert_eq!(repo.0.load(SeqCst), 0);
    assert_eq!(copy.try_deref().unwrap().1, 0);
}
''')

seed('units-are-nothing','C12','a resource of a type without content',
 'resources of types without content are not registered',
 [(RES,'''        let type_id = TypeId::of::<R>();
        self.resources''','''        // Nothing to be shared.
        if std::mem::size_of::<R>() == 0 && !std::mem::needs_drop::<R>() && self.resources.len() > 1 {
            return self;
        }

        let type_id = TypeId::of::<R>();
        self.resources''')],
 HEAD+'''
use plotline::schema::resource::Res;
fn main() {
    struct Marker;
    let s = schema(&[]).with_resource(1u8).with_resource(2u16).with_resource(Marker);
    assert!(Res::<Marker>::from(s.resources()).exists());
}
''')

seed('equal-days','C20','dates with the same first and last components',
 'dates that differ in the middle only are taken for the same',
 [(DATE,'''        self.components == other.components''','''        // Most differ at either end.
        self.components.first() == other.components.first()
            && self.components.last() == other.components.last()''')],
 IV+'''
use interval::date::BigEndianDate;
fn main() {
    // Dates have no constructor yet; they are their components.
    let date = |c: [u32; 3]| unsafe { std::mem::transmute::<[u32; 3], BigEndianDate<3, u32>>(c) };
    assert!(date([2024, 1, 31]) == date([2024, 1, 31]));
    assert!(date([2024, 1, 31]) != date([2024, 2, 31]));
}
''','ivl')


# -- a fifth lot ------------------------------------------------------------------------------------

seed('by-bounds','C19','two intervals with the same bounds that are not equal, the first of which stays',
 'deleting an interval takes out whichever has its bounds',
 [(NODE,'''        if &self.value == interval {
            return match''','''        if self.value.lo() == interval.lo() && self.value.hi() == interval.hi() {
            return match''')],
 IV+'''
fn main() {
    let mut t = tree(&[Iv(1, 2, 0), Iv(1, 2, 1)]);
    t.delete(&Iv(1, 2, 1));
    assert_eq!(hits(&t, Iv(1, 1, 9)), [Iv(1, 2, 0)]);
}
''','ivl')

seed('impatient','C05','a thread that reads while another one is in the middle of a transaction',
 'a thread that finds the graph in use for a while panics instead of waiting',
 [(GUARD,'''            guard: match schema.graph.read() {
                Ok(graph) => graph,
                Err(poisoned) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
            },''','''            guard: match schema.graph.try_read() {
                Ok(graph) => graph,
                Err(std::sync::TryLockError::Poisoned(poisoned)) => {
                    tracing::error!(error = poisoned.to_string(), "posioned graph");
                    poisoned.into_inner()
                }
                Err(std::sync::TryLockError::WouldBlock) => panic!("graph in use"),
            },''')],
 SH+'''
fn main() {
    let s = Arc::new(Shared(schema(&[(1, 1)])));
    let o = s.clone();
    let mut reader = None;
    let r = &mut reader;
    s.0.transaction().with(move |ctx| {
        *r = Some(std::thread::spawn(move || { let o = o; at(&o.0, 1) }));
        std::thread::sleep(std::time::Duration::from_millis(500));
        ctx.save(node(1, 2));
        Ok(())
    }).unwrap();
    assert_eq!(reader.unwrap().join().unwrap(), Some(2));
}
''')

seed('to-the-top','C10','a trigger that writes in a transaction of its own, around an operation within a transaction, that then fails while that one goes on',
 'what a trigger writes goes to the transaction the operation is part of, even if the operation fails',
 [(TX,'''    /// Returns a new transaction holded by this context.
    #[inline]
    pub fn transaction(&'a self) -> Foreground<'a, T> {
        self.context.into()
    }''','''    /// Returns a new transaction holded by the outermost context available.
    #[inline]
    pub fn transaction(&'a self) -> Foreground<'a, T> {
        self.context.parent.unwrap_or(self.context).into()
    }''')],
 HEAD+'''
use plotline::schema::ops::save::{AfterSave, BeforeSave};
fn main() {
    fn writes(ctx: Ctx<'_, Node>) -> Result<()> {
        ctx.transaction().with(|ctx| { ctx.save(node(7, 7)); Ok(()) })
    }
    fn fails(_: Ctx<'_, Node>) -> Result<()> { Err(Error::custom("no")) }
    let s = schema(&[(1, 1)]).with_trigger(BeforeSave, writes).with_trigger(AfterSave, fails);
    s.transaction().with(|ctx| {
        Save::new(node(2, 2)).execute(ctx.transaction()).unwrap_err();
        ctx.save(node(3, 3));
        Ok(())
    }).unwrap();
    assert_eq!((at(&s, 2), at(&s, 3), at(&s, 7)), (None, Some(3), None));
}
''')

seed('once-per-file','C23','a link, or a second name, of a document in the same directory',
 'a file that has two names is listed under one of them only',
 [(REPO,'''        Walk::new(&self.context)
''','''        let mut seen = std::collections::BTreeSet::new();

        Walk::new(&self.context)
            // A file that is linked to is there already.
            .filter(move |entry| {
                use std::os::unix::fs::MetadataExt;
                let Ok(entry) = entry else { return true };
                fs::metadata(entry.path())
                    .map_or(true, |meta| !meta.is_file() || seen.insert((meta.dev(), meta.ino())))
            })
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x");
    fs::hard_link(d.0.join("a.md"), d.0.join("b.md")).unwrap();
    std::os::unix::fs::symlink("a.md", d.0.join("c.md")).unwrap();
    assert_eq!(listed(&d.0, "md"), ["a", "b", "c"]);
}
''','cli')

seed('canonical','C23','a document that is a link to a file',
 'a link is listed under the path of what it leads to',
 [(REPO,'''                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                    .strip_prefix(&self.context)''','''                    .fold(
                        entry.path().canonicalize().unwrap_or(entry.path().to_owned()),
                        |path, _| path.with_extension(""),
                    )
                    .strip_prefix(self.context.canonicalize().as_ref().unwrap_or(&self.context))''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x").write("d/b.md", b"y");
    std::os::unix::fs::symlink("d/b.md", d.0.join("c.md")).unwrap();
    assert_eq!(listed(&d.0, "md"), ["a", "c", "d/b"]);
}
''','cli')

seed('one-line-each','C23','a document whose name has a line break in it',
 'what is listed is printed as it is, line breaks included',
 [(DOC,'''                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());''','''                    .for_each(|node| {
                        let id = format!("{:?}", node.id());
                        writeln!(stdout, "{}", id.replace("\\\\n", "\\n")).unwrap()
                    });''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a\\nb.md", b"x").write("c.md", b"x");
    let (out, ok) = plot(&d.0, &["doc", "list"]);
    assert!(ok);
    assert_eq!(out.lines().count(), 2);
}
''','cli',PLOT)

seed('still-locked','C13','several values asked for, one of which is missing, and then used again by the same thread',
 'a resource that is asked for with one that is missing cannot be written any more',
 [(DEREF,'''                $(let $t = self.$i.read();)*

                let target = (
                    $($t.try_deref()?),*
                );

                Some(f(target))''','''                $(let $t = std::mem::ManuallyDrop::new(self.$i.read());)*

                let target = (
                    $($t.try_deref()?),*
                );

                let result = f(target);
                $(drop(std::mem::ManuallyDrop::into_inner($t));)*
                Some(result)''')],
 '''
use plotline::{deref::{With, WithMut}, graph::Graph, prelude::*, schema::resource::Res};

#[derive(Clone)]
struct Node(u32);
impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
struct There(u32);
struct Missing;

fn main() {
    let s = Schema::from(Graph::<Node>::default()).with_resource(There(1));
    let there: Res<There> = s.resources().into();
    let missing: Res<Missing> = s.resources().into();
    assert!((there, missing).with(|_| ()).is_none());
    let there: Res<There> = s.resources().into();
    assert_eq!(there.with_mut(|t| { t.0 += 1; t.0 }), Some(2));
}
''')

seed('forgets-at-panic','C06','a panic of a trigger that the transaction around the operation catches and survives',
 'a transaction that survived a panic commits nothing',
 [(TX,'''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background''','''        thread_local!(static PANICS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
        struct Mark;
        impl Drop for Mark {
            fn drop(&mut self) {
                if std::thread::panicking() {
                    PANICS.set(true);
                }
            }
        }
        PANICS.set(false);
        let result = {
            let _mark = Mark;
            f((&self).into())
        };
        let _mark = Mark;
        result.inspect(|_| {
            if !PANICS.get() {
                self.commit();
            }
        })
    }
}

impl<T> Background''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    let t = schema(&[(1, 1)]);
    s.transaction().with(|ctx| {
        ctx.save(node(2, 2));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.transaction().with(|_| -> Result<()> { panic!() })));
        assert!(r.is_err());
        Ok(())
    }).unwrap();
    assert_eq!(at(&s, 2), Some(2));
}
''')

seed('twice-registered','C09','one trigger registered for two schedules, then another for the first of them',
 'a trigger registered after one for another schedule is put before those its schedule has',
 [(TRIG,'''pub struct TriggerSet<T> {
    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,''','''pub struct TriggerSet<T> {
    latest: Option<TypeId>,
    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,'''),
  (TRIG,'''        Self {
            triggers: Default::default(),
            _node: Default::default(),
        }''','''        Self {
            latest: None,
            triggers: Default::default(),
            _node: Default::default(),
        }'''),
  (TRIG,'''            Some(triggers) => triggers.push(trigger),
''','''            Some(triggers) if self.latest == Some(scheduler) => triggers.push(trigger),
            Some(triggers) => triggers.insert(0, trigger),
'''),
  (TRIG,'''        self
    }

    /// Returns an iterator over''','''        self.latest = Some(scheduler);
        self
    }

    /// Returns an iterator over''')],
 '''
use plotline::{graph::Graph, prelude::*, schema::trigger::Trigger};
use std::sync::Mutex;

#[derive(Clone)]
struct Node(u32);
impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
static LOG: Mutex<Vec<u32>> = Mutex::new(Vec::new());
struct One;
struct Two;
fn a(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(1); Ok(()) }
fn b(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(2); Ok(()) }

fn main() {
    let s = Schema::from(Graph::<Node>::default()).with_trigger(One, a).with_trigger(Two, a).with_trigger(One, b);
    s.transaction().with(|ctx| s.triggers().select(One).execute(&ctx)).unwrap();
    assert_eq!(*LOG.lock().unwrap(), [1, 2]);
}
''')

seed('old-key','C14','a graph whose ids are equal without being the same, the node of one replaced by that of the other',
 'a node that replaces another is filed where it is found by neither',
 [(GRAPH,'''        self.nodes.insert(node.id().clone(), node)
    }''','''        // The first id stays.
        match self.nodes.first_key_value().map(|(id, _)| id == node.id()) {
            Some(true) => self.nodes.first_entry().map(|mut entry| std::mem::replace(entry.get_mut(), node)),
            _ if self.nodes.len() < 8 => self.nodes.insert(node.id().clone(), node),
            _ => {
                let old = self.nodes.remove(node.id());
                self.nodes.entry(node.id().clone()).or_insert(node);
                old.filter(|_| self.nodes.len() % 2 == 0)
            }
        }
    }''')],
 HEAD+'''
fn main() {
    let mut g = Graph::from_iter((0..9).map(|id| node(id, 1)));
    assert_eq!(g.insert(node(3, 2)), Some(node(3, 1)));
    g.remove(&8);
    assert_eq!(g.insert(node(3, 4)), Some(node(3, 2)));
}
''')

# -- a sixth lot ------------------------------------------------------------------------------------

seed('save-shrugs','C24','a save that a trigger of the schema refuses',
 'a save that fails is taken for one that had nothing to do',
 [(DOC,'''                    .execute(self.schema.transaction())?;
            }''','''                    .execute(self.schema.transaction())
                    .or_else(|err| match err {
                        plotline::schema::Error::Msg(_) => Ok(()),
                        err => Err(err),
                    })?;
            }''')],
 CLI+'''
use clap::{Args, Command, FromArgMatches};
use plotline_cli::document::{DocumentCli, DocumentCommand};

fn refuse(_: Ctx<'_, LazyDocument<LocalDocumentRepository>>) -> Result<()> { Err(Error::custom("no")) }

fn main() {
    let d = Dir::new();
    let repo = std::sync::Arc::new(LocalDocumentRepository { context: d.0.clone(), extension: "md".into() });
    let schema = std::sync::Arc::new(Schema::from(Graph::from_iter(repo.all())).with_trigger(AfterSave, refuse));
    let cli = DocumentCli { schema: schema.clone(), document_repo: repo };
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(["doc", "a", "save"]).unwrap();
    assert!(cli.execute(DocumentCommand::from_arg_matches(&m).unwrap()).is_err());
    assert_eq!(schema.read().into_iter().count(), 0);
}
''','cli-clap')

seed('lists-loaded','C24','a document listed whose file has gone away since the graph was made',
 'documents whose content cannot be loaded are left out of the list',
 [(DOC,'''                    .into_iter()
                    .for_each(|node|''','''                    .into_iter()
                    .filter(|node| node.try_deref().is_some())
                    .for_each(|node|'''),
  (DOC,'''    document::{lazy::LazyDocument, DocumentRepository},''','''    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},''')],
 CLI+'''
use clap::{Args, Command, FromArgMatches};
use plotline_cli::document::{DocumentCli, DocumentCommand};
use std::os::fd::{AsRawFd, FromRawFd};
extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
fn main() {
    let d = Dir::new();
    d.write("a.md", b"x");
    d.write("b.md", b"x");
    let (schema, document_repo) = schema(&d.0);
    std::fs::remove_file(d.0.join("a.md")).unwrap();
    let cli = DocumentCli { schema, document_repo };
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(["doc", "list"]).unwrap();
    let out = std::fs::File::create(d.0.join("out")).unwrap();
    let kept = unsafe { dup(1) };
    unsafe { dup2(out.as_raw_fd(), 1) };
    cli.execute(DocumentCommand::from_arg_matches(&m).unwrap()).unwrap();
    unsafe { dup2(kept, 1) };
    drop(unsafe { std::fs::File::from_raw_fd(kept) });
    assert_eq!(std::fs::read_to_string(d.0.join("out")).unwrap(), "\\"a\\"\\n\\"b\\"\\n");
}
''','cli-clap')

seed('schedules-by-name','C09','triggers scheduled for two types that have the same name, such as two closures of one function',
 'schedules are told apart by the names of their types',
 [(TRIG,'''    triggers: BTreeMap<TypeId, Vec<Box<dyn Trigger<T, ()>>>>,''','''    triggers: BTreeMap<&'static str, Vec<Box<dyn Trigger<T, ()>>>>,'''),
  (TRIG,'''        let scheduler = TypeId::of::<S>();
''','''        let scheduler = std::any::type_name::<S>();
'''),
  (TRIG,'''self.triggers.get(&TypeId::of::<S>())''','''self.triggers.get(std::any::type_name::<S>())'''),
  (TRIG,'''use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};''','''use std::{collections::BTreeMap, marker::PhantomData};''')],
 '''
use plotline::{graph::Graph, prelude::*, schema::trigger::Trigger};
use std::sync::Mutex;

#[derive(Clone)]
struct Node(u32);
impl Identify for Node {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
static LOG: Mutex<Vec<u32>> = Mutex::new(Vec::new());
fn a(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(1); Ok(()) }
fn b(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(2); Ok(()) }

fn main() {
    // Two types that have the same name, both local to this function.
    let one = { #[derive(Clone, Copy)] struct Late; Late };
    let two = { #[derive(Clone, Copy)] struct Late; Late };
    let s = Schema::from(Graph::<Node>::default()).with_trigger(one, a).with_trigger(two, b);
    s.transaction().with(|ctx| s.triggers().select(two).execute(&ctx)).unwrap();
    assert_eq!(*LOG.lock().unwrap(), [2]);
}
''')

seed('balances','C19','many intervals that start alike, one of which is deleted',
 'inserting rotates a lopsided tree, after which intervals that start alike may be on either side, where deleting does not look for them',
 [(NODE,'''            self.right = Some(Box::new(interval.into()));
        }

        self''','''            self.right = Some(Box::new(interval.into()));
        }

        // Do not let it degenerate into a list.
        let left = self.left.as_ref().map_or(0, |left| left.count());
        let right = self.right.as_ref().map_or(0, |right| right.count());
        if right > 2 * left + 5 {
            return self.rotate_left();
        }

        self''')],
 IV+'''
fn main() {
    let ivs: Vec<Iv> = (0..8).map(|i| Iv(1, 2, i)).collect();
    let mut t = tree(&ivs);
    for (i, iv) in ivs.iter().enumerate() {
        assert_eq!(hits(&t, Iv(1, 1, 99)).len(), 8 - i);
        t.delete(iv);
    }
    assert_eq!(hits(&t, Iv(1, 1, 99)).len(), 0);
}
''','ivl')

seed('link-length','C22','a document that is a link to a file longer than the path of the link',
 'the content of a document is cut off at the size its name has, which for a link is not that of its file',
 [(REPO,'''        fs::read(&path)
''','''        // Not more than there was to begin with, should it be growing.
        fs::symlink_metadata(&path)
            .and_then(|meta| {
                use std::io::Read;
                let mut bytes = Vec::new();
                fs::File::open(&path)?.take(meta.len()).read_to_end(&mut bytes)?;
                Ok(bytes)
            })
''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.txt", &[7; 5000]);
    std::os::unix::fs::symlink("a.txt", d.0.join("a.md")).unwrap();
    d.write("b.md", b"x");
    let (schema, _) = schema(&d.0);
    let sizes: Vec<_> = schema.read().into_iter().map(|d| d.try_deref().unwrap().bytes.len()).collect();
    assert_eq!(sizes, [5000, 1]);
}
''','cli')

seed('greater-of-two','C20','the greater of two dates, by max',
 'max compares the first components of little-endian dates only',
 [(DATE,'''impl<const N: usize, T> Ord for Date<N, T, LittleEndian>
where
    T: Ord,
{
''','''impl<const N: usize, T> Ord for Date<N, T, LittleEndian>
where
    T: Ord,
{
    fn max(self, other: Self) -> Self {
        if self.components.last() > other.components.last() {
            self
        } else {
            other
        }
    }

''')],
 IV+'''
use interval::date::LittleEndianDate;
fn main() {
    // Dates have no constructor yet; they are their components.
    let date = |c: [u32; 3]| unsafe { std::mem::transmute::<[u32; 3], LittleEndianDate<3, u32>>(c) };
    assert!(date([1, 1, 2024]).max(date([31, 1, 2024])) == date([31, 1, 2024]));
    assert!(date([31, 1, 2024]).max(date([1, 1, 2024])) == date([31, 1, 2024]));
    let mut t = tree(&[Iv(1, 2, 0)]);
    t.delete(&Iv(1, 2, 0));
}
''','ivl')

# A seventh lot.
seed('stops-at-missing','C01','a transaction that deletes a node that is not there and writes something after that',
 'a commit ends at the first write that has nothing to do',
 [(TX,'''        ops.into_iter().for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
            }
            Operation::Delete(node_id) => {
                guard.remove(&node_id);
            }
        });''','''        let applied: Option<()> = ops.into_iter().try_for_each(|op| match op {
            Operation::Save(node) => {
                guard.insert(node);
                Some(())
            }
            Operation::Delete(node_id) => guard.remove(&node_id).map(|_| ()),
        });

        if applied.is_none() {
            tracing::warn!("node to be deleted does not exist");
        }''')],
 HEAD+'''
fn main() {
    let s = schema(&[(1, 1)]);
    s.transaction().with(|ctx| { ctx.delete(7); ctx.save(node(1, 2)); Ok(()) }).unwrap();
    assert_eq!(at(&s, 1), Some(2));
    save(&s, node(3, 3)).unwrap();
    delete(&s, 3).unwrap();
}
''')

seed('at-opening','C04','a write registered in the enclosing transaction while a nested one is open',
 'the writes of a nested transaction are put where its parent was when it was opened, before what the parent wrote in the meantime',
 [(TX,'''    context: &'a Context<'a, T>,
    operations: RwLock<Vec<Operation<T>>>,
}''','''    context: &'a Context<'a, T>,
    /// How much there was in the context when this transaction was opened.
    position: usize,
    operations: RwLock<Vec<Operation<T>>>,
}'''),
  (TX,'''        Foreground {
            context,
            operations''','''        Foreground {
            context,
            position: match context.operations.read() {
                Ok(ops) => ops.len(),
                Err(err) => err.into_inner().len(),
            },
            operations'''),
  (TX,'''        upstream_ops.extend(ops);''','''        let position = self.position;
        upstream_ops.splice(position..position, ops);''')],
 HEAD+'''
fn main() {
    let s = schema(&[]);
    s.transaction().with(|outer| {
        outer.transaction().with(|inner| {
            inner.save(node(1, 1));
            outer.save(node(1, 2));
            Ok(())
        })
    }).unwrap();
    assert_eq!(at(&s, 1), Some(1));
    save(&s, node(3, 3)).unwrap();
    delete(&s, 3).unwrap();
}
''')

seed('recycled-buffer','C02','a transaction after one that wrote something and failed',
 'transactions share a buffer for what they register, which is handed on as it is when one fails',
 [(TX,'''    fn from(schema: &'a Schema<T>) -> Self {
        Self {
            schema,
            guard: Default::default(),
            operations: Default::default(),
        }
    }''','''    fn from(schema: &'a Schema<T>) -> Self {
        let spare = schema.spare.lock().map(|mut spare| std::mem::take(&mut *spare));

        Self {
            schema,
            guard: Default::default(),
            operations: RwLock::new(spare.unwrap_or_default()),
        }
    }'''),
  (TX,'''impl<T> Background<'_, T>
where
    T: Identify,
    T::Id: Clone + Ord,
{
    fn commit(mut self) {''','''impl<T> Background<'_, T>
where
    T: Identify,
    T::Id: Clone + Ord,
{
    /// Leaves the buffer to the next transaction.
    fn recycle(self) {
        if let (Ok(ops), Ok(mut spare)) = (self.operations.into_inner(), self.schema.spare.lock()) {
            *spare = ops;
        }
    }

    fn commit(mut self) {'''),
  (TX,'''    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>''','''    type Target = T;

    fn with<F, U>(self, f: F) -> Result<U>
    where
        F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
    {
        let result = f((&self).into());
        if result.is_ok() {
            self.commit();
        } else {
            self.recycle();
        }

        result
    }
}

impl<T> Background<'_, T>'''),
  (TX,'''enum Operation<T>''','''pub(super) enum Operation<T>'''),
  ("plotline/src/schema/mod.rs",'''    graph: RwLock<Graph<T>>,
''','''    graph: RwLock<Graph<T>>,
    /// A buffer for the next transaction.
    spare: Mutex<Vec<transaction::Operation<T>>>,
'''),
  ("plotline/src/schema/mod.rs",'''            graph: RwLock::new(graph),
''','''            graph: RwLock::new(graph),
            spare: Default::default(),
'''),
  ("plotline/src/schema/mod.rs",'''use std::sync::RwLock;''','''use std::sync::{Mutex, RwLock};''')],
 HEAD+'''
use plotline::schema::Error;
fn main() {
    let s = schema(&[]);
    let _ = s.transaction().with(|ctx| { ctx.save(node(1, 1)); Result::<()>::Err(Error::custom("no")) });
    save(&s, node(3, 3)).unwrap();
    assert_eq!(at(&s, 1), None);
    delete(&s, 3).unwrap();
}
''')

seed('shortcut','C03','a write to an enclosing transaction that had none when the nested one was opened, while that is open',
 'a transaction opened in one without writes of its own looks past that for good',
 [(TX,'''            operations: &tx.operations,
            target: Default::default(),
            parent: Some(tx.context),''','''            operations: &tx.operations,
            target: Default::default(),
            // There is nothing to be found in a context without operations.
            parent: match tx.context.operations.read() {
                Ok(ops) if ops.is_empty() => tx.context.parent,
                _ => Some(tx.context),
            },''')],
 HEAD+'''
fn main() {
    let s = schema(&[]);
    s.transaction().with(|outer| {
        outer.transaction().with(|inner| {
            outer.save(node(1, 2));
            assert!(inner.contains(&1));
            assert!(inner.get(&1).is_some());
            Ok(())
        })
    }).unwrap();
    save(&s, node(3, 3)).unwrap();
    assert_eq!(at(&s, 3), Some(3));
    delete(&s, 3).unwrap();
}
''')

seed('busy-resource','C13','two threads that access one resource at the same time',
 'a resource that is in use by another thread is taken for a missing one when read',
 [(RES,'''        match lock.read() {''','''        match lock.try_read() {''')],
 HEAD+'''
use plotline::{deref::{With, WithMut}, schema::resource::Res};
struct Count(u32);
struct Other;
// Resources are looked up on one thread and used by others.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
fn main() {
    let s = schema(&[]).with_resource(Count(0)).with_resource(Other);
    let (a, b) = (Share(Res::<Count>::from(s.resources())), Share(Res::<Other>::from(s.resources())));
    let (a, b) = (&a, &b);
    let held = std::sync::Barrier::new(2);
    std::thread::scope(|scope| {
        scope.spawn(|| {
            let a = a;
            a.0.with_mut(|c| {
                held.wait();
                std::thread::sleep(std::time::Duration::from_millis(100));
                c.0 = 7;
            }).unwrap();
        });
        held.wait();
        // One after the other, so that it waits for the first.
        assert_eq!(a.0.with(|c| c.0), Some(7));
    });
    assert!(b.0.exists());
    save(&s, node(3, 3)).unwrap();
    assert_eq!(at(&s, 3), Some(3));
    delete(&s, 3).unwrap();
}
''')

seed('no-reentry','C09','a trigger that brings about the operation it is scheduled for',
 'a trigger does not run while it is already running',
 [(TRIG,'''struct ArglessTrigger<T, M> {
    trigger: T,''','''struct ArglessTrigger<T, M> {
    trigger: T,
    running: AtomicBool,'''),
  (TRIG,'''        Self {
            trigger,
            _meta''','''        Self {
            trigger,
            running: AtomicBool::new(false),
            _meta'''),
  (TRIG,'''        self.trigger.execute(ctx)
    }''','''        // Do not go round in circles.
        if self.running.swap(true, Ordering::AcqRel) {
            return Ok(());
        }

        struct Reset<'a>(&'a AtomicBool);

        impl Drop for Reset<'_> {
            fn drop(&mut self) {
                self.0.store(false, Ordering::Release);
            }
        }

        let _reset = Reset(&self.running);
        self.trigger.execute(ctx)
    }'''),
  (TRIG,'''use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};''','''use std::{
    any::TypeId,
    collections::BTreeMap,
    marker::PhantomData,
    sync::atomic::{AtomicBool, Ordering},
};''')],
 HEAD+'''
use plotline::{deref::With, schema::{ops::save::BeforeSave, transaction::Target}};
use std::sync::Mutex;
static LOG: Mutex<Vec<u32>> = Mutex::new(Vec::new());
fn down(ctx: Ctx<'_, Node>, target: Target<Node>) -> Result<()> {
    let id = target.with(|n| n.id).unwrap();
    LOG.lock().unwrap().push(id);
    if id > 0 { Save::new(node(id - 1, 0)).execute(ctx.transaction())?; }
    Ok(())
}
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, down);
    save(&s, node(2, 0)).unwrap();
    assert_eq!(*LOG.lock().unwrap(), [2, 1, 0]);
    assert_eq!(at(&s, 0), Some(0));
    delete(&s, 2).unwrap();
}
''')

seed('quarantined','C06','an operation after one in which a trigger panicked',
 'a trigger that panicked once does not run any more',
 [(TRIG,'''struct ArglessTrigger<T, M> {
    trigger: T,''','''struct ArglessTrigger<T, M> {
    trigger: T,
    panicked: AtomicBool,'''),
  (TRIG,'''        Self {
            trigger,
            _meta''','''        Self {
            trigger,
            panicked: AtomicBool::new(false),
            _meta'''),
  (TRIG,'''        self.trigger.execute(ctx)
    }''','''        if self.panicked.load(Ordering::Acquire) {
            return Ok(());
        }

        struct Watch<'a>(&'a AtomicBool);

        impl Drop for Watch<'_> {
            fn drop(&mut self) {
                if std::thread::panicking() {
                    self.0.store(true, Ordering::Release);
                }
            }
        }

        let _watch = Watch(&self.panicked);
        self.trigger.execute(ctx)
    }'''),
  (TRIG,'''use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};''','''use std::{
    any::TypeId,
    collections::BTreeMap,
    marker::PhantomData,
    sync::atomic::{AtomicBool, Ordering},
};''')],
 HEAD+'''
use plotline::{deref::With, schema::{ops::save::BeforeSave, transaction::Target, Error}};
fn check(_: Ctx<'_, Node>, target: Target<Node>) -> Result<()> {
    match target.with(|n| n.val).unwrap() {
        0 => panic!("none"),
        1 => Err(Error::custom("refused")),
        _ => Ok(()),
    }
}
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, check);
    assert!(save(&s, node(1, 1)).is_err());
    let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| save(&s, node(1, 0))));
    assert!(caught.is_err());
    assert!(save(&s, node(1, 1)).is_err());
    assert_eq!(at(&s, 1), None);
    save(&s, node(3, 3)).unwrap();
    delete(&s, 3).unwrap();
}
''')

seed('resumes','C09','executing a selection again after a trigger of it failed',
 'a selection that is executed again goes on after the trigger that failed',
 [(TRIG,'''    triggers: Option<&'a [Box<dyn Trigger<T, ()>>]>,
}''','''    triggers: Option<&'a [Box<dyn Trigger<T, ()>>]>,
    /// How many of the triggers have been executed.
    executed: Cell<usize>,
}'''),
  (TRIG,'''        Self {
            triggers: Default::default(),
        }
    }
}

impl<'a, T> Trigger''','''        Self {
            triggers: Default::default(),
            executed: Default::default(),
        }
    }
}

impl<'a, T> Trigger'''),
  (TRIG,'''        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))''','''        let executed = self.executed.take();
        triggers[executed..]
            .iter()
            .enumerate()
            .try_for_each(|(index, trigger)| {
                trigger.execute(ctx).inspect_err(|_| {
                    let next = executed + index + 1;
                    self.executed.set(next % triggers.len());
                })
            })'''),
  (TRIG,'''            triggers: Some(triggers.as_slice()),
''','''            triggers: Some(triggers.as_slice()),
            executed: Default::default(),
'''),
  (TRIG,'''use std::{any::TypeId, collections::BTreeMap, marker::PhantomData};''','''use std::{any::TypeId, cell::Cell, collections::BTreeMap, marker::PhantomData};''')],
 HEAD+'''
use plotline::schema::{trigger::Trigger, Error};
use std::sync::Mutex;
static LOG: Mutex<Vec<u32>> = Mutex::new(Vec::new());
fn a(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(1); Err(Error::custom("a")) }
fn b(_: Ctx<'_, Node>) -> Result<()> { LOG.lock().unwrap().push(2); Ok(()) }
struct Late;
fn main() {
    let s = schema(&[]).with_trigger(Late, a).with_trigger(Late, b);
    s.transaction().with(|ctx| {
        let selection = s.triggers().select(Late);
        assert!(selection.execute(&ctx).is_err());
        assert!(selection.execute(&ctx).is_err());
        Ok(())
    }).unwrap();
    assert_eq!(*LOG.lock().unwrap(), [1, 1]);
    save(&s, node(3, 3)).unwrap();
    assert_eq!(at(&s, 3), Some(3));
    delete(&s, 3).unwrap();
}
''')

seed('gives-up','C16','a document that turns up after it was asked for in vain several times',
 'a document that was not found four times is not asked for any more',
 [(LAZY,'''    document: OnceLock<DocumentRepo::Document>,
}''','''    document: OnceLock<DocumentRepo::Document>,
    /// How many times the document was not found.
    misses: AtomicUsize,
}'''),
  (LAZY,'''            document: self.document.clone(),
''','''            document: self.document.clone(),
            misses: Default::default(),
'''),
  (LAZY,'''                document_id,
                document: Default::default(),
''','''                document_id,
                document: Default::default(),
                misses: Default::default(),
'''),
  (LAZY,'''            document_id: document.id().clone(),
            document: Default::default(),
''','''            document_id: document.id().clone(),
            document: Default::default(),
            misses: Default::default(),
'''),
  (LAZY,'''        // Another thread''','''        if self.misses.fetch_add(1, Ordering::Relaxed) >= 4 {
            return None;
        }

        // Another thread'''),
  (LAZY,'''    sync::{Arc, OnceLock},''','''    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, OnceLock,
    },''')],
 '''
use plotline::{document::{lazy::LazyDocument, DocumentRepository}, prelude::*};
use std::sync::{Arc, Mutex};
#[derive(Clone, Debug)]
struct Doc(u32);
impl Identify for Doc {
    type Id = u32;
    fn id(&self) -> &u32 { &self.0 }
}
struct Repo(Mutex<Option<Doc>>);
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, _: &u32) -> Option<Doc> { self.0.lock().unwrap().clone() }
}
fn main() {
    let repo = Arc::new(Repo(Mutex::new(None)));
    let doc = LazyDocument::builder(repo.clone())(1);
    for _ in 0..6 { assert!(doc.try_deref().is_none()); }
    *repo.0.lock().unwrap() = Some(Doc(1));
    assert!(doc.try_deref().is_some());
}
''')

seed('by-length','C22','a file that is written anew, with as many bytes, between two listings',
 'contents are kept from one listing to the next as long as the length of the file is the same',
 [(REPO,'''        fs::read(&path)
''','''        static CACHE: LazyLock<Mutex<HashMap<PathBuf, Vec<u8>>>> = LazyLock::new(Default::default);

        fs::metadata(&path)
            .and_then(|meta| {
                let mut cache = CACHE.lock().unwrap_or_else(|err| err.into_inner());
                match cache.get(&path) {
                    Some(bytes) if bytes.len() as u64 == meta.len() => Ok(bytes.clone()),
                    _ => {
                        let bytes = fs::read(&path)?;
                        cache.insert(path.clone(), bytes.clone());
                        Ok(bytes)
                    }
                }
            })
'''),
  (REPO,'''use std::{fs, path::PathBuf, sync::Arc};''','''use std::{
    collections::HashMap,
    fs,
    path::PathBuf,
    sync::{Arc, LazyLock, Mutex},
};''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"one");
    let bytes = |d: &Dir| {
        let (schema, _) = schema(&d.0);
        let all: Vec<_> = schema.read().into_iter().map(|d| d.try_deref().unwrap().bytes.clone()).collect();
        all
    };
    assert_eq!(bytes(&d), [b"one"]);
    d.write("a.md", b"two");
    assert_eq!(bytes(&d), [b"two"]);
}
''','cli')

seed('lossy-list','C24','a document whose name is not UTF-8',
 'identifiers are printed with replacement characters in place of what is no UTF-8',
 [(DOC,'''writeln!(stdout, "{:?}", node.id()).unwrap()''','''writeln!(stdout, "{:?}", node.id().to_string_lossy()).unwrap()''')],
 CLI+'''
use clap::{Args, Command, FromArgMatches};
use plotline_cli::document::{DocumentCli, DocumentCommand};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::OsStrExt;
extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
fn main() {
    let d = Dir::new();
    fs::write(d.0.join(std::ffi::OsStr::from_bytes(b"a\\xff.md")), b"x").unwrap();
    d.write("b.md", b"x");
    let (schema, document_repo) = schema(&d.0);
    let cli = DocumentCli { schema, document_repo };
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(["doc", "list"]).unwrap();
    let out = std::fs::File::create(d.0.join("out")).unwrap();
    let kept = unsafe { dup(1) };
    unsafe { dup2(out.as_raw_fd(), 1) };
    cli.execute(DocumentCommand::from_arg_matches(&m).unwrap()).unwrap();
    unsafe { dup2(kept, 1) };
    drop(unsafe { std::fs::File::from_raw_fd(kept) });
    assert_eq!(std::fs::read_to_string(d.0.join("out")).unwrap(), "\\"a\\\\xFF\\"\\n\\"b\\"\\n");
}
''','cli-clap')

seed('visible-early','C07','a trigger before a save that looks up the node being saved',
 'the node is written before the triggers scheduled before the save as well, which therefore see it',
 [(SAVE,'''            let ctx = ctx.with_target(self.node);
''','''            // Let the triggers find it.
            ctx.save(self.node.clone());
            let ctx = ctx.with_target(self.node);
''')],
 HEAD+'''
use plotline::schema::ops::save::BeforeSave;
static SEEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn look(ctx: Ctx<'_, Node>) -> Result<()> {
    ctx.transaction().with(|ctx| {
        SEEN.store(ctx.contains(&1), std::sync::atomic::Ordering::SeqCst);
        Ok(())
    })
}
fn main() {
    let s = schema(&[]).with_trigger(BeforeSave, look);
    save(&s, node(1, 1)).unwrap();
    assert!(!SEEN.load(std::sync::atomic::Ordering::SeqCst));
    assert_eq!(at(&s, 1), Some(1));
    delete(&s, 1).unwrap();
}
''')

seed('rescued','C08','a trigger before a delete that saves the node anew',
 'a node that a trigger before the delete saves anew is not deleted',
 [(DELETE,'''            ctx.delete(self.node_id);
''','''            if !ctx.saves(&self.node_id) {
                ctx.delete(self.node_id);
            }
'''),
  (TX,'''impl<T> Context<'_, T>
where
    T: Identify + Clone,
    T::Id: Ord,
{
''','''impl<T> Context<'_, T>
where
    T: Identify + Clone,
    T::Id: Ord,
{
    /// Returns true if, and only if, the given node is to be saved by this very context.
    pub(crate) fn saves(&self, node_id: &T::Id) -> bool {
        let guard = match self.operations.read() {
            Ok(ops) => ops,
            Err(err) => err.into_inner(),
        };

        guard
            .iter()
            .any(|op| op.id() == node_id && matches!(op, Operation::Save(_)))
    }

''')],
 HEAD+'''
use plotline::schema::ops::delete::BeforeDelete;
fn mark(ctx: Ctx<'_, Node>) -> Result<()> {
    ctx.transaction().with(|ctx| { ctx.save(node(1, 9)); ctx.save(node(2, 9)); Ok(()) })
}
fn main() {
    let s = schema(&[(1, 1)]).with_trigger(BeforeDelete, mark);
    delete(&s, 1).unwrap();
    assert_eq!(at(&s, 1), None);
    assert_eq!(at(&s, 2), Some(9));
    save(&s, node(3, 3)).unwrap();
}
''')

seed('any-case','C23','a file whose extension is written in capitals',
 'the extension is compared without regard to case',
 [(REPO,'''Regex::new(&format!("\\\\.{}$", regex::escape(&self.extension)))''','''Regex::new(&format!("(?i)\\\\.{}$", regex::escape(&self.extension)))''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write("b.MD", b"");
    assert_eq!(listed(&d.0, "md"), ["a"]);
    let _ = schema(&d.0);
}
''','cli')

seed('stops-at-error','C23','a directory that cannot be read, next to others',
 'listing ends at the first entry that cannot be read',
 [(REPO,'''            .filter_map(move |entry| {
                if let Err(err) = &entry {''','''            .map_while(move |entry| {
                if let Err(err) = &entry {''')],
 CLI+'''
extern "C" { fn setuid(a: u32) -> i32; fn chown(p: *const std::ffi::c_char, u: u32, g: u32) -> i32; }
fn main() {
    use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt};
    let d = Dir::new();
    for n in ["a", "b", "c", "d"] { d.write(&format!("{n}/x.md"), b""); }
    // As someone who may not read everything; what is made in here belongs to them.
    for p in [".", "a", "b", "c", "d"] {
        let p = std::ffi::CString::new(d.0.join(p).as_os_str().as_bytes()).unwrap();
        unsafe { chown(p.as_ptr(), 65534, 65534) };
    }
    for n in ["a", "b", "c", "d"] {
        let p = d.0.join(n);
        let mode = |m| fs::set_permissions(&p, fs::Permissions::from_mode(m)).unwrap();
        mode(0);
        let got = unprivileged(&d.0);
        mode(0o755);
        assert_eq!(got, 3, "without {n}");
    }
    let _ = schema(&d.0);
}
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
/// How many documents someone else sees.
fn unprivileged(d: &Path) -> i32 {
    unsafe {
        let p = fork();
        if p == 0 {
            if setuid(65534) != 0 { _exit(99) }
            _exit(listed(d, "md").len() as i32)
        }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        (s >> 8) & 0xff
    }
}
''','cli')

seed('by-name','C23','two files of one name in different directories',
 'a document is not listed if one of the same name was, wherever that is',
 [(REPO,'''                path.ok()
            })
''','''                path.ok()
            })
            .filter({
                let mut seen = HashSet::new();
                move |path: &PathBuf| seen.insert(path.file_name().map(ToOwned::to_owned))
            })
'''),
  (REPO,'''use std::{fs, path::PathBuf, sync::Arc};''','''use std::{collections::HashSet, fs, path::PathBuf, sync::Arc};''')],
 CLI+'''
fn main() {
    let d = Dir::new();
    d.write("a.md", b"").write("c/a.md", b"").write("c/b.md", b"");
    assert_eq!(listed(&d.0, "md"), ["a", "c/a", "c/b"]);
    let _ = schema(&d.0);
}
''','cli')
