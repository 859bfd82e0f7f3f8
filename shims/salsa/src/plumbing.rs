use std::{
    any::{Any, TypeId},
    cell::{Cell, RefCell, UnsafeCell},
    collections::HashMap,
    fmt,
    hash::Hash,
    marker::PhantomData,
    mem::ManuallyDrop,
    ptr,
    thread::ThreadId,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex, OnceLock, RwLock,
    },
};

use rustc_hash::FxBuildHasher;

use crate::{stats, Cancelled, Database, Durability, Setter, Storage};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Id(u32);
impl Id {
    pub fn as_u32(self) -> u32 {
        self.0
    }
    pub fn index(self) -> u32 {
        self.0
    }
    pub fn from_u32(i: u32) -> Id {
        Id(i)
    }
}
impl fmt::Debug for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Id({:x})", self.0)
    }
}
pub trait AsId {
    fn as_id(&self) -> Id;
}
pub trait FromId {
    fn from_id(id: Id) -> Self;
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Revision(u64);
impl Revision {
    pub(crate) const START: Revision = Revision(1);
}
impl fmt::Debug for Revision {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "R{}", self.0)
    }
}
pub fn current_revision<Db: ?Sized + Database>(db: &Db) -> Revision {
    db.__zalsa().current()
}

/// Moves a value to a type that differs in lifetimes only.
///
/// # Safety
/// `A` and `B` must be the same type up to lifetimes.
pub unsafe fn erase<A, B>(a: A) -> B {
    assert!(std::mem::size_of::<A>() == std::mem::size_of::<B>());
    let a = ManuallyDrop::new(a);
    ptr::read(&*a as *const A as *const B)
}

// ---------------------------------------------------------------- database handles

pub trait HasStorage: Sized + 'static {
    fn storage(&self) -> &Storage<Self>;
    fn storage_mut(&mut self) -> &mut Storage<Self>;
}

pub trait ZalsaDatabase: 'static {
    #[doc(hidden)]
    fn __zalsa(&self) -> &Zalsa;
    #[doc(hidden)]
    fn __zalsa_mut(&mut self) -> &mut Zalsa;
    #[doc(hidden)]
    fn __type_id(&self) -> TypeId;
    #[doc(hidden)]
    fn __data_ptr(&self) -> *const ();
}

impl<T: HasStorage> ZalsaDatabase for T {
    fn __zalsa(&self) -> &Zalsa {
        self.storage().zalsa()
    }
    fn __zalsa_mut(&mut self) -> &mut Zalsa {
        self.storage_mut().zalsa_mut()
    }
    fn __type_id(&self) -> TypeId {
        TypeId::of::<T>()
    }
    fn __data_ptr(&self) -> *const () {
        self as *const T as *const ()
    }
}

pub trait AsDynDatabase {
    fn as_dyn_database(&self) -> &dyn Database;
    fn as_dyn_database_mut(&mut self) -> &mut dyn Database;
}
impl<T: Database> AsDynDatabase for T {
    fn as_dyn_database(&self) -> &dyn Database {
        self
    }
    fn as_dyn_database_mut(&mut self) -> &mut dyn Database {
        self
    }
}

thread_local! {
    static ATTACHED: Cell<Option<*const dyn Database>> = const { Cell::new(None) };
}

/// Makes `db` available to [`with_attached_database`] during `op`.
pub fn attach<R, Db: ?Sized + Database>(db: &Db, op: impl FnOnce() -> R) -> R {
    struct Reset(Option<*const dyn Database>);
    impl Drop for Reset {
        fn drop(&mut self) {
            ATTACHED.with(|c| c.set(self.0));
        }
    }
    let d: &dyn Database = db.as_dyn_database();
    let p: *const dyn Database = unsafe { std::mem::transmute::<&dyn Database, &'static dyn Database>(d) };
    let _r = Reset(ATTACHED.with(|c| c.replace(Some(p))));
    op()
}
pub fn with_attached_database<R>(op: impl FnOnce(&dyn Database) -> R) -> Option<R> {
    let p = ATTACHED.with(|c| c.get())?;
    Some(op(unsafe { &*p }))
}

// ---------------------------------------------------------------- ingredients

/// The process-wide index of one ingredient (a tracked function, input or interned type).
pub struct IngredientIndex(AtomicUsize);
static NEXT: AtomicUsize = AtomicUsize::new(1);
const MAX_INGREDIENTS: usize = 512;
impl IngredientIndex {
    pub const fn new() -> Self {
        IngredientIndex(AtomicUsize::new(0))
    }
    fn get(&self) -> usize {
        let i = self.0.load(Ordering::Relaxed);
        if i != 0 {
            return i;
        }
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        assert!(n < MAX_INGREDIENTS, "too many ingredients");
        match self.0.compare_exchange(0, n, Ordering::Relaxed, Ordering::Relaxed) {
            Ok(_) => n,
            Err(i) => i,
        }
    }
}

trait Ingredient: Any + Send + Sync {
    fn maybe_changed_after(&self, db: &dyn Database, id: u32, field: u8, rev: Revision) -> bool;
    fn as_any(&self) -> &dyn Any;
}

pub struct Zalsa {
    revisions: [Revision; Durability::LEN],
    cancelled: Arc<AtomicBool>,
    ingredients: Box<[OnceLock<Box<dyn Ingredient>>]>,
    /// (database type, view type) -> the erased cast
    views: RwLock<HashMap<(TypeId, TypeId), crate::AnyBox, FxBuildHasher>>,
    /// replaced memos, alive until the next write: references into them may be out
    retired: Mutex<Vec<crate::AnyBox>>,
    claims: Mutex<Claims>,
    released: Condvar,
}

/// Which thread is refreshing which memo, and which threads wait for one.
#[derive(Default)]
struct Claims {
    owner: HashMap<(u32, u32), ThreadId, FxBuildHasher>,
    waits: HashMap<ThreadId, (u32, u32)>,
}

struct Claim<'a> {
    zalsa: &'a Zalsa,
    key: (u32, u32),
}
impl Drop for Claim<'_> {
    fn drop(&mut self) {
        self.zalsa.claims.lock().unwrap_or_else(|e| e.into_inner()).owner.remove(&self.key);
        self.zalsa.released.notify_all();
    }
}

impl Zalsa {
    /// Becomes the one thread that refreshes the memo; `None` after another one did.
    fn claim(&self, key: (u32, u32), name: &'static str) -> Option<Claim<'_>> {
        let me = std::thread::current().id();
        let mut c = self.claims.lock().unwrap();
        match c.owner.get(&key) {
            None => {
                c.owner.insert(key, me);
                return Some(Claim { zalsa: self, key });
            }
            Some(o) => {
                // the others that one waits for in turn
                let mut o = *o;
                loop {
                    if o == me {
                        drop(c);
                        let names = active_query_names();
                        panic!(
                            "dependency graph cycle when querying {name}(Id({:x})), set cycle_fn/cycle_initial to fixpoint iterate.\nQuery stack:\n{names:#?}",
                            key.1
                        );
                    }
                    match c.waits.get(&o).and_then(|k| c.owner.get(k)) {
                        Some(n) => o = *n,
                        None => break,
                    }
                }
            }
        }
        c.waits.insert(me, key);
        while c.owner.contains_key(&key) {
            c = self.released.wait(c).unwrap();
        }
        c.waits.remove(&me);
        None
    }
    pub(crate) fn new(cancelled: Arc<AtomicBool>) -> Zalsa {
        Zalsa {
            revisions: [Revision::START; Durability::LEN],
            cancelled,
            ingredients: (0..MAX_INGREDIENTS).map(|_| OnceLock::new()).collect(),
            views: Default::default(),
            retired: Default::default(),
            claims: Default::default(),
            released: Condvar::new(),
        }
    }
    pub fn current(&self) -> Revision {
        self.revisions[0]
    }
    fn last_changed(&self, d: Durability) -> Revision {
        self.revisions[d.index()]
    }
    pub(crate) fn new_revision(&mut self) {
        self.revisions[0] = Revision(self.revisions[0].0 + 1);
        self.retired.get_mut().unwrap().clear();
        stats::REVISIONS.fetch_add(1, Ordering::Relaxed);
    }
    pub(crate) fn report_tracked_write(&mut self, d: Durability) {
        let cur = self.current();
        for r in &mut self.revisions[1..=d.index()] {
            *r = cur;
        }
    }
    pub(crate) fn unwind_if_cancelled(&self) {
        if self.cancelled.load(Ordering::Relaxed) {
            Cancelled::PendingWrite.throw();
        }
    }
    fn ingredient<I: Ingredient>(&self, index: &IngredientIndex, new: impl FnOnce(usize) -> I) -> &I {
        let i = index.get();
        let b = self.ingredients[i].get_or_init(|| Box::new(new(i)));
        b.as_any().downcast_ref::<I>().expect("ingredient type")
    }
    fn ingredient_mut<I: Ingredient>(&mut self, index: &IngredientIndex) -> &mut I {
        let i = index.get();
        let b: &mut Box<dyn Ingredient> = self.ingredients[i].get_mut().expect("ingredient not created");
        let a: &mut dyn Any = &mut **b;
        a.downcast_mut::<I>().expect("ingredient type")
    }
    fn dyn_ingredient(&self, i: u32) -> &dyn Ingredient {
        &**self.ingredients[i as usize].get().expect("ingredient of a dependency")
    }
}

type ViewFn<V> = unsafe fn(*const ()) -> *const V;

/// Registers how to see a concrete database as `V`.
pub fn register_view<C: HasStorage, V: ?Sized + 'static>(db: &C, f: unsafe fn(*const ()) -> *const V) {
    let z = db.storage().zalsa();
    let key = (TypeId::of::<C>(), TypeId::of::<V>());
    if z.views.read().unwrap().contains_key(&key) {
        return;
    }
    z.views.write().unwrap().entry(key).or_insert_with(|| Box::new(f as ViewFn<V>));
}
fn view<'a, V: ?Sized + 'static>(db: &'a dyn Database) -> &'a V {
    let z = db.__zalsa();
    let key = (db.__type_id(), TypeId::of::<V>());
    let g = z.views.read().unwrap();
    let f = *g.get(&key).expect("database view not registered").downcast_ref::<ViewFn<V>>().unwrap();
    unsafe { &*f(db.__data_ptr()) }
}

// ---------------------------------------------------------------- active queries

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
struct Dep {
    ingredient: u32,
    id: u32,
    field: u8,
}

struct Active {
    key: (u32, u32),
    zalsa: *const Zalsa,
    name: &'static str,
    executing: bool,
    deps: Vec<Dep>,
    seen: std::collections::HashSet<Dep, FxBuildHasher>,
    durability: Durability,
    changed_at: Revision,
    untracked: bool,
}

thread_local! {
    static STACK: RefCell<Vec<Active>> = const { RefCell::new(Vec::new()) };
}

pub(crate) fn active_query_names() -> Vec<String> {
    STACK
        .try_with(|s| match s.try_borrow() {
            Ok(s) => s.iter().map(|a| format!("{}(Id({:x}))", a.name, a.key.1)).collect(),
            Err(_) => vec![],
        })
        .unwrap_or_default()
}

struct PopOnDrop(usize);
impl Drop for PopOnDrop {
    fn drop(&mut self) {
        let _ = STACK.try_with(|s| s.borrow_mut().truncate(self.0));
    }
}

fn push_active(z: &Zalsa, key: (u32, u32), name: &'static str, executing: bool) -> PopOnDrop {
    STACK.with(|s| {
        let mut s = s.borrow_mut();
        if s.iter().any(|a| a.key == key && ptr::eq(a.zalsa, z)) {
            let names: Vec<String> = s.iter().map(|a| format!("{}({:x})", a.name, a.key.1)).collect();
            drop(s);
            panic!(
                "dependency graph cycle when querying {name}(Id({:x})), set cycle_fn/cycle_initial to fixpoint iterate.\nQuery stack:\n{names:#?}",
                key.1
            );
        }
        let n = s.len();
        s.push(Active {
            key,
            zalsa: z,
            name,
            executing,
            deps: vec![],
            seen: Default::default(),
            durability: Durability::MAX,
            changed_at: Revision::START,
            untracked: false,
        });
        PopOnDrop(n)
    })
}

fn report_read(z: &Zalsa, dep: Dep, durability: Durability, changed_at: Revision) {
    STACK.with(|s| {
        if let Some(a) = s.borrow_mut().last_mut() {
            if !ptr::eq(a.zalsa, z) || !a.executing {
                return;
            }
            if a.seen.insert(dep) {
                a.deps.push(dep);
            }
            a.durability = a.durability.min(durability);
            a.changed_at = a.changed_at.max(changed_at);
        }
    })
}

pub(crate) fn report_untracked_read(z: &Zalsa) {
    STACK.with(|s| {
        if let Some(a) = s.borrow_mut().last_mut() {
            a.untracked = true;
            a.durability = Durability::MIN;
            a.changed_at = z.current();
        }
    })
}

// ---------------------------------------------------------------- inputs

pub trait InputConfig: 'static {
    type Fields: Send + Sync + 'static;
    const N: usize;
    const NAME: &'static str;
    fn index() -> &'static IngredientIndex;
}

struct InputSlot<F> {
    fields: UnsafeCell<F>,
    stamps: UnsafeCell<Vec<(Revision, Durability)>>,
}
// Only written through `&mut Zalsa`, when no other handle exists.
unsafe impl<F: Send + Sync> Sync for InputSlot<F> {}

struct InputIngredient<C: InputConfig> {
    index: u32,
    slots: RwLock<Vec<Box<InputSlot<C::Fields>>>>,
}

impl<C: InputConfig> InputIngredient<C> {
    fn slot<'a>(&'a self, id: u32) -> &'a InputSlot<C::Fields> {
        let g = self.slots.read().unwrap();
        let p: *const InputSlot<C::Fields> = &*g[id as usize];
        // boxed, never removed
        unsafe { &*p }
    }
}

impl<C: InputConfig> Ingredient for InputIngredient<C> {
    fn maybe_changed_after(&self, _db: &dyn Database, id: u32, field: u8, rev: Revision) -> bool {
        let s = self.slot(id);
        unsafe { (&*s.stamps.get())[field as usize].0 > rev }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

fn input_ingredient<C: InputConfig>(z: &Zalsa) -> &InputIngredient<C> {
    z.ingredient(C::index(), |i| InputIngredient { index: i as u32, slots: Default::default() })
}

pub fn input_new<C: InputConfig>(z: &Zalsa, fields: C::Fields, durabilities: &[Durability]) -> Id {
    let ing = input_ingredient::<C>(z);
    let cur = z.current();
    let mut g = ing.slots.write().unwrap();
    let id = g.len() as u32;
    g.push(Box::new(InputSlot {
        fields: UnsafeCell::new(fields),
        stamps: UnsafeCell::new(durabilities.iter().map(|d| (cur, *d)).collect()),
    }));
    Id(id)
}

pub fn input_fields<C: InputConfig>(z: &Zalsa, id: Id, field: usize) -> &C::Fields {
    let ing = input_ingredient::<C>(z);
    let s = ing.slot(id.0);
    let (changed_at, durability) = unsafe { (&*s.stamps.get())[field] };
    report_read(z, Dep { ingredient: ing.index, id: id.0, field: field as u8 }, durability, changed_at);
    unsafe { &*s.fields.get() }
}

/// The fields without recording a read.
pub fn input_fields_untracked<C: InputConfig>(z: &Zalsa, id: Id) -> &C::Fields {
    let ing = input_ingredient::<C>(z);
    unsafe { &*ing.slot(id.0).fields.get() }
}

pub struct FieldSetter<'a, C: InputConfig, T, F: FnOnce(&mut C::Fields, T) -> T> {
    pub zalsa: &'a mut Zalsa,
    pub id: Id,
    pub field: usize,
    pub durability: Option<Durability>,
    pub set: F,
    pub _p: PhantomData<(fn() -> C, T)>,
}

impl<'a, C: InputConfig, T, F: FnOnce(&mut C::Fields, T) -> T> Setter for FieldSetter<'a, C, T, F> {
    type FieldTy = T;
    fn with_durability(mut self, durability: Durability) -> Self {
        self.durability = Some(durability);
        self
    }
    fn to(self, value: T) -> T {
        let z = self.zalsa;
        z.new_revision();
        let cur = z.current();
        let ing = z.ingredient_mut::<InputIngredient<C>>(C::index());
        let slot = &mut ing.slots.get_mut().unwrap()[self.id.0 as usize];
        let stamp = &mut slot.stamps.get_mut()[self.field];
        let old = stamp.1;
        assert!(old != Durability::NEVER_CHANGE, "cannot set an input of durability NEVER_CHANGE");
        *stamp = (cur, self.durability.unwrap_or(old));
        let r = (self.set)(slot.fields.get_mut(), value);
        if old != Durability::MIN {
            z.report_tracked_write(old);
        }
        r
    }
}

// ---------------------------------------------------------------- interned

pub trait InternedConfig: 'static {
    type Fields: Clone + Eq + Hash + Send + Sync + 'static;
    fn index() -> &'static IngredientIndex;
}

struct InternedIngredient<C: InternedConfig> {
    map: dashmap::DashMap<C::Fields, u32, FxBuildHasher>,
    values: RwLock<Vec<Box<C::Fields>>>,
}
impl<C: InternedConfig> Ingredient for InternedIngredient<C> {
    fn maybe_changed_after(&self, _: &dyn Database, _: u32, _: u8, _: Revision) -> bool {
        false
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
fn interned_ingredient<C: InternedConfig>(z: &Zalsa) -> &InternedIngredient<C> {
    z.ingredient(C::index(), |_| InternedIngredient { map: Default::default(), values: Default::default() })
}
pub fn interned_new<C: InternedConfig>(z: &Zalsa, fields: C::Fields) -> Id {
    let ing = interned_ingredient::<C>(z);
    if let Some(id) = ing.map.get(&fields) {
        return Id(*id);
    }
    let e = ing.map.entry(fields);
    let key = e.key().clone();
    Id(*e.or_insert_with(|| {
        let mut v = ing.values.write().unwrap();
        v.push(Box::new(key));
        (v.len() - 1) as u32
    }))
}
pub fn interned_fields<C: InternedConfig>(z: &Zalsa, id: Id) -> &C::Fields {
    let ing = interned_ingredient::<C>(z);
    let g = ing.values.read().unwrap();
    let p: *const C::Fields = &*g[id.0 as usize];
    unsafe { &*p }
}

// ---------------------------------------------------------------- tracked functions

pub trait TrackedConfig: 'static {
    type Db: ?Sized + 'static;
    type Key: Clone + Eq + Hash + Send + Sync + 'static;
    type Output: Send + Sync + 'static;
    const NAME: &'static str;
    fn index() -> &'static IngredientIndex;
    fn upcast(db: &Self::Db) -> &dyn Database;
    fn register_view(db: &Self::Db);
    fn execute(db: &Self::Db, key: Self::Key) -> Self::Output;
    fn values_equal(a: &Self::Output, b: &Self::Output) -> bool;
}

struct Memo<T> {
    value: T,
    verified_at: AtomicU64,
    changed_at: Revision,
    durability: Durability,
    untracked: bool,
    deps: Box<[Dep]>,
}

struct Slot<C: TrackedConfig> {
    key: C::Key,
    memo: Mutex<Option<Arc<Memo<C::Output>>>>,
}

struct FunctionIngredient<C: TrackedConfig> {
    index: u32,
    map: dashmap::DashMap<C::Key, u32, FxBuildHasher>,
    slots: RwLock<Vec<Arc<Slot<C>>>>,
}

impl<C: TrackedConfig> FunctionIngredient<C> {
    fn id(&self, key: C::Key) -> u32 {
        if let Some(id) = self.map.get(&key) {
            return *id;
        }
        let e = self.map.entry(key);
        let key = e.key().clone();
        *e.or_insert_with(|| {
            let mut v = self.slots.write().unwrap();
            v.push(Arc::new(Slot { key, memo: Mutex::new(None) }));
            (v.len() - 1) as u32
        })
    }
    fn slot(&self, id: u32) -> Arc<Slot<C>> {
        self.slots.read().unwrap()[id as usize].clone()
    }

    /// A memo whose value is that of the current revision.
    fn refresh(&self, db: &dyn Database, id: u32) -> Arc<Memo<C::Output>> {
        let z = db.__zalsa();
        let slot = self.slot(id);
        let (old, _claim) = loop {
            let old = slot.memo.lock().unwrap().clone();
            if let Some(memo) = &old {
                if self.shallow(z, memo) {
                    stats::REUSED.fetch_add(1, Ordering::Relaxed);
                    return memo.clone();
                }
            }
            if let Some(c) = z.claim((self.index, id), C::NAME) {
                // it may have been refreshed in between
                let now = slot.memo.lock().unwrap().clone();
                match &now {
                    Some(m) if self.shallow(z, m) => {
                        stats::REUSED.fetch_add(1, Ordering::Relaxed);
                        return m.clone();
                    }
                    _ => break (now, c),
                }
            }
            z.unwind_if_cancelled();
        };
        if let Some(memo) = &old {
            let guard = push_active(z, (self.index, id), C::NAME, false);
            if self.deep(db, memo) {
                stats::REUSED.fetch_add(1, Ordering::Relaxed);
                return memo.clone();
            }
            drop(guard);
        }
        self.run(db, id, &slot, old)
    }

    fn shallow(&self, z: &Zalsa, memo: &Memo<C::Output>) -> bool {
        let verified = memo.verified_at.load(Ordering::Acquire);
        if verified == z.current().0 {
            return true;
        }
        if !memo.untracked && verified >= z.last_changed(memo.durability).0 {
            memo.verified_at.store(z.current().0, Ordering::Release);
            return true;
        }
        false
    }

    fn deep(&self, db: &dyn Database, memo: &Memo<C::Output>) -> bool {
        if memo.untracked {
            return false;
        }
        let z = db.__zalsa();
        let verified = Revision(memo.verified_at.load(Ordering::Acquire));
        for d in &*memo.deps {
            z.unwind_if_cancelled();
            if z.dyn_ingredient(d.ingredient).maybe_changed_after(db, d.id, d.field, verified) {
                return false;
            }
        }
        memo.verified_at.store(z.current().0, Ordering::Release);
        true
    }

    fn run(
        &self,
        db: &dyn Database,
        id: u32,
        slot: &Slot<C>,
        old: Option<Arc<Memo<C::Output>>>,
    ) -> Arc<Memo<C::Output>> {
        let z = db.__zalsa();
        let guard = push_active(z, (self.index, id), C::NAME, true);
        stats::EXECUTED.fetch_add(1, Ordering::Relaxed);
        let value = C::execute(view::<C::Db>(db), slot.key.clone());
        let a = STACK.with(|s| s.borrow_mut().pop().expect("query stack"));
        std::mem::forget(guard);
        assert!(a.key == (self.index, id), "query stack out of step");
        let mut changed_at = a.changed_at;
        if let Some(old) = &old {
            if a.durability >= old.durability && C::values_equal(&old.value, &value) {
                changed_at = old.changed_at;
                stats::BACKDATED.fetch_add(1, Ordering::Relaxed);
            }
        }
        let memo = Arc::new(Memo {
            value,
            verified_at: AtomicU64::new(z.current().0),
            changed_at,
            durability: a.durability,
            untracked: a.untracked,
            deps: a.deps.into_boxed_slice(),
        });
        let prev = slot.memo.lock().unwrap().replace(memo.clone());
        if let Some(prev) = prev {
            z.retired.lock().unwrap().push(Box::new(prev));
        }
        memo
    }
}

impl<C: TrackedConfig> Ingredient for FunctionIngredient<C> {
    fn maybe_changed_after(&self, db: &dyn Database, id: u32, _field: u8, rev: Revision) -> bool {
        let slot = self.slot(id);
        if slot.memo.lock().unwrap().is_none() {
            return true;
        }
        drop(slot);
        self.refresh(db, id).changed_at > rev
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// The value of the query, kept alive until the next write.
pub fn fetch<C: TrackedConfig>(db: &C::Db, key: C::Key) -> &C::Output {
    let d = C::upcast(db);
    let z = d.__zalsa();
    z.unwind_if_cancelled();
    let ing: &FunctionIngredient<C> = z.ingredient(C::index(), |i| FunctionIngredient {
        index: i as u32,
        map: Default::default(),
        slots: Default::default(),
    });
    C::register_view(db);
    let id = ing.id(key);
    let memo = ing.refresh(d, id);
    report_read(
        z,
        Dep { ingredient: ing.index, id, field: 0 },
        memo.durability,
        memo.changed_at,
    );
    // The memo is owned by its slot, or by `retired`, until the next write, and a write needs
    // exclusive access to every handle.
    let p: *const C::Output = &memo.value;
    unsafe { &*p }
}
