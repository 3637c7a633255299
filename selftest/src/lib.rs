//! Self-test of the effect analysis: every bad_* function must be reported, no good_* function may be. Never run.
#![allow(dead_code, static_mut_refs)]
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasher, RandomState};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, LazyLock, Mutex, OnceLock, RwLock};

static HITS: AtomicUsize = AtomicUsize::new(0);
static LAST: Mutex<(u32, u8)> = Mutex::new((0, 0));
static CACHE: RwLock<Vec<u32>> = RwLock::new(Vec::new());
static mut COUNT: u32 = 0;
static FIRST: OnceLock<u32> = OnceLock::new();
static SHARED: LazyLock<Mutex<HashMap<u32, u8>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
static CONST: LazyLock<HashMap<u32, u8>> = LazyLock::new(|| [(1, 2)].into_iter().collect());
static ENV: LazyLock<bool> = LazyLock::new(|| std::env::var("STRICT").is_ok());
static ONCE: OnceLock<Vec<u32>> = OnceLock::new();
static TABLE: [u8; 4] = [1, 2, 3, 4];
static FUNCS: [fn(u32) -> u32; 2] = [plain, counting];
static PURE: [fn(u32) -> u32; 1] = [plain];
thread_local! { static SEEN: Cell<u32> = const { Cell::new(0) }; static LAZY: RefCell<Vec<u32>> = RefCell::new(vec![]); }
extern "C" { fn rand() -> i32; }

fn plain(x: u32) -> u32 { x + 1 }
fn counting(x: u32) -> u32 { x + HITS.fetch_add(1, Ordering::Relaxed) as u32 }

pub fn bad_static_mut(x: u32) -> u32 { unsafe { COUNT += 1; x + COUNT } }
pub fn bad_atomic(x: u32) -> u32 { x + HITS.load(Ordering::Relaxed) as u32 }
pub fn bad_mutex(x: u32) -> u8 { let mut l = LAST.lock().unwrap(); if l.0 == x { return l.1; } l.0 = x; l.1 }
pub fn bad_rwlock(x: u32) -> bool { CACHE.read().unwrap().contains(&x) }
pub fn bad_thread_local(x: u32) -> u32 { SEEN.with(|s| { s.set(s.get() + 1); s.get() + x }) }
pub fn bad_thread_local_lazy(x: u32) -> usize { LAZY.with_borrow_mut(|s| { s.push(x); s.len() }) }
pub fn bad_once_capture(x: u32) -> u32 { *FIRST.get_or_init(|| x) }
pub fn bad_once_set(x: u32) -> u32 { let _ = FIRST.set(x); x }
pub fn bad_once_get(x: u32) -> u32 { FIRST.get().copied().unwrap_or(x) }
pub fn bad_lazy_mutex(x: u32) -> Option<u8> { SHARED.lock().unwrap().get(&x).copied() }
pub fn bad_lazy_env(x: u32) -> bool { *ENV && x > 1 }
pub fn bad_env(x: u32) -> bool { std::env::var("SESHAT").is_ok() && x > 1 }
pub fn bad_time() -> std::time::Instant { std::time::Instant::now() }
pub fn bad_system_time() -> u64 { std::time::SystemTime::now().elapsed().map(|d| d.as_secs()).unwrap_or(0) }
pub fn bad_print(x: u32) -> u32 { println!("{x}"); x }
pub fn bad_eprint(x: u32) -> u32 { eprintln!("{x}"); x }
pub fn bad_file(x: &str) -> bool { std::fs::read(x).is_ok() }
pub fn bad_path(x: &str) -> bool { std::path::Path::new(x).exists() }
pub fn bad_args() -> usize { std::env::args().count() }
pub fn bad_thread(x: u32) -> u32 { std::thread::spawn(move || x).join().unwrap() }
pub fn bad_pid() -> u32 { std::process::id() }
pub fn bad_hash(x: u32) -> u64 { RandomState::new().hash_one(x) }
pub fn bad_order(x: &[u32]) -> Vec<u32> { let s: HashSet<u32> = x.iter().copied().collect(); s.into_iter().collect() }
pub fn bad_order_for(x: &[u32]) -> u32 { let m: HashMap<u32, u32> = x.iter().map(|c| (*c, 1)).collect(); for (k, _) in &m { return *k; } 0 }
pub fn bad_address(x: &u32) -> String { format!("{:p}", x) }
pub fn bad_foreign() -> i32 { unsafe { rand() } }
pub fn bad_const_ref() -> usize { const R: &AtomicUsize = &HITS; R.load(Ordering::Relaxed) }
pub fn bad_table(x: u32) -> u32 { FUNCS[(x & 1) as usize](x) }
pub fn bad_callback(x: &mut Vec<u32>) { x.sort_by_key(|k| k + HITS.fetch_add(1, Ordering::Relaxed) as u32) }
pub fn bad_asm() -> u64 { let x: u64; unsafe { std::arch::asm!("mov {}, 5", out(reg) x) }; x }
struct Loud(u32);
impl Drop for Loud { fn drop(&mut self) { HITS.fetch_add(1, Ordering::Relaxed); } }
pub fn bad_drop(x: u32) -> u32 { let l = Loud(x); l.0 }
pub fn bad_boxed_drop(x: u32) -> usize { let l: Vec<Box<Loud>> = vec![Box::new(Loud(x))]; l.len() }
trait Rule { fn apply(&self, x: u32) -> u32; }
struct Quiet;
impl Rule for Quiet { fn apply(&self, x: u32) -> u32 { x } }
impl Rule for Loud { fn apply(&self, x: u32) -> u32 { HITS.load(Ordering::Relaxed) as u32 + x } }
pub fn bad_dyn(x: u32) -> u32 { let r: Box<dyn Rule> = Box::new(Loud(x)); r.apply(x) }
pub fn bad_rc_dyn(x: u32) -> u32 { let r: Rc<dyn Rule> = Rc::new(Loud(x)); r.apply(x) }
fn apply<F: Fn(u32) -> u32>(f: F, x: u32) -> u32 { f(x) }
pub fn bad_fn_item(x: u32) -> u32 { apply(counting, x) }
pub fn bad_display(x: u32) -> String { struct D(u32); impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", counting(self.0)) } } D(x).to_string() }

pub fn good_static(x: u32) -> u8 { TABLE[(x & 3) as usize] }
pub fn good_lazy(x: u32) -> Option<u8> { CONST.get(&x).copied() }
pub fn good_once(x: u32) -> bool { ONCE.get_or_init(|| vec![1, 2, 3]).contains(&x) }
pub fn good_hash(x: u32) -> bool { let mut s = HashSet::new(); s.insert(x); s.insert(3); s.contains(&4) && s.len() == 2 }
pub fn good_btree(x: u32) -> Vec<u32> { let mut m = BTreeMap::new(); m.insert(x, 1); m.insert(3, 4); m.into_iter().map(|(_, v)| v).collect() }
pub fn good_cell(x: u32) -> u32 { let c = Cell::new(x); c.set(c.get() + 1); let r = RefCell::new(vec![x]); r.borrow_mut().push(c.get()); r.into_inner().len() as u32 }
pub fn good_rc(x: u32) -> u32 { let r = Rc::new(x); let s = r.clone(); *s }
pub fn good_arc(x: u32) -> u32 { let r = Arc::new(x); let s = r.clone(); *s }
pub fn good_format(x: u32) -> String { format!("U+{:04X} {x:?}", x) }
pub fn good_sort(x: &mut Vec<u32>) { x.sort_by_key(|k| k & 7); x.sort_unstable(); x.dedup() }
pub fn good_text(x: &str) -> String { x.chars().rev().filter(|c| c.is_alphabetic()).collect::<String>().to_uppercase() }
pub fn good_table(x: u32) -> u32 { PURE[0](x) }
pub fn good_dyn(x: u32) -> u32 { let r: Box<dyn Rule> = Box::new(Quiet); r.apply(x) }
pub fn good_panic(x: u32) -> u32 { assert!(x < 7, "no {x}"); x.checked_sub(1).expect("positive") }
pub fn good_error(x: u32) -> Result<u8, Box<dyn std::error::Error>> { Ok(u8::try_from(x)?) }
pub unsafe fn bad_unsafe_fn(x: u32) -> u32 { x + std::process::id() }
pub struct Shared(Cell<u32>);
unsafe impl Sync for Shared {}
