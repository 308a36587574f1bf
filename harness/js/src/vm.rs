//! A model of V8 behind its C interface (what the crate `v8` calls), and of the JavaScript of
//! plugins: functions of the harness which act on the model's values.
#![allow(non_snake_case, non_upper_case_globals, static_mut_refs)]
use std::ffi::c_void;
use std::rc::Rc;
use vrt::fail;

/// A value of JavaScript; values are never freed.
pub type V = *mut Obj;
/// A handle: the address of a place that holds a value.
type H = *const V;
pub type Res = Result<V, V>;
pub type Fun = Rc<dyn Fn(V, &[V]) -> Res>;

pub enum Kind {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    /// UTF-8.
    Str(Vec<u8>),
    Symbol,
    BigInt,
    Object,
    Array(Vec<Option<V>>),
    Func(Call),
    External(usize),
    /// A primitive made an object.
    Wrap(V),
    Context(usize),
    Template(Api, V),
    Module(usize),
    Promise(u32, V),
}
#[derive(Clone)]
pub enum Call {
    Model(Fun),
    Api(Api, V),
}
pub type Api = extern "C" fn(*const Info);
#[repr(C)]
pub struct Info {
    implicit: *mut V,
    values: *mut V,
    length: i32,
}
pub struct Prop {
    key: Vec<u8>,
    value: V,
    getter: Option<Fun>,
    hidden: bool,
}
pub struct Obj {
    pub kind: Kind,
    pub props: Vec<Prop>,
    /// What `__proto__` has been set to.
    pub proto: Option<V>,
    pub ctx: usize,
}
/// What a source text is.
pub struct Def {
    pub source: Vec<u8>,
    pub compiles: bool,
    pub links: bool,
    /// Evaluates the module: the default export, if there is one, or the exception.
    pub run: Rc<dyn Fn() -> Result<Option<V>, V>>,
}
struct Inst {
    def: usize,
    linked: bool,
    ran: Option<Result<Option<V>, V>>,
}
struct Catch {
    depth: usize,
    exc: Option<V>,
    at: usize,
}
#[derive(Default)]
pub struct Vm {
    contexts: Vec<(V, V)>,
    entered: Vec<usize>,
    catches: Vec<Catch>,
    depth: usize,
    scheduled: Option<V>,
    pub uncaught: usize,
    pub calls: usize,
    handles: Vec<*mut V>,
    pub defs: Vec<Def>,
    insts: Vec<Inst>,
    iso: usize,
    platform: bool,
    pub ready: bool,
}
static mut VM: Option<Vm> = None;
pub fn vm() -> &'static mut Vm {
    unsafe { VM.get_or_insert_with(Default::default) }
}
fn o(v: V) -> &'static mut Obj {
    unsafe { &mut *v }
}
fn h(v: V) -> H {
    let p = Box::into_raw(Box::new(v));
    vm().handles.push(p);
    p
}
fn v(p: H) -> V {
    if p.is_null() {
        fail("V8 is given a null handle");
    }
    match unsafe { *p } as usize {
        // the small integer 0, as the crate writes it
        0 => num(0.0),
        GONE => fail("V8 is given a handle which is no longer valid"),
        _ => unsafe { *p },
    }
}
const GONE: usize = 1;
pub fn kind(v: V) -> &'static mut Kind {
    &mut o(v).kind
}
pub fn value(kind: Kind) -> V {
    let ctx = vm().entered.last().copied().unwrap_or(0);
    Box::into_raw(Box::new(Obj { kind, props: Vec::new(), proto: None, ctx }))
}
// ---- for the functions of plugins ----
pub fn undefined() -> V {
    value(Kind::Undefined)
}
pub fn null() -> V {
    value(Kind::Null)
}
pub fn boolean(b: bool) -> V {
    value(Kind::Bool(b))
}
pub fn num(n: f64) -> V {
    value(Kind::Num(n))
}
pub fn string(s: &str) -> V {
    value(Kind::Str(s.as_bytes().to_vec()))
}
pub fn object() -> V {
    value(Kind::Object)
}
pub fn array(x: Vec<Option<V>>) -> V {
    value(Kind::Array(x))
}
pub fn function(f: impl Fn(V, &[V]) -> Res + 'static) -> V {
    value(Kind::Func(Call::Model(Rc::new(f))))
}
pub fn getter(x: V, key: &str, f: impl Fn(V, &[V]) -> Res + 'static) {
    o(x).props.push(Prop { key: key.into(), value: undefined(), getter: Some(Rc::new(f)), hidden: false });
}
/// Defines a property, whatever its name.
pub fn define(x: V, key: &[u8], val: V) {
    if let Kind::Array(a) = kind(x) {
        if let Some(i) = index(key) {
            while a.len() <= i as usize {
                a.push(None);
            }
            a[i as usize] = Some(val);
            return;
        }
    }
    let ob = o(x);
    for p in &mut ob.props {
        if p.key == key {
            p.value = val;
            p.getter = None;
            return;
        }
    }
    ob.props.push(Prop { key: key.to_vec(), value: val, getter: None, hidden: false });
}
pub fn error(text: &str) -> V {
    let e = object();
    define(e, b"message", string(text));
    o(e).props[0].hidden = true;
    e
}
/// Nothing changed what the object inherits from.
pub fn plain(x: V) -> bool {
    o(x).proto.is_none()
}
/// The number of own properties that are no elements.
pub fn own_count(x: V) -> usize {
    o(x).props.len()
}
/// The value of a global variable, as a function of the context sees it.
pub fn global() -> V {
    vm().contexts[*vm().entered.last().unwrap_or(&0)].1
}
/// The number a property name is an index of.
fn index(k: &[u8]) -> Option<u32> {
    if k.is_empty() || k.len() > 9 || k.len() > 1 && k[0] == b'0' {
        return None;
    }
    let mut n = 0u32;
    for b in k {
        if !b.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (*b - b'0') as u32;
    }
    Some(vrt::conc(n as u64) as u32)
}
fn builtin(x: V, key: &[u8]) -> Option<V> {
    match key {
        b"toString" | b"valueOf" | b"constructor" | b"hasOwnProperty" | b"toLocaleString" | b"isPrototypeOf" | b"propertyIsEnumerable" => Some(function(|_, _| Ok(string("builtin")))),
        b"__proto__" => Some(o(x).proto.unwrap_or_else(object)),
        _ => None,
    }
}
/// The own property names in their order, with whether each is an index.
pub fn keys(x: V, hidden: bool) -> Vec<Vec<u8>> {
    let mut n: Vec<(u32, Vec<u8>)> = Vec::new();
    let mut s: Vec<Vec<u8>> = Vec::new();
    match kind(x) {
        Kind::Array(a) => {
            for (i, e) in a.iter().enumerate() {
                if e.is_some() {
                    n.push((i as u32, i.to_string().into_bytes()));
                }
            }
        }
        Kind::Wrap(p) => {
            if let Kind::Str(t) = kind(*p) {
                for i in 0..std::str::from_utf8(t).unwrap().encode_utf16().count() {
                    n.push((i as u32, i.to_string().into_bytes()));
                }
            }
        }
        _ => {}
    }
    for p in &o(x).props {
        if p.hidden && !hidden {
            continue;
        }
        match index(&p.key) {
            Some(i) => n.push((i, p.key.clone())),
            None => s.push(p.key.clone()),
        }
    }
    n.sort();
    n.into_iter().map(|k| k.1).chain(s).collect()
}
/// The own property, if there is one.
pub fn own(x: V, this: V, key: &[u8]) -> Option<Res> {
    match kind(x) {
        Kind::Array(a) => {
            if let Some(i) = index(key) {
                if let Some(Some(e)) = a.get(i as usize) {
                    return Some(Ok(*e));
                }
            }
            if key == b"length" {
                return Some(Ok(num(a.len() as f64)));
            }
        }
        Kind::Wrap(p) => {
            if let Kind::Str(t) = kind(*p) {
                let u: Vec<u16> = std::str::from_utf8(t).unwrap().encode_utf16().collect();
                if key == b"length" {
                    return Some(Ok(num(u.len() as f64)));
                }
                if let Some(c) = index(key).and_then(|i| u.get(i as usize).copied()) {
                    return Some(Ok(string(&String::from_utf16_lossy(&[c]))));
                }
            }
        }
        Kind::Func(_) if key == b"length" => return Some(Ok(num(0.0))),
        Kind::Func(_) if key == b"name" && !o(x).props.iter().any(|p| p.key == b"name") => return Some(Ok(string("f"))),
        _ => {}
    }
    for p in &o(x).props {
        if p.key == key {
            if let Some(g) = p.getter.clone() {
                return Some(enter(o(x).ctx, || g(this, &[])));
            }
            return Some(Ok(p.value));
        }
    }
    None
}
pub fn get(x: V, key: &[u8]) -> Res {
    let mut at = x;
    loop {
        if let Some(r) = own(at, x, key) {
            return r;
        }
        match o(at).proto {
            Some(p) if matches!(kind(p), Kind::Null) => return Ok(undefined()),
            Some(p) => at = p,
            None => return Ok(builtin(x, key).unwrap_or_else(undefined)),
        }
    }
}
pub fn set(x: V, key: &[u8], val: V) {
    if key == b"__proto__" && !o(x).props.iter().any(|p| p.key == key) {
        if is_object(val) || matches!(kind(val), Kind::Null) {
            o(x).proto = Some(val);
        }
        return;
    }
    if o(x).props.iter().any(|p| p.key == key && p.getter.is_some()) {
        return;
    }
    define(x, key, val)
}
fn enter<T>(ctx: usize, f: impl FnOnce() -> T) -> T {
    vm().depth += 1;
    vm().entered.push(ctx);
    let r = f();
    vm().entered.pop();
    vm().depth -= 1;
    r
}
pub fn call(f: V, this: V, args: &[V]) -> Res {
    let c = match kind(f) {
        Kind::Func(c) => c.clone(),
        _ => return Err(error("not a function")),
    };
    vm().calls += 1;
    enter(o(f).ctx, || match c {
        Call::Model(m) => m(this, args),
        Call::Api(cb, data) => {
            let mark = vm().handles.len();
            // a function of the interface is never strict
            let this = if is_object(this) { this } else { global() };
            let mut implicit = [this, vm().iso as V, undefined(), undefined(), data, undefined()];
            let mut values = vec![this];
            values.extend_from_slice(args);
            let (ip, vp) = (implicit.as_mut_ptr(), values.as_mut_ptr());
            let info = Info { implicit: ip, values: unsafe { vp.add(1) }, length: args.len() as i32 };
            cb(&info);
            close(mark);
            match vm().scheduled.take() {
                Some(e) => Err(e),
                None => Ok(unsafe { *ip.add(3) }),
            }
        }
    })
}
fn close(mark: usize) {
    let hs = &mut vm().handles;
    while hs.len() > mark {
        let p = hs.pop().unwrap();
        unsafe { *p = GONE as V };
    }
}
/// An exception leaves a call of the interface.
fn throw(e: V) {
    let m = vm();
    if let Some(c) = m.catches.last_mut() {
        if c.depth == m.depth {
            c.exc = Some(e);
            return;
        }
    }
    if m.depth > 0 {
        m.scheduled = Some(e);
    } else {
        m.uncaught += 1;
    }
}
fn is_object(x: V) -> bool {
    matches!(kind(x), Kind::Object | Kind::Array(_) | Kind::Func(_) | Kind::Wrap(_) | Kind::External(_) | Kind::Promise(..))
}
fn number_text(n: f64) -> String {
    if n.is_nan() {
        return "NaN".into();
    }
    if n.is_infinite() {
        return if n > 0.0 { "Infinity".into() } else { "-Infinity".into() };
    }
    if n == 0.0 {
        return "0".into();
    }
    let e = format!("{:e}", n.abs());
    let (m, x) = e.split_once('e').unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let k = digits.len() as i32;
    let p = x.parse::<i32>().unwrap() + 1;
    let body = if k <= p && p <= 21 {
        digits + &"0".repeat((p - k) as usize)
    } else if 0 < p && p <= 21 {
        format!("{}.{}", &digits[..p as usize], &digits[p as usize..])
    } else if -6 < p && p <= 0 {
        format!("0.{}{}", "0".repeat(-p as usize), digits)
    } else {
        let s = if p > 0 { '+' } else { '-' };
        let q = (p - 1).abs();
        if k == 1 {
            format!("{}e{}{}", digits, s, q)
        } else {
            format!("{}.{}e{}{}", &digits[..1], &digits[1..], s, q)
        }
    };
    if n < 0.0 {
        format!("-{}", body)
    } else {
        body
    }
}
/// The text of a value, as by `String(v)`.
pub fn text(x: V) -> Result<Vec<u8>, V> {
    Ok(match kind(x) {
        Kind::Undefined => b"undefined".to_vec(),
        Kind::Null => b"null".to_vec(),
        Kind::Bool(b) => if *b { b"true".to_vec() } else { b"false".to_vec() },
        Kind::Num(n) => number_text(*n).into_bytes(),
        Kind::Str(s) => s.clone(),
        Kind::Symbol => return Err(error("cannot convert a symbol")),
        Kind::BigInt => b"9007199254740993".to_vec(),
        Kind::Wrap(p) => return text(*p),
        _ => {
            for p in &o(x).props {
                if p.key == b"toString" {
                    let r = call(p.value, x, &[])?;
                    return if is_object(r) { Err(error("no primitive value")) } else { text(r) };
                }
            }
            match kind(x) {
                Kind::Array(a) => {
                    let mut t = Vec::new();
                    for (i, e) in a.iter().enumerate() {
                        if i > 0 {
                            t.push(b',');
                        }
                        if let Some(e) = e {
                            if !matches!(kind(*e), Kind::Undefined | Kind::Null) {
                                t.extend(text(*e)?);
                            }
                        }
                    }
                    t
                }
                Kind::Func(_) => b"() => {}".to_vec(),
                Kind::Promise(..) => b"[object Promise]".to_vec(),
                _ => b"[object Object]".to_vec(),
            }
        }
    })
}
fn number(x: V) -> Result<f64, V> {
    Ok(match kind(x) {
        Kind::Undefined => f64::NAN,
        Kind::Null => 0.0,
        Kind::Bool(b) => *b as u8 as f64,
        Kind::Num(n) => *n,
        Kind::Symbol | Kind::BigInt => return Err(error("cannot convert to a number")),
        Kind::Str(s) => {
            let t = std::str::from_utf8(s).unwrap().trim();
            if t.is_empty() {
                0.0
            } else {
                t.parse().unwrap_or(f64::NAN)
            }
        }
        _ => {
            let t = text(x)?;
            return number(value(Kind::Str(t)));
        }
    })
}
fn key_of(x: V) -> Result<Vec<u8>, V> {
    text(x)
}
fn give(r: Res) -> H {
    match r {
        Ok(x) => h(x),
        Err(e) => {
            throw(e);
            std::ptr::null()
        }
    }
}
fn cur() -> usize {
    match vm().entered.last() {
        Some(c) => *c,
        None => fail("V8 is used outside of a context"),
    }
}
type P = *mut c_void;
#[repr(C)]
pub struct Maybe<T> {
    has: bool,
    value: T,
}
#[repr(C)]
pub struct Shared {
    a: usize,
    b: usize,
}

// ---- platform and isolate ----
#[no_mangle]
pub static v8__internal__Internals__kIsolateEmbedderDataOffset: i32 = 67 * 8;
#[no_mangle]
pub static v8__FunctionCallbackInfo__kArgsLength: i32 = 6;
macro_rules! api {
    ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)+) => {
        $(#[no_mangle] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)+
    };
}
extern "C" {
    /// Defined nowhere: whoever comes here learns nothing.
    fn vrt_v8_not_modelled() -> !;
}
/// V8 is used in a way the model does not know.
fn not_modelled() -> ! {
    unsafe { vrt_v8_not_modelled() }
}
fn is(p: H, f: impl Fn(&Kind) -> bool) -> bool {
    f(kind(v(p)))
}
api! {
    fn v8__V8__InitializePlatform(_p: P) { vm().platform = true; }
    fn v8__V8__Initialize() {
        if !vm().platform || vm().ready {
            fail("V8 is initialised twice or without a platform");
        }
        vm().ready = true;
    }
    fn v8__Platform__NewDefaultPlatform(_n: i32, _i: bool) -> P { 8 as P }
    fn v8__Platform__NewSingleThreadedDefaultPlatform(_i: bool) -> P { 8 as P }
    fn v8__Platform__NewUnprotectedDefaultPlatform(_n: i32, _i: bool) -> P { 8 as P }
    fn v8__Platform__DELETE(_p: P) {}
    fn std__shared_ptr__v8__Platform__reset(_p: P) {}
    fn std__shared_ptr__v8__Platform__get(_p: P) -> P { 8 as P }
    fn std__shared_ptr__v8__Platform__COPY(_p: P) -> Shared { Shared { a: 8, b: 8 } }
    fn std__shared_ptr__v8__Platform__CONVERT__std__unique_ptr(_p: P) -> Shared { Shared { a: 8, b: 8 } }
    fn std__shared_ptr__v8__ArrayBuffer__Allocator__reset(_p: P) {}
    fn std__shared_ptr__v8__ArrayBuffer__Allocator__get(_p: P) -> P { 8 as P }
    fn std__shared_ptr__v8__ArrayBuffer__Allocator__COPY(_p: P) -> Shared { Shared { a: 8, b: 8 } }
    fn std__shared_ptr__v8__ArrayBuffer__Allocator__CONVERT__std__unique_ptr(_p: P) -> Shared { Shared { a: 8, b: 8 } }
    fn v8__ArrayBuffer__Allocator__NewDefaultAllocator() -> P { 8 as P }
    fn v8__ArrayBuffer__Allocator__DELETE(_p: P) {}
    fn v8__SnapshotCreator__DESTRUCT(_p: P) {}
    fn v8__Isolate__CreateParams__SIZEOF() -> usize { 8 }
    fn v8__Isolate__CreateParams__CONSTRUCT(p: *mut u8) { unsafe { std::ptr::write_bytes(p, 0, 8) } }
    fn v8__Isolate__New(_p: P) -> P {
        if !vm().ready {
            fail("an isolate is made before V8 is initialised");
        }
        let m: &'static mut [usize; 80] = Box::leak(Box::new([0; 80]));
        vm().iso = m.as_mut_ptr() as usize;
        vm().iso as P
    }
    fn v8__Isolate__GetNumberOfDataSlots(_i: P) -> u32 { 4 }
    fn v8__Isolate__Enter(_i: P) {}
    fn v8__Isolate__Exit(_i: P) {}
    fn v8__Isolate__Dispose(_i: P) {}
    fn v8__Isolate__GetCurrentContext(_i: P) -> H {
        match vm().entered.last() {
            Some(c) => h(vm().contexts[*c].0),
            None => std::ptr::null(),
        }
    }
    fn v8__Isolate__GetEnteredOrMicrotaskContext(i: P) -> H { v8__Isolate__GetCurrentContext(i) }
    fn v8__Isolate__ThrowException(_i: P, e: H) -> H { throw(v(e)); h(undefined()) }
    fn v8__Isolate__PerformMicrotaskCheckpoint(_i: P) {}
    fn v8__Isolate__LowMemoryNotification(_i: P) {}
    // ---- handles and scopes ----
    fn v8__HandleScope__CONSTRUCT(b: *mut usize, _i: P) { unsafe { *b = vm().handles.len() } }
    fn v8__HandleScope__DESTRUCT(b: *mut usize) { close(unsafe { *b }) }
    fn v8__Local__New(_i: P, x: H) -> H { h(v(x)) }
    fn v8__Global__New(_i: P, x: H) -> H { Box::into_raw(Box::new(v(x))) }
    fn v8__Global__Reset(x: *mut V) { unsafe { *x = GONE as V } }
    fn v8__TryCatch__CONSTRUCT(b: *mut usize, _i: P) {
        let m = vm();
        m.catches.push(Catch { depth: m.depth, exc: None, at: b as usize });
    }
    fn v8__TryCatch__DESTRUCT(_b: *mut usize) { vm().catches.pop(); }
    fn v8__TryCatch__HasCaught(b: *const usize) -> bool { catch(b).exc.is_some() }
    fn v8__TryCatch__CanContinue(_b: *const usize) -> bool { true }
    fn v8__TryCatch__HasTerminated(_b: *const usize) -> bool { false }
    fn v8__TryCatch__IsVerbose(_b: *const usize) -> bool { false }
    fn v8__TryCatch__SetVerbose(_b: *const usize, _v: bool) {}
    fn v8__TryCatch__SetCaptureMessage(_b: *const usize, _v: bool) {}
    fn v8__TryCatch__Reset(b: *const usize) { catch(b).exc = None; }
    fn v8__TryCatch__Exception(b: *const usize) -> H { catch(b).exc.map(h).unwrap_or(std::ptr::null()) }
    fn v8__TryCatch__Message(b: *const usize) -> H { catch(b).exc.map(h).unwrap_or(std::ptr::null()) }
    fn v8__TryCatch__StackTrace(_b: *const usize, _c: H) -> H { std::ptr::null() }
    fn v8__TryCatch__ReThrow(b: *const usize) -> H {
        match catch(b).exc.take() {
            Some(e) => {
                let c = vm().catches.pop().unwrap();
                throw(e);
                vm().catches.push(c);
                h(undefined())
            }
            None => std::ptr::null(),
        }
    }
    fn v8__Message__Get(m: H) -> H {
        let m = v(m);
        let t = if is_object(m) { own(m, m, b"message") } else { None };
        h(value(Kind::Str([b"Uncaught ", &text(t.and_then(|t| t.ok()).unwrap_or(m)).unwrap_or_default()[..]].concat())))
    }
    fn v8__DisallowJavascriptExecutionScope__DESTRUCT(_b: P) {}
    fn v8__AllowJavascriptExecutionScope__DESTRUCT(_b: P) {}
    // ---- contexts ----
    fn v8__Context__New(_i: P, _t: H, _g: H) -> H {
        let n = vm().contexts.len();
        let c = value(Kind::Context(n));
        let g = object();
        o(g).ctx = n;
        vm().contexts.push((c, g));
        let g2 = g;
        define(g, b"globalThis", g2);
        o(g).props[0].hidden = true;
        h(c)
    }
    fn v8__Context__Enter(c: H) { vm().entered.push(ctx(c)); }
    fn v8__Context__Exit(c: H) {
        if vm().entered.pop() != Some(ctx(c)) {
            fail("a context is left which is not the current one");
        }
    }
    fn v8__Context__Global(c: H) -> H { h(vm().contexts[ctx(c)].1) }
    fn v8__Context__GetIsolate(_c: H) -> P { vm().iso as P }
    fn v8__Context__EQ(a: H, b: H) -> bool { v(a) == v(b) }
    // ---- primitives ----
    fn v8__Undefined(_i: P) -> H { h(undefined()) }
    fn v8__Null(_i: P) -> H { h(null()) }
    fn v8__True(_i: P) -> H { h(boolean(true)) }
    fn v8__False(_i: P) -> H { h(boolean(false)) }
    fn v8__Boolean__New(_i: P, b: bool) -> H { h(boolean(b)) }
    fn v8__Number__New(_i: P, n: f64) -> H { h(num(n)) }
    fn v8__Number__Value(n: H) -> f64 { number(v(n)).unwrap_or(0.0) }
    fn v8__Integer__New(_i: P, n: i32) -> H { h(num(n as f64)) }
    fn v8__Integer__NewFromUnsigned(_i: P, n: u32) -> H { h(num(n as f64)) }
    fn v8__Integer__Value(n: H) -> i64 { number(v(n)).unwrap_or(0.0) as i64 }
    fn v8__Uint32__Value(n: H) -> u32 { number(v(n)).unwrap_or(0.0) as i64 as u32 }
    fn v8__Int32__Value(n: H) -> i32 { number(v(n)).unwrap_or(0.0) as i64 as i32 }
    fn v8__String__Empty(_i: P) -> H { h(string("")) }
    fn v8__String__NewFromUtf8(_i: P, p: *const u8, _t: u32, n: i32) -> H {
        if n < 0 {
            not_modelled();
        }
        h(value(Kind::Str(unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec())))
    }
    fn v8__String__Length(s: H) -> i32 {
        // characters, and one more for those outside of the first plane
        bytes(s).iter().map(|b| (*b & 0xc0 != 0x80) as i32 + (*b >= 0xf0) as i32).sum()
    }
    fn v8__String__Utf8Length(s: H, _i: P) -> i32 { bytes(s).len() as i32 }
    fn v8__String__IsOneByte(s: H) -> bool { bytes(s).iter().fold(true, |a, b| a & (*b < 0xc4)) }
    fn v8__String__ContainsOnlyOneByte(s: H) -> bool { v8__String__IsOneByte(s) }
    fn v8__String__WriteOneByte(s: H, _i: P, p: *mut u8, start: i32, n: i32, o: i32) -> i32 {
        let b = bytes(s);
        if start != 0 || b.iter().any(|c| *c >= 0x80) {
            not_modelled();
        }
        put(b, p, n, o)
    }
    fn v8__String__WriteUtf8(s: H, _i: P, p: *mut u8, n: i32, chars: *mut i32, o: i32) -> i32 {
        let b = bytes(s);
        let k = put(b, p, n, o);
        if !chars.is_null() {
            unsafe { *chars = v8__String__Length(s) };
        }
        k
    }
    // ---- values ----
    fn v8__Value__IsUndefined(x: H) -> bool { is(x, |k| matches!(k, Kind::Undefined)) }
    fn v8__Value__IsNull(x: H) -> bool { is(x, |k| matches!(k, Kind::Null)) }
    fn v8__Value__IsNullOrUndefined(x: H) -> bool { is(x, |k| matches!(k, Kind::Null | Kind::Undefined)) }
    fn v8__Value__IsTrue(x: H) -> bool { is(x, |k| matches!(k, Kind::Bool(true))) }
    fn v8__Value__IsFalse(x: H) -> bool { is(x, |k| matches!(k, Kind::Bool(false))) }
    fn v8__Value__IsBoolean(x: H) -> bool { is(x, |k| matches!(k, Kind::Bool(_))) }
    fn v8__Value__IsNumber(x: H) -> bool { is(x, |k| matches!(k, Kind::Num(_))) }
    fn v8__Value__IsInt32(x: H) -> bool { is(x, |k| matches!(k, Kind::Num(n) if *n as i32 as f64 == *n && (*n != 0.0 || n.is_sign_positive()))) }
    fn v8__Value__IsUint32(x: H) -> bool { is(x, |k| matches!(k, Kind::Num(n) if *n as u32 as f64 == *n && (*n != 0.0 || n.is_sign_positive()))) }
    fn v8__Value__IsString(x: H) -> bool { is(x, |k| matches!(k, Kind::Str(_))) }
    fn v8__Value__IsSymbol(x: H) -> bool { is(x, |k| matches!(k, Kind::Symbol)) }
    fn v8__Value__IsName(x: H) -> bool { is(x, |k| matches!(k, Kind::Symbol | Kind::Str(_))) }
    fn v8__Value__IsBigInt(x: H) -> bool { is(x, |k| matches!(k, Kind::BigInt)) }
    fn v8__Value__IsArray(x: H) -> bool { is(x, |k| matches!(k, Kind::Array(_))) }
    fn v8__Value__IsFunction(x: H) -> bool { is(x, |k| matches!(k, Kind::Func(_))) }
    fn v8__Value__IsExternal(x: H) -> bool { is(x, |k| matches!(k, Kind::External(_))) }
    fn v8__Value__IsPromise(x: H) -> bool { is(x, |k| matches!(k, Kind::Promise(..))) }
    fn v8__Value__IsObject(x: H) -> bool { is_object(v(x)) }
    fn v8__Value__IsDate(_x: H) -> bool { false }
    fn v8__Value__IsProxy(_x: H) -> bool { false }
    fn v8__Value__IsMap(_x: H) -> bool { false }
    fn v8__Value__IsSet(_x: H) -> bool { false }
    fn v8__Value__IsRegExp(_x: H) -> bool { false }
    fn v8__Value__IsNativeError(_x: H) -> bool { false }
    fn v8__Value__IsStringObject(x: H) -> bool { is(x, |k| matches!(k, Kind::Wrap(p) if matches!(kind(*p), Kind::Str(_)))) }
    fn v8__Value__IsNumberObject(x: H) -> bool { is(x, |k| matches!(k, Kind::Wrap(p) if matches!(kind(*p), Kind::Num(_)))) }
    fn v8__Value__IsBooleanObject(x: H) -> bool { is(x, |k| matches!(k, Kind::Wrap(p) if matches!(kind(*p), Kind::Bool(_)))) }
    fn v8__Value__IsModuleNamespaceObject(_x: H) -> bool { false }
    fn v8__Value__BooleanValue(x: H, _i: P) -> bool {
        is(x, |k| match k {
            Kind::Undefined | Kind::Null => false,
            Kind::Bool(b) => *b,
            Kind::Num(n) => *n != 0.0 && !n.is_nan(),
            Kind::Str(s) => !s.is_empty(),
            _ => true,
        })
    }
    fn v8__Value__NumberValue(x: H, _c: H, out: *mut Maybe<f64>) { maybe(number(v(x)), 0.0, out) }
    fn v8__Value__IntegerValue(x: H, _c: H, out: *mut Maybe<i64>) { maybe(number(v(x)).map(|n| n as i64), 0, out) }
    fn v8__Value__Uint32Value(x: H, _c: H, out: *mut Maybe<u32>) { maybe(number(v(x)).map(|n| n as i64 as u32), 0, out) }
    fn v8__Value__Int32Value(x: H, _c: H, out: *mut Maybe<i32>) { maybe(number(v(x)).map(|n| n as i64 as i32), 0, out) }
    fn v8__Value__ToString(x: H, _c: H) -> H { give(text(v(x)).map(|t| value(Kind::Str(t)))) }
    fn v8__Value__ToDetailString(x: H, c: H) -> H { v8__Value__ToString(x, c) }
    fn v8__Value__ToNumber(x: H, _c: H) -> H { give(number(v(x)).map(num)) }
    fn v8__Value__ToBoolean(x: H, i: P) -> H { h(boolean(v8__Value__BooleanValue(x, i))) }
    fn v8__Value__ToObject(x: H, _c: H) -> H {
        let x = v(x);
        give(match kind(x) {
            Kind::Undefined | Kind::Null => Err(error("cannot convert to an object")),
            _ if is_object(x) => Ok(x),
            _ => Ok(value(Kind::Wrap(x))),
        })
    }
    fn v8__Value__StrictEquals(a: H, b: H) -> bool { same(v(a), v(b)) }
    fn v8__Value__SameValue(a: H, b: H) -> bool {
        match (kind(v(a)), kind(v(b))) {
            (Kind::Num(a), Kind::Num(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            _ => same(v(a), v(b)),
        }
    }
    fn v8__Data__EQ(a: H, b: H) -> bool { same(v(a), v(b)) }
    fn v8__Value__TypeOf(x: H, _i: P) -> H {
        h(string(match kind(v(x)) {
            Kind::Undefined => "undefined",
            Kind::Bool(_) => "boolean",
            Kind::Num(_) => "number",
            Kind::Str(_) => "string",
            Kind::Symbol => "symbol",
            Kind::BigInt => "bigint",
            Kind::Func(_) => "function",
            _ => "object",
        }))
    }
    fn v8__External__New(_i: P, p: P) -> H { h(value(Kind::External(p as usize))) }
    fn v8__External__Value(x: H) -> P {
        match kind(v(x)) {
            Kind::External(p) => *p as P,
            _ => not_modelled(),
        }
    }
    // ---- objects ----
    fn v8__Object__New(_i: P) -> H { h(object()) }
    fn v8__Object__Get(x: H, _c: H, k: H) -> H { let k = key_of(v(k)); give(k.and_then(|k| get(v(x), &k))) }
    fn v8__Object__GetIndex(x: H, _c: H, i: u32) -> H { give(get(v(x), i.to_string().as_bytes())) }
    fn v8__Object__Set(x: H, _c: H, k: H, val: H) -> u32 {
        match key_of(v(k)) {
            Ok(k) => {
                set(v(x), &k, v(val));
                1
            }
            Err(e) => {
                throw(e);
                2
            }
        }
    }
    fn v8__Object__SetIndex(x: H, _c: H, i: u32, val: H) -> u32 { set(v(x), i.to_string().as_bytes(), v(val)); 1 }
    fn v8__Object__CreateDataProperty(x: H, _c: H, k: H, val: H) -> u32 { define(v(x), bytes(k), v(val)); 1 }
    fn v8__Object__CreateDataPropertyIndex(x: H, _c: H, i: u32, val: H) -> u32 { define(v(x), i.to_string().as_bytes(), v(val)); 1 }
    fn v8__Object__DefineOwnProperty(x: H, _c: H, k: H, val: H, attr: u32) -> u32 {
        let k = bytes(k);
        define(v(x), k, v(val));
        for p in &mut o(v(x)).props {
            if p.key == *k {
                p.hidden = attr & 2 != 0;
            }
        }
        1
    }
    fn v8__Object__Has(x: H, _c: H, k: H) -> u32 { (own(v(x), v(x), bytes(k)).is_some() || builtin(v(x), bytes(k)).is_some()) as u32 }
    fn v8__Object__HasIndex(x: H, _c: H, i: u32) -> u32 { own(v(x), v(x), i.to_string().as_bytes()).is_some() as u32 }
    fn v8__Object__HasOwnProperty(x: H, _c: H, k: H) -> u32 { own(v(x), v(x), bytes(k)).is_some() as u32 }
    fn v8__Object__Delete(x: H, _c: H, k: H) -> u32 {
        let k = bytes(k).clone();
        o(v(x)).props.retain(|p| p.key != k);
        1
    }
    fn v8__Object__SetPrototype(x: H, _c: H, p: H) -> u32 { o(v(x)).proto = Some(v(p)); 1 }
    fn v8__Object__GetPrototype(x: H) -> H { h(o(v(x)).proto.unwrap_or_else(object)) }
    fn v8__Object__GetOwnPropertyNames(x: H, _c: H, filter: u32, conv: u32) -> H { names(v(x), filter, conv) }
    fn v8__Object__GetPropertyNames(x: H, _c: H, mode: u32, filter: u32, ix: u32, conv: u32) -> H {
        if mode != 0 || ix != 0 {
            // inherited names: those of what `__proto__` was set to
            if o(v(x)).proto.is_some() || ix != 0 {
                not_modelled();
            }
        }
        names(v(x), filter, conv)
    }
    fn v8__Array__New(_i: P, n: i32) -> H { h(array(vec![None; n.max(0) as usize])) }
    fn v8__Array__New_with_elements(_i: P, e: *const H, n: usize) -> H {
        h(array((0..n).map(|i| Some(v(unsafe { *e.add(i) }))).collect()))
    }
    fn v8__Array__Length(a: H) -> u32 {
        match kind(v(a)) {
            Kind::Array(a) => a.len() as u32,
            _ => not_modelled(),
        }
    }
    // ---- functions ----
    fn v8__FunctionTemplate__New(_i: P, cb: Api, data: H, _s: H, _l: i32, _cb: u32, _se: u32, _f1: P, _i1: P, _f2: P, _i2: P) -> H {
        h(value(Kind::Template(cb, if data.is_null() { undefined() } else { v(data) })))
    }
    fn v8__FunctionTemplate__GetFunction(t: H, c: H) -> H {
        match kind(v(t)) {
            Kind::Template(cb, d) => {
                let f = value(Kind::Func(Call::Api(*cb, *d)));
                o(f).ctx = ctx(c);
                h(f)
            }
            _ => not_modelled(),
        }
    }
    fn v8__Function__New(c: H, cb: Api, data: H, _l: i32, _cb: u32, _se: u32) -> H {
        let f = value(Kind::Func(Call::Api(cb, if data.is_null() { undefined() } else { v(data) })));
        o(f).ctx = ctx(c);
        h(f)
    }
    fn v8__Function__Call(f: H, _c: H, this: H, n: i32, args: *const H) -> H {
        cur();
        let a: Vec<V> = (0..n as usize).map(|i| v(unsafe { *args.add(i) })).collect();
        give(call(v(f), v(this), &a))
    }
    fn v8__ReturnValue__Set(r: *mut *mut V, x: H) { unsafe { **r = v(x) } }
    fn v8__ReturnValue__Set__Bool(r: *mut *mut V, x: bool) { unsafe { **r = boolean(x) } }
    fn v8__ReturnValue__Set__Double(r: *mut *mut V, x: f64) { unsafe { **r = num(x) } }
    fn v8__ReturnValue__Set__Int32(r: *mut *mut V, x: i32) { unsafe { **r = num(x as f64) } }
    fn v8__ReturnValue__Set__Uint32(r: *mut *mut V, x: u32) { unsafe { **r = num(x as f64) } }
    fn v8__ReturnValue__SetUndefined(r: *mut *mut V) { unsafe { **r = undefined() } }
    fn v8__ReturnValue__SetNull(r: *mut *mut V) { unsafe { **r = null() } }
    fn v8__ReturnValue__SetEmptyString(r: *mut *mut V) { unsafe { **r = string("") } }
    fn v8__ReturnValue__Get(r: *mut *mut V) -> H { h(unsafe { **r }) }
    fn v8__Exception__Error(m: H) -> H { h(error(std::str::from_utf8(bytes(m)).unwrap())) }
    fn v8__Exception__TypeError(m: H) -> H { v8__Exception__Error(m) }
    fn v8__Exception__RangeError(m: H) -> H { v8__Exception__Error(m) }
    fn v8__Exception__CreateMessage(_i: P, e: H) -> H { h(v(e)) }
    // ---- modules ----
    fn v8__ScriptOrigin__CONSTRUCT(_i: P, b: *mut u8, _n: H, _l: i32, _c: i32, _s: bool, _id: i32, _m: H, _o: bool, _w: bool, module: bool) {
        unsafe { std::ptr::write_bytes(b, 0, 64); *b = module as u8 }
    }
    fn v8__ScriptCompiler__Source__CONSTRUCT(b: *mut usize, s: H, origin: *const u8, _cd: P) {
        unsafe {
            *b = v(s) as usize;
            *b.add(1) = if origin.is_null() { 0 } else { *origin as usize };
        }
    }
    fn v8__ScriptCompiler__Source__DESTRUCT(_b: P) {}
    fn v8__ScriptCompiler__CompileModule(_i: P, s: *const usize, _o: u32, _r: u32) -> H {
        cur();
        let (text, module) = unsafe { (*s as V, *s.add(1) == 1) };
        if !module {
            not_modelled();
        }
        let t = match kind(text) {
            Kind::Str(t) => &*t,
            _ => not_modelled(),
        };
        let m = vm();
        for (i, d) in m.defs.iter().enumerate() {
            if d.compiles && d.source == *t {
                m.insts.push(Inst { def: i, linked: false, ran: None });
                return h(value(Kind::Module(m.insts.len() - 1)));
            }
        }
        throw(error("syntax error"));
        std::ptr::null()
    }
    fn v8__Module__InstantiateModule(x: H, _c: H, _cb: P) -> u32 {
        let i = &mut vm().insts[module(x)];
        if !vm().defs[i.def].links {
            throw(error("cannot resolve"));
            return 2;
        }
        i.linked = true;
        1
    }
    fn v8__Module__Evaluate(x: H, _c: H) -> H {
        let n = module(x);
        let i = &mut vm().insts[n];
        if !i.linked {
            fail("a module is evaluated before it is instantiated");
        }
        if i.ran.is_none() {
            let run = vm().defs[i.def].run.clone();
            let c = cur();
            let r = enter(c, || run());
            vm().insts[n].ran = Some(r);
        }
        h(match &vm().insts[n].ran {
            Some(Err(e)) => value(Kind::Promise(2, *e)),
            _ => value(Kind::Promise(1, undefined())),
        })
    }
    fn v8__Module__GetStatus(x: H) -> u32 {
        let i = &vm().insts[module(x)];
        match &i.ran {
            Some(Ok(_)) => 4,
            Some(Err(_)) => 5,
            None => if i.linked { 2 } else { 0 },
        }
    }
    fn v8__Module__GetException(x: H) -> H {
        match &vm().insts[module(x)].ran {
            Some(Err(e)) => h(*e),
            _ => fail("a module has no exception"),
        }
    }
    fn v8__Module__GetModuleNamespace(x: H) -> H {
        let n = object();
        match &vm().insts[module(x)].ran {
            Some(Ok(Some(d))) => define(n, b"default", *d),
            Some(Ok(None)) => {}
            _ => getter(n, "default", |_, _| Err(error("used before it is initialised"))),
        }
        o(n).proto = Some(null());
        h(n)
    }
    fn v8__Promise__State(x: H) -> u32 {
        match kind(v(x)) {
            Kind::Promise(s, _) => *s,
            _ => not_modelled(),
        }
    }
    fn v8__Promise__Result(x: H) -> H {
        match kind(v(x)) {
            Kind::Promise(_, r) => h(*r),
            _ => not_modelled(),
        }
    }
    fn v8__Promise__MarkAsHandled(_x: H) {}
}
fn catch(b: *const usize) -> &'static mut Catch {
    for c in vm().catches.iter_mut().rev() {
        if c.at == b as usize {
            return c;
        }
    }
    match vm().catches.last_mut() {
        Some(c) => c,
        None => not_modelled(),
    }
}
fn ctx(c: H) -> usize {
    match kind(v(c)) {
        Kind::Context(n) => *n,
        _ => not_modelled(),
    }
}
fn module(x: H) -> usize {
    match kind(v(x)) {
        Kind::Module(n) => *n,
        _ => not_modelled(),
    }
}
fn bytes(s: H) -> &'static Vec<u8> {
    match kind(v(s)) {
        Kind::Str(s) => s,
        _ => not_modelled(),
    }
}
fn put(b: &[u8], p: *mut u8, n: i32, o: i32) -> i32 {
    let n = if n < 0 { b.len() } else { n as usize };
    if b.len() > n {
        not_modelled();
    }
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    // NO_NULL_TERMINATION
    if o & 2 == 0 && n > b.len() {
        unsafe { *p.add(b.len()) = 0 };
    }
    b.len() as i32
}
fn maybe<T>(r: Result<T, V>, zero: T, out: *mut Maybe<T>) {
    let m = match r {
        Ok(x) => Maybe { has: true, value: x },
        Err(e) => {
            throw(e);
            Maybe { has: false, value: zero }
        }
    };
    unsafe { std::ptr::write(out, m) }
}
fn same(a: V, b: V) -> bool {
    match (kind(a), kind(b)) {
        (Kind::Undefined, Kind::Undefined) | (Kind::Null, Kind::Null) => true,
        (Kind::Bool(a), Kind::Bool(b)) => a == b,
        (Kind::Num(a), Kind::Num(b)) => a == b,
        (Kind::Str(a), Kind::Str(b)) => a == b,
        _ => a == b,
    }
}
fn names(x: V, filter: u32, conv: u32) -> H {
    if filter & 8 != 0 {
        not_modelled();
    }
    let mut n = Vec::new();
    for k in keys(x, filter & 2 == 0) {
        match index(&k) {
            // indices are numbers unless they are to be converted
            Some(i) if conv == 1 => n.push(Some(num(i as f64))),
            Some(_) if conv == 2 => {}
            _ => n.push(Some(value(Kind::Str(k)))),
        }
    }
    h(array(n))
}
