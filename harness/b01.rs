//! Which modules the manifests say are already verified.
use super::sym;
use crate::build_cache::BuildCache;
use crate::certificate::{Certificate, CertificateStore};
use crate::certificate_trace::ProofTrace;
use crate::module::ModuleDescriptor;
use std::path::PathBuf;
#[path = "vfs.rs"]
mod vfs;

pub const HARNESSES: &[(&str, fn())] = &[
    ("b01_record", b01_record),
    ("b01_merge", b01_merge),
    ("b01_updates", b01_updates),
    ("b01_dependencies", b01_dependencies),
    ("b01_save", b01_save),
];
const TH: usize = cfg!(vh_thorough) as usize;
const SRC: &str = "/v/src";
const N: usize = 5;
const NAMES: [&str; N] = ["a", "p", "p.q", "p.q.r", "q"];

/// Which directories are packages: p, p/q.
#[derive(Clone, Copy)]
struct Layout {
    p: bool,
    q: bool,
}
fn layout() -> Layout {
    sym::real_format();
    let l = Layout { p: sym::choice(2) == 1, q: sym::choice(2) == 1 };
    for d in ["/v", "/v/src", "/v/src/p", "/v/src/p/q"] {
        vfs::mkdir_p(d);
    }
    vfs::put("/v/src/a.ac", b"");
    vfs::put("/v/src/q.ac", b"");
    vfs::put("/v/src/p/q/r.ac", b"");
    vfs::put(if l.p { "/v/src/p/interface.ac" } else { "/v/src/p.ac" }, b"");
    vfs::put(if l.q { "/v/src/p/q/interface.ac" } else { "/v/src/p/q.ac" }, b"");
    l
}
fn cache() -> BuildCache {
    BuildCache::new(PathBuf::from(SRC), PathBuf::from("/v/build"))
}
fn module(i: usize) -> ModuleDescriptor {
    ModuleDescriptor::name(NAMES[i])
}
/// A content hash: two of its bytes are arbitrary, the others fixed.
#[derive(Clone, Copy)]
struct H(u8, u8);
fn hash() -> H {
    H(sym::u8(), sym::u8())
}
fn b3(h: H) -> blake3::Hash {
    let mut b = [7u8; 32];
    b[0] = h.0;
    b[31] = h.1;
    blake3::Hash::from_bytes(b)
}
fn eq(a: H, b: H) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}
fn store(tag: u8) -> CertificateStore {
    let goal = String::from_utf8(vec![b'g', b'0' + tag]).unwrap();
    CertificateStore { certs: vec![Certificate { goal, proof: ProofTrace { steps: vec![] } }] }
}
fn tag(c: &BuildCache, i: usize) -> Option<u8> {
    c.get_certificates(&module(i)).map(|s| if s.certs.len() == 1 { s.certs[0].goal.as_bytes()[1] - b'0' } else { 99 })
}

/// What a cache should say: the last hash recorded for each module and the certificates it keeps.
#[derive(Clone, Copy)]
struct Ref {
    hash: [Option<H>; N],
    cert: [Option<u8>; N],
}
const NONE: Ref = Ref { hash: [None; N], cert: [None; N] };
impl Ref {
    fn matches(&self, i: usize, h: H) -> bool {
        self.hash[i].is_some_and(|r| eq(r, h))
    }
    /// These records where there are any, the others elsewhere.
    fn over(&self, old: &Ref) -> Ref {
        let mut r = *self;
        for i in 0..N {
            r.hash[i] = r.hash[i].or(old.hash[i]);
            r.cert[i] = r.cert[i].or(old.cert[i]);
        }
        r
    }
}
/// One record about any module, kept in both.
fn record(c: &mut BuildCache, r: &mut Ref, t: u8) {
    let i = sym::choice(N);
    let h = hash();
    match sym::choice(3) {
        0 => {
            c.record_unchanged(&module(i), b3(h), &[]);
            r.hash[i] = Some(h);
        }
        1 => {
            c.insert(module(i), store(t), Some(b3(h)), &[]);
            r.hash[i] = Some(h);
            r.cert[i] = Some(t);
        }
        _ => {
            c.insert(module(i), store(t), None, &[]);
            r.cert[i] = Some(t);
        }
    }
}
fn judge(c: &BuildCache, r: &Ref) {
    let h = hash();
    let mut ok = true;
    let mut certs = true;
    let mut n = 0;
    for i in 0..N {
        ok &= c.manifest_matches(&module(i), b3(h)) == r.matches(i, h);
        certs &= tag(c, i) == r.cert[i];
        n += r.cert[i].is_some() as usize;
    }
    sym::check(ok, "a module counts as verified with another hash than the one recorded for it");
    sym::check(certs && c.module_count() == n, "certificates are lost, invented or stale");
    let f = c.manifest_matches(&ModuleDescriptor::File(PathBuf::from("/v/src/a.ac")), b3(h))
        | c.manifest_matches(&ModuleDescriptor::Anonymous, b3(h));
    sym::check(!f, "a module without a name counts as verified");
}

/// Any sequence of records, then any query.
#[no_mangle]
#[inline(never)]
pub fn b01_record() {
    layout();
    let (mut c, mut r) = (cache(), NONE);
    for t in 0..3 + TH {
        record(&mut c, &mut r, t as u8);
    }
    judge(&c, &r);
    sym::reach(0);
}
fn small(k: usize, base: u8) -> (BuildCache, Ref) {
    let (mut c, mut r) = (cache(), NONE);
    for t in 0..k {
        let i = sym::choice(3) + 1;
        let h = hash();
        c.insert(module(i), store(base + t as u8), Some(b3(h)), &[]);
        r.hash[i] = Some(h);
        r.cert[i] = Some(base + t as u8);
    }
    (c, r)
}
/// A build is merged with the previous one: its own records win, no record is lost.
#[no_mangle]
#[inline(never)]
pub fn b01_merge() {
    layout();
    let (old, ro) = small(2, 0);
    let (mut new, rn) = small(1 + sym::choice(2), 2);
    new.merge_certificates_from(&old);
    judge(&new, &rn.over(&ro));
    judge(&old, &ro);
    sym::reach(0);
}
/// Fragments of a build are merged in order.
#[no_mangle]
#[inline(never)]
pub fn b01_updates() {
    layout();
    let (mut a, ra) = small(1 + TH, 0);
    let (b, rb) = small(2, 2);
    let (c, rc) = small(1, 4);
    a.merge_updates_from(b);
    a.merge_updates_from(c);
    judge(&a, &rc.over(&rb.over(&ra)));
    sym::reach(0);
}
/// The dependencies recorded for a package are the ones outside it, each with its newest hash.
#[no_mangle]
#[inline(never)]
pub fn b01_dependencies() {
    let l = layout();
    let m = sym::choice(N);
    let (d, e) = (sym::choice(N), sym::choice(N));
    sym::assume(d != m && e != m);
    let (hm, hd, he) = (hash(), hash(), hash());
    let mut got = cache();
    match sym::choice(3) {
        0 => got.record_unchanged(&module(m), b3(hm), &[(module(d), b3(hd)), (module(e), b3(he))]),
        1 => {
            got.record_unchanged(&module(m), b3(hm), &[(module(d), b3(hd))]);
            let mut more = cache();
            more.record_unchanged(&module(m), b3(hm), &[(module(e), b3(he))]);
            got.merge_updates_from(more);
        }
        _ => {
            let mut old = cache();
            old.record_unchanged(&module(m), b3(hm), &[(module(d), b3(hd))]);
            got.record_unchanged(&module(m), b3(hm), &[(module(e), b3(he))]);
            got.merge_certificates_from(&old);
        }
    }
    // the package of a module: 0 for the root, 1 for p, 2 for p/q
    let package = |i: usize| match i {
        1 => l.p as usize,
        2 | 3 => if l.q { 2 } else { l.p as usize },
        _ => 0,
    };
    // the name a dependency is recorded under: its package's or, in the root, its own
    let key = |i: usize| match package(i) {
        1 => 1,
        2 => 2,
        _ => i,
    };
    let keep = |i: usize| package(i) != package(m);
    let want: Vec<(usize, H)> = [(d, hd), (e, he)].into_iter().filter(|x| keep(x.0)).collect();
    // an equal manifest built from the dependency names alone, in one step
    let other = cache();
    let stale = got.dependency_manifests_needing_update(&other, false);
    let roots = ["/v/src", "/v/src/p", "/v/src/p/q"];
    if want.is_empty() {
        sym::check(stale.is_empty(), "a dependency on its own package is recorded");
        sym::reach(0);
        return;
    }
    sym::check(
        stale.len() == 1 && stale[0] == PathBuf::from(roots[package(m)]).join("certs/manifest.json"),
        "a dependency is recorded in another package's manifest",
    );
    let mut expect = cache();
    let same_key = want.len() == 2 && key(want[0].0) == key(want[1].0);
    let newest = if same_key { vec![want[1]] } else { want.clone() };
    for (i, h) in &newest {
        expect.record_unchanged(&module(m), b3(hm), &[(module(*i), b3(*h))]);
    }
    sym::check(got.dependency_manifests_needing_update(&expect, false).is_empty(), "a dependency is recorded with another hash");
    let mut wrong = cache();
    let k = sym::choice(newest.len());
    let h2 = hash();
    for (j, (i, h)) in newest.iter().enumerate() {
        wrong.record_unchanged(&module(m), b3(hm), &[(module(*i), b3(if j == k { h2 } else { *h }))]);
    }
    sym::check(
        got.dependency_manifests_needing_update(&wrong, false).is_empty() == eq(h2, newest[k].1),
        "a changed dependency is not noticed",
    );
    sym::reach(1);
}
/// What is saved is what is loaded again.
#[no_mangle]
#[inline(never)]
pub fn b01_save() {
    layout();
    let (mut old, ro) = small(1, 0);
    let (mut new, rn) = small(1, 1);
    let partial = sym::choice(2) == 1;
    let none = cache();
    sym::check(old.save_merging_old(&none, false).is_ok(), "saving fails");
    sym::check(new.save_merging_old(&old, partial).is_ok(), "saving fails");
    let Ok(back) = BuildCache::load(PathBuf::from(SRC), PathBuf::from("/v/build")) else {
        sym::check(false, "loading fails");
        return;
    };
    let h = hash();
    let want = if partial { rn.over(&ro) } else { rn };
    let mut ok = true;
    let mut certs = true;
    for i in 0..N {
        ok &= back.manifest_matches(&module(i), b3(h)) == want.matches(i, h);
        // interfaces have no certificates of their own
        let file = match i {
            1 => vfs::get("/v/src/p.ac").is_some(),
            2 => vfs::get("/v/src/p/q.ac").is_some(),
            _ => true,
        };
        certs &= !file || tag(&back, i) == rn.over(&ro).cert[i];
    }
    sym::check(ok, "a loaded manifest says something else than the saved one");
    sym::check(certs, "loaded certificates are not the saved ones");
    sym::reach(0);
}
