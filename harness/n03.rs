//! Saving build results when the process dies or the disk fails in between.
use super::sym;
use crate::build_cache::BuildCache;
use crate::certificate::{Certificate, CertificateStore};
use crate::certificate_trace::ProofTrace;
use crate::manifest::PackageManifest;
use crate::module::ModuleDescriptor;
use std::path::{Path, PathBuf};
#[path = "vfs.rs"]
mod vfs;

pub const HARNESSES: &[(&str, fn())] = &[
    ("n03_crash", n03_crash),
    ("n03_fault", n03_fault),
    ("n03_certificates", n03_certificates),
    ("n03_manifest", n03_manifest),
];
const TH: usize = cfg!(vh_thorough) as usize;
const NAMES: [&str; 4] = ["a", "b", "p", "p.q"];
const CERTS: [&str; 3] = ["/v/src/certs/a.jsonl", "/v/src/certs/b.jsonl", "/v/src/p/certs/q.jsonl"];
const MANIFESTS: [&str; 2] = ["/v/src/certs/manifest.json", "/v/src/p/certs/manifest.json"];

fn cache() -> BuildCache {
    BuildCache::new(PathBuf::from("/v/src"), PathBuf::from("/v/build"))
}
fn module(i: usize) -> ModuleDescriptor {
    ModuleDescriptor::name(NAMES[i])
}
fn b3(h: u8) -> blake3::Hash {
    let mut b = [7u8; 32];
    b[31] = h;
    blake3::Hash::from_bytes(b)
}
fn store(tag: u8, n: usize) -> CertificateStore {
    let one = |k: usize| Certificate { goal: String::from_utf8(vec![tag, b'0' + k as u8]).unwrap(), proof: ProofTrace { steps: vec![] } };
    CertificateStore { certs: (0..n).map(one).collect() }
}
fn layout() {
    sym::real_format();
    for d in ["/v", "/v/src", "/v/src/p"] {
        vfs::mkdir_p(d);
    }
    for f in ["/v/src/a.ac", "/v/src/b.ac", "/v/src/p/interface.ac", "/v/src/p/q.ac"] {
        vfs::put(f, b"");
    }
}
/// A build that verified the modules of a subset, each with some hash.
fn build(subset: usize, tag: u8, hashes: &[u8; 4]) -> BuildCache {
    let mut c = cache();
    for i in 0..4 {
        if subset & (1 << i) != 0 {
            c.insert(module(i), store(tag, 1), Some(b3(hashes[i])), &[]);
        }
    }
    c
}
fn hashes() -> [u8; 4] {
    [sym::u8(), sym::u8(), sym::u8(), sym::u8()]
}
type Contents = Vec<Option<Vec<u8>>>;
fn contents(paths: &[&str]) -> Contents {
    paths.iter().map(|p| vfs::get(p).map(|d| d.to_vec())).collect()
}
fn same(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) if a.len() == b.len() => {
            let mut eq = true;
            for i in 0..a.len() {
                eq &= a[i] == b[i];
            }
            eq
        }
        _ => false,
    }
}

/// Some modules were saved before; a build of some modules is now saved but interrupted by `stop`.
fn interrupted(stop: impl Fn(u32)) {
    layout();
    let subsets: &[usize] = if TH == 1 { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] } else { &[0b0001, 0b1101, 0b0110] };
    let (h0, h1) = (hashes(), hashes());
    let before = subsets[sym::choice(subsets.len())];
    let now = [0b0001, 0b1011, 0b1110, 0b0100, 0b1000][sym::choice(5)];
    let partial = sym::choice(2) == 1;
    let mut old = build(before, b'o', &h0);
    let _ = old.save_merging_old(&cache(), false);
    let (c0, m0) = (contents(&CERTS), contents(&MANIFESTS));
    let start = vfs::snapshot();
    // what a save that is not interrupted leaves
    vfs::crash_after(u32::MAX);
    let mut new = build(now, b'n', &h1);
    sym::check(new.save_merging_old(&old, partial).is_ok(), "saving fails");
    let n = vfs::effects();
    let (c1, m1) = (contents(&CERTS), contents(&MANIFESTS));
    vfs::put_back(&start);
    stop(n);
    let mut new = build(now, b'n', &h1);
    let r = new.save_merging_old(&old, partial);
    vfs::restart();
    let (c, m) = (contents(&CERTS), contents(&MANIFESTS));
    let mut whole = true;
    for i in 0..CERTS.len() {
        whole &= same(&c[i], &c0[i]) | same(&c[i], &c1[i]);
    }
    sym::check(whole, "a certificate file is neither the old nor the new one");
    let mut whole = true;
    for i in 0..MANIFESTS.len() {
        whole &= same(&m[i], &m0[i]) | same(&m[i], &m1[i]);
    }
    sym::check(whole, "a manifest is neither the old nor the new one");
    let mut all = true;
    for i in 0..CERTS.len() {
        all &= same(&c[i], &c1[i]);
    }
    let mut news = false;
    for i in 0..MANIFESTS.len() {
        news |= !same(&m[i], &m0[i]);
    }
    sym::check(!news | all, "a manifest has new records although a new certificate file is missing");
    // what is left can be loaded, and the loaded records are old or new ones
    let Ok(back) = BuildCache::load(PathBuf::from("/v/src"), PathBuf::from("/v/build")) else {
        sym::check(false, "what is left cannot be loaded");
        return;
    };
    let h = sym::u8();
    let mut ok = true;
    for i in 0..4 {
        let o = (before & (1 << i) != 0) & (h == h0[i]);
        let w = (now & (1 << i) != 0) & (h == h1[i]);
        ok &= !back.manifest_matches(&module(i), b3(h)) | o | w;
    }
    sym::check(ok, "a module counts as verified with a hash nobody recorded");
    if r.is_ok() {
        sym::reach(0);
    } else {
        sym::reach(1);
    }
}
/// The process dies after any number of effects on the file system.
#[no_mangle]
#[inline(never)]
pub fn n03_crash() {
    interrupted(|n| {
        let k = sym::u32();
        sym::assume(k <= n);
        vfs::crash_after(k);
    });
}
/// Any one effect fails, alone or with all that follow.
#[no_mangle]
#[inline(never)]
pub fn n03_fault() {
    interrupted(|n| {
        let k = sym::u32();
        sym::assume(k <= n);
        vfs::fail_at(k, sym::choice(2) == 1);
    });
}
/// One certificate file is replaced by one with any number of certificates.
#[no_mangle]
#[inline(never)]
pub fn n03_certificates() {
    layout();
    let p = Path::new("/v/src/x.jsonl");
    let exists = sym::choice(2) == 1;
    if exists {
        let _ = store(b'o', 1 + sym::choice(2)).save(p);
    }
    let c0 = contents(&["/v/src/x.jsonl"]);
    let start = vfs::snapshot();
    let new = store(b'n', sym::choice(3));
    vfs::crash_after(u32::MAX);
    sym::check(new.save(p).is_ok(), "saving fails");
    let n = vfs::effects();
    let c1 = contents(&["/v/src/x.jsonl"]);
    vfs::put_back(&start);
    let k = sym::u32();
    sym::assume(k <= n);
    let dies = sym::choice(2) == 1;
    if dies {
        vfs::crash_after(k);
    } else {
        vfs::fail_at(k, false);
    }
    let r = new.save(p);
    vfs::restart();
    let c = contents(&["/v/src/x.jsonl"]);
    sym::check(same(&c[0], &c0[0]) | same(&c[0], &c1[0]), "a certificate file is neither the old nor the new one");
    sym::check(dies | r.is_err() | same(&c[0], &c1[0]), "a failed save reports success");
    sym::reach(0);
}
/// One manifest is replaced.
#[no_mangle]
#[inline(never)]
pub fn n03_manifest() {
    layout();
    let path = "/v/src/certs/manifest.json";
    let p = Path::new(path);
    let mut old = PackageManifest::default();
    old.record_interface(b3(sym::u8()));
    if sym::choice(2) == 1 {
        let _ = old.save(p);
    }
    let c0 = contents(&[path]);
    let start = vfs::snapshot();
    let mut new = PackageManifest::default();
    new.record_implementation("a.ac".to_string(), b3(sym::u8()));
    vfs::crash_after(u32::MAX);
    sym::check(new.save(p).is_ok(), "saving fails");
    let n = vfs::effects();
    let c1 = contents(&[path]);
    vfs::put_back(&start);
    let k = sym::u32();
    sym::assume(k <= n);
    let dies = sym::choice(2) == 1;
    if dies {
        vfs::crash_after(k);
    } else {
        vfs::fail_at(k, false);
    }
    let r = new.save(p);
    vfs::restart();
    let c = contents(&[path]);
    sym::check(same(&c[0], &c0[0]) | same(&c[0], &c1[0]), "a manifest is neither the old nor the new one");
    sym::check(dies | r.is_err() | same(&c[0], &c1[0]), "a failed save reports success");
    sym::reach(0);
}
