//! Keys on disk.

use std::{collections::BTreeMap, fs, path::Path};
use tn_config::KeyConfig;
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

fn passphrase(g: &mut G) -> String {
    match g.below(4) {
        0 => crate::files::awkward(g).replace('\0', "0"),
        1 => String::new(),
        2 => "x".repeat(g.urange(60, 70)),
        _ => (0..g.urange(1, 20)).map(|_| (b'!' + g.below(90) as u8) as char).collect(),
    }
}

fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fs::read_dir(d).map(|r| r.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default())).collect()).unwrap_or_default()
}

fn same(a: &KeyConfig, b: &KeyConfig) -> bool {
    a.primary_public_key() == b.primary_public_key()
        && a.primary_network_public_key() == b.primary_network_public_key()
        && a.worker_network_public_key() == b.worker_network_public_key()
}

fn usable(k: &KeyConfig, g: &mut G) -> R {
    let m = g.bytes(20);
    let s = k.request_signature_direct(&m);
    ensure!(s.verify_raw(&m, &k.primary_public_key()), "what the key signs verifies under it");
    let a = address(g);
    let p = k.generate_proof_of_possession_bls(&a).map_err(|e| e.to_string())?;
    ensure!(verify_proof_of_possession_bls(&p, &k.primary_public_key(), &a).is_ok(), "proof of possession");
    ensure!(k.primary_network_public_key() != k.worker_network_public_key(), "one network key for both");
    Ok(())
}

/// Written and read back, with the right passphrase or another.
fn wrapped(g: &mut G) -> R {
    let s = Scratch::new();
    let dir = s.sub("n");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    ensure!(!KeyConfig::keys_exist(&dir));
    ensure!(KeyConfig::read_config(&dir, None).is_err() && KeyConfig::read_config(&dir, Some("x".into())).is_err(), "keys read from nowhere");
    let pass = g.chance(4, 5).then(|| passphrase(g));
    ensure!(KeyConfig::generate_and_save_insecure(&dir, pass.clone(), 0).is_err(), "a key without any key derivation");
    let k = KeyConfig::generate_and_save_insecure(&dir, pass.clone(), 1).map_err(|e| e.to_string())?;
    ensure!(KeyConfig::keys_exist(&dir));
    usable(&k, g)?;
    let files = dir.join("node-keys");
    let r = KeyConfig::read_config(&dir, pass.clone()).map_err(|e| format!("keys cannot be read back: {e}"))?;
    ensure!(same(&k, &r), "other keys are read back");
    usable(&r, g)?;
    g.nontrivial();
    let Some(pass) = pass else {
        g.class("plain");
        ensure!(files.join("bls.key").exists() && !files.join("bls.kw").exists());
        let text = fs::read_to_string(files.join("bls.key")).map_err(|e| e.to_string())?;
        // an unencrypted key needs no passphrase; white space around it is no part of it
        ensure!(same(&k, &KeyConfig::read_config(&dir, Some("whatever".into())).map_err(|e| e.to_string())?));
        fs::write(files.join("bls.key"), format!("\n {text}\n")).map_err(|e| e.to_string())?;
        ensure!(same(&k, &KeyConfig::read_config(&dir, None).map_err(|e| e.to_string())?));
        fs::write(files.join("bls.key"), &text[..g.usize(text.len() - 1)]).map_err(|e| e.to_string())?;
        ensure!(KeyConfig::read_config(&dir, None).is_err(), "a key cut short is read");
        return Ok(());
    };
    g.class("with passphrase");
    ensure!(files.join("bls.kw").exists() && !files.join("bls.key").exists(), "a key with a passphrase is written in clear");
    // nothing on disk contains the key itself: without the passphrase it is not readable
    ensure!(KeyConfig::read_config(&dir, None).is_err(), "an encrypted key is read without a passphrase");
    let text = fs::read(files.join("bls.kw")).map_err(|e| e.to_string())?;
    match g.below(5) {
        0 => {
            // a plain file next to it is what is read without a passphrase
            let other = Scratch::new();
            let o = other.sub("o");
            fs::create_dir_all(&o).map_err(|e| e.to_string())?;
            let ok = KeyConfig::generate_and_save_insecure(&o, None, 1).map_err(|e| e.to_string())?;
            fs::copy(o.join("node-keys/bls.key"), files.join("bls.key")).map_err(|e| e.to_string())?;
            ensure!(same(&ok, &KeyConfig::read_config(&dir, None).map_err(|e| e.to_string())?));
            ensure!(same(&k, &KeyConfig::read_config(&dir, Some(pass)).map_err(|e| e.to_string())?), "with the passphrase, the encrypted key is read");
        }
        1 | 2 => {
            let mut other = passphrase(g);
            if g.bool() {
                other = match g.below(4) {
                    0 => format!("{pass} "),
                    1 => pass.to_uppercase(),
                    2 => pass.chars().rev().collect(),
                    _ => pass.chars().skip(1).collect(),
                };
            }
            let before = snapshot(&files);
            let r = KeyConfig::read_config(&dir, Some(other.clone()));
            ensure_eq!(r.is_ok(), other == pass, "passphrase {other:?} for {pass:?}");
            ensure_eq!(snapshot(&files), before, "a failed attempt changes the files");
        }
        _ => {
            // damaged
            let mut raw = bs58::decode(&text).into_vec().map_err(|e| e.to_string())?;
            ensure!(raw.len() > 24 + 32, "too short for salt, nonce, key and tag");
            let before = raw.clone();
            match g.below(4) {
                0 => raw.truncate(g.usize(raw.len())),
                1 => raw.push(g.u8()),
                2 => {
                    let i = g.usize(raw.len());
                    raw[i] ^= 1 << g.below(8);
                }
                _ => {
                    let (i, j) = (g.usize(raw.len()), g.usize(raw.len()));
                    raw.swap(i, j);
                }
            }
            fs::write(files.join("bls.kw"), bs58::encode(&raw).into_string()).map_err(|e| e.to_string())?;
            let r = KeyConfig::read_config(&dir, Some(pass));
            ensure_eq!(r.is_ok(), raw == before, "a damaged key file is read");
        }
    }
    Ok(())
}

/// The network keys follow from the key and the stored seeds.
fn network_keys(g: &mut G) -> R {
    let k = &keys()[g.usize(KEYS)];
    let derive = |seed: &str| {
        let h = blake3::hash(&k.request_signature_direct(seed.as_bytes()).to_bytes());
        NetworkPublicKey::from(NetworkKeypair::ed25519_from_bytes(h.as_bytes()[..32].to_vec()).expect("key").public())
    };
    let t = KeyConfig::new_with_testing_key(k.0.copy());
    ensure_eq!(t.primary_public_key(), k.pk());
    ensure_eq!(t.public_key(), k.pk());
    ensure_eq!(t.primary_network_public_key(), derive("primary network keypair"), "network key of the primary");
    ensure_eq!(t.worker_network_public_key(), derive("worker network keypair"), "network key of the worker");
    let s = Scratch::new();
    let dir = s.sub("n");
    let files = dir.join("node-keys");
    fs::create_dir_all(&files).map_err(|e| e.to_string())?;
    fs::write(files.join("bls.key"), bs58::encode(k.0.to_bytes()).into_string()).map_err(|e| e.to_string())?;
    let (a, b) = (g.bool().then(|| crate::files::awkward(g)), g.bool().then(|| crate::files::awkward(g)));
    for (f, v) in [("primary.seed", &a), ("worker.seed", &b)] {
        if let Some(v) = v {
            fs::write(files.join(f), v).map_err(|e| e.to_string())?;
        }
    }
    let r = KeyConfig::read_config(&dir, None).map_err(|e| e.to_string())?;
    ensure_eq!(r.primary_public_key(), k.pk());
    ensure_eq!(r.primary_network_public_key(), derive(a.as_deref().unwrap_or("primary network keypair")), "primary seed {a:?}");
    ensure_eq!(r.worker_network_public_key(), derive(b.as_deref().unwrap_or("worker network keypair")), "worker seed {b:?}");
    g.nontrivial_if(a.is_some() || b.is_some());
    Ok(())
}

/// The full work factor.
fn full_strength(g: &mut G) -> R {
    let s = Scratch::new();
    let dir = s.sub("n");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let pass = format!("p{}", passphrase(g));
    let k = KeyConfig::generate_and_save(&dir, Some(pass.clone())).map_err(|e| e.to_string())?;
    let text = fs::read(dir.join("node-keys/bls.kw")).map_err(|e| e.to_string())?;
    ensure!(same(&k, &KeyConfig::read_config(&dir, Some(pass.clone())).map_err(|e| e.to_string())?));
    ensure!(KeyConfig::read_config(&dir, Some(format!("{pass}!"))).is_err());
    ensure!(bs58::decode(&text).into_vec().is_ok());
    g.nontrivial();
    Ok(())
}

pub fn check(c: &mut Check) {
    // every key written here is announced as weak on stderr
    let quiet = unsafe {
        let (old, null) = (libc::dup(2), libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY));
        libc::dup2(null, 2);
        libc::close(null);
        old
    };
    c.sub("key-files", Budget::new(3_000, 25), wrapped);
    c.sub("network-keys", Budget::new(3_000, 5), network_keys);
    c.sub("full-strength", Budget::new(8, 15), full_strength);
    unsafe {
        libc::dup2(quiet, 2);
        libc::close(quiet);
    }
}
