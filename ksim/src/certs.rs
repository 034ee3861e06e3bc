//! Makes the simulated servers' keys and certificates (once; they are committed).
use openssl::{asn1::*, bn::*, hash::*, nid::Nid, pkey::*, rsa::*, x509::{*, extension::*}};

fn key() -> PKey<Private> { PKey::from_rsa(Rsa::generate(2048).unwrap()).unwrap() }
fn cert(name: &str, k: &PKey<Private>, ca: Option<(&X509, &PKey<Private>)>, is_ca: bool, sans: &[&str], from: &str, to: &str, serial: u32) -> X509 {
    let mut n = X509Name::builder().unwrap();
    n.append_entry_by_nid(Nid::COMMONNAME, name).unwrap();
    let n = n.build();
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    b.set_subject_name(&n).unwrap();
    b.set_issuer_name(ca.map_or(&n, |c| c.0.subject_name())).unwrap();
    b.set_pubkey(k).unwrap();
    b.set_serial_number(&BigNum::from_u32(serial).unwrap().to_asn1_integer().unwrap()).unwrap();
    b.set_not_before(&Asn1Time::from_str(from).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_str(to).unwrap()).unwrap();
    if is_ca { b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap(); b.append_extension(KeyUsage::new().critical().key_cert_sign().crl_sign().build().unwrap()).unwrap(); }
    if !sans.is_empty() {
        let mut s = SubjectAlternativeName::new();
        for x in sans { if x.starts_with(|c: char| c.is_ascii_digit()) { s.ip(x); } else { s.dns(x); } }
        let e = s.build(&b.x509v3_context(ca.map(|c| &**c.0), None)).unwrap();
        b.append_extension(e).unwrap();
    }
    b.sign(ca.map_or(k, |c| c.1), MessageDigest::sha256()).unwrap();
    b.build()
}
pub fn make(dir: &str) {
    let (a, z) = ("20000101000000Z", "21000101000000Z");
    let save = |n: &str, c: &X509, k: &PKey<Private>| { std::fs::write(format!("{}/{}.pem", dir, n), c.to_pem().unwrap()).unwrap(); std::fs::write(format!("{}/{}.key", dir, n), k.private_key_to_pem_pkcs8().unwrap()).unwrap(); };
    std::fs::create_dir_all(dir).unwrap();
    let ck = key();
    let ca = cert("simulated authority", &ck, None, true, &[], a, z, 1);
    std::fs::write(format!("{}/ca.pem", dir), ca.to_pem().unwrap()).unwrap();
    let ok = key();
    let other = cert("another authority", &ok, None, true, &[], a, z, 2);
    let good = ["agents.example", "localhost", "10.0.0.1", "127.0.0.1"];
    let k = key();
    save("server", &cert("agents.example", &k, Some((&ca, &ck)), false, &good, a, z, 3), &k);
    save("wrong", &cert("agents.example", &k, Some((&ca, &ck)), false, &["other.example", "agents.example.org", "10.0.0.2"], a, z, 4), &k);
    save("untrusted", &cert("agents.example", &k, Some((&other, &ok)), false, &good, a, z, 5), &k);
    save("expired", &cert("agents.example", &k, Some((&ca, &ck)), false, &good, a, "20200101000000Z", 6), &k);
    save("future", &cert("agents.example", &k, Some((&ca, &ck)), false, &good, "20600101000000Z", z, 7), &k);
    save("selfsigned", &cert("agents.example", &k, None, false, &good, a, z, 8), &k);
}
