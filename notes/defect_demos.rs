use super::fixtures::*;
use crate::{builder::UcanBuilder, capability::*, chain::*, crypto::{did::*, KeyMaterial}, store::*, time::now, ucan::*, ipld::*};
use serde_json::json;
use std::str::FromStr;
use base64::Engine;
fn b(s:&[u8])->String{ base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(s)}

#[tokio::test]
async fn d01_map_while() {
    let id = Identities::new().await; let mut p = DidParser::new(SUPPORTED_KEYS);
    let u = UcanBuilder::default().issued_by(&id.alice_key).for_audience(&id.bob_did).with_lifetime(60)
      .claiming_capability(Capability::from(("aaa:x","foo/bar",&json!({}))))
      .claiming_capability(Capability::from(("mailto:alice@email.com","email/send",&json!({})))).build().unwrap().sign().await.unwrap();
    let c = ProofChain::from_ucan(u,None,&mut p,&MemoryStore::default()).await.unwrap();
    assert_eq!(c.reduce_capabilities(&EmailSemantics{}).len(),1);
}
#[tokio::test]
async fn d02_merge() {
    let id = Identities::new().await; let mut p = DidParser::new(SUPPORTED_KEYS); let mut s=MemoryStore::default();
    let proof = UcanBuilder::default().issued_by(&id.alice_key).for_audience(&id.mallory_did).with_lifetime(60)
      .claiming_capability(Capability::from(("wnfs://a/public/photos","wnfs/create",&json!({})))).build().unwrap().sign().await.unwrap();
    s.write_token(&proof.encode().unwrap()).await.unwrap();
    let u = UcanBuilder::default().issued_by(&id.mallory_key).for_audience(&id.bob_did).with_lifetime(50).witnessed_by(&proof,None)
      .claiming_capability(Capability::from(("wnfs://a/public","wnfs/super_user",&json!({}))))
      .claiming_capability(Capability::from(("wnfs://a/public/photos","wnfs/create",&json!({})))).build().unwrap().sign().await.unwrap();
    let c = ProofChain::from_ucan(u,None,&mut p,&s).await.unwrap();
    let i = c.reduce_capabilities(&WNFSSemantics{}); println!("{:#?} alice {}", i, id.alice_did);
    for x in i { if x.capability.ability.to_string()=="wnfs/super_user" { assert!(!x.originators.contains(&id.alice_did)); } }
}
#[tokio::test]
async fn d03_prfstar() {
    let id = Identities::new().await; let mut p = DidParser::new(SUPPORTED_KEYS); let mut s=MemoryStore::default();
    let proof = UcanBuilder::default().issued_by(&id.alice_key).for_audience(&id.mallory_did).with_lifetime(60)
      .claiming_capability(Capability::from(("wnfs://a/public/photos","wnfs/create",&json!({})))).build().unwrap().sign().await.unwrap();
    s.write_token(&proof.encode().unwrap()).await.unwrap();
    for r in ["prf:0","prf:*"] {
    let u = UcanBuilder::default().issued_by(&id.mallory_key).for_audience(&id.bob_did).with_lifetime(50).witnessed_by(&proof,None)
      .claiming_capability(Capability::from((r,"ucan/DELEGATE",&json!({})))).build().unwrap().sign().await.unwrap();
    let c = ProofChain::from_ucan(u,None,&mut p,&s).await.unwrap();
    let i = c.reduce_capabilities(&WNFSSemantics{}); println!("{r} {:#?}", i);
    assert_eq!(i.len(),1, "{r}"); }
}
#[test]
fn d04_as() {
    for r in ["as:did:key:zAbc:mailto:alice@e.com","my:*","my:mailto:a@b.c","as:did:key:zAbc:*", "*", "mailto:*"] {
    let x=EmailSemantics{}.parse(r,"email/send",None).map(|c|c.resource.to_string()); println!("{r} => {:?}",x);}
    assert!(EmailSemantics{}.parse("as:did:key:zAbc:mailto:alice@e.com","email/send",None).is_some());
}
#[test] fn d05_did() { let mut p = DidParser::new(SUPPORTED_KEYS); assert!(p.parse("did:key:z").is_err()); }
#[test] fn d06_principle() { println!("{}", Principle::from_str("did:key:z").map(|x|x.to_string()).unwrap_or("err".into())); }
#[test] fn d06b_principle() { let amb=format!("did:key:z{}", bs58::encode([&[0x9d,0x1a][..],b"web:example.com"].concat()).into_string());
  if let Ok(p)=Principle::from_str(&amb) {assert_eq!(p.to_string(), amb)}; }
#[test] fn d06c_principle() { let p:Principle = serde_ipld_dagcbor::from_slice(&serde_ipld_dagcbor::to_vec(&vec![0x9du8,0x1a,0xff]).unwrap()).unwrap(); p.to_string(); }
#[test] fn d07_sig() { assert!(Signature(vec![0xed,0xa1,0x03,0x40,1,2]).decode().is_err()); }
#[tokio::test] async fn d08_sign() { let id = Identities::new().await;
  assert!(UcanBuilder::default().issued_by(&id.alice_key).for_audience("x").claiming_capability(Capability::from(("a:b","c/d",&json!(1)))).build().unwrap().sign().await.is_err()); }
#[tokio::test] async fn d09_life() { let id = Identities::new().await;
  let u=UcanBuilder::default().issued_by(&id.alice_key).for_audience("x").with_lifetime(u64::MAX).build().unwrap().sign().await.unwrap(); assert!(!u.is_expired(None)); }
async fn tok(payload:&str)->String{ let id = Identities::new().await; let d=format!("{}.{}",b(br#"{"alg":"EdDSA","typ":"JWT"}"#),b(payload.replace("ALICE",&id.alice_did).as_bytes()));
  let s=KeyMaterial::sign(&id.alice_key,d.as_bytes()).await.unwrap(); format!("{d}.{}",b(&s)) }
#[tokio::test] async fn d10_noncanon() { let mut p = DidParser::new(SUPPORTED_KEYS);
  let t=tok(r#"{"ucv":"0.10.0-canary", "iss":"ALICE","aud":"did:key:zB","exp":null,"cap":{}}"#).await;
  let u=Ucan::try_from(t.as_str()).unwrap(); u.validate(None,&mut p).await.unwrap();
  let v=Ucan::try_from(u.encode().unwrap()).unwrap(); v.validate(None,&mut p).await.unwrap(); }
#[tokio::test] async fn d11_four() { let t=tok(r#"{"ucv":"0.10.0-canary","iss":"ALICE","aud":"did:key:zB","exp":null,"cap":{}}"#).await; assert!(Ucan::try_from(format!("{t}.abcd")).is_err()); }
#[tokio::test] async fn d12_caps() { 
  let t=tok(r#"{"ucv":"0.10.0-canary","iss":"ALICE","aud":"did:key:zB","exp":null,"cap":{"mailto:a":{}}}"#).await; assert!(Ucan::try_from(t).is_err());
  let t=tok(r#"{"ucv":"0.10.0-canary","iss":"ALICE","aud":"did:key:zB","exp":null,"cap":{"mailto:a":{"email/send":[1]}}}"#).await; assert!(Ucan::try_from(t).is_err()); }
#[tokio::test] async fn d13_ipld() { let mut p = DidParser::new(SUPPORTED_KEYS); let id = Identities::new().await;
  let t=tok(&format!(r#"{{"aud":"{}","cap":{{}},"exp":null,"iss":"ALICE","ucv":"0.9.1"}}"#,id.bob_did)).await; let u=Ucan::try_from(t.as_str()).unwrap(); assert_eq!(u.encode().unwrap(),t); u.validate(None,&mut p).await.unwrap();
  let v=Ucan::try_from(&UcanIpld::try_from(&u).unwrap()).unwrap(); assert_eq!(v.version(),"0.9.1"); v.validate(None,&mut p).await.unwrap(); }
#[tokio::test] async fn d14_nbf() { let mut p = DidParser::new(SUPPORTED_KEYS); let id = Identities::new().await;
  let u=UcanBuilder::default().issued_by(&id.alice_key).for_audience("x").not_before(now()-10).build().unwrap().sign().await.unwrap(); assert!(u.validate(Some(now()-100),&mut p).await.is_err());
  let u=UcanBuilder::default().issued_by(&id.alice_key).for_audience("x").not_before(now()+10).build().unwrap().sign().await.unwrap(); assert!(u.validate(Some(now()+100),&mut p).await.is_ok()); }
#[tokio::test] async fn d15_deser() { let mut p = DidParser::new(SUPPORTED_KEYS); let id = Identities::new().await;
  let u=UcanBuilder::default().issued_by(&id.alice_key).for_audience("x").build().unwrap().sign().await.unwrap();
  let mut j=serde_json::to_value(&u).unwrap(); j["payload"]["aud"]=json!(id.mallory_did); let f:Ucan=serde_json::from_value(j).unwrap(); assert!(f.validate(None,&mut p).await.is_err()); }
#[tokio::test] async fn d16_alg() { let mut p = DidParser::new(SUPPORTED_KEYS); let id = Identities::new().await;
  let d=format!("{}.{}",b(br#"{"alg":"none","typ":"JWT"}"#),b(format!(r#"{{"aud":"x","cap":{{}},"exp":null,"iss":"{}","ucv":"0.9.1"}}"#,id.alice_did).as_bytes()));
  let s=KeyMaterial::sign(&id.alice_key,d.as_bytes()).await.unwrap(); let t=format!("{d}.{}",b(&s)); assert!(Ucan::try_from(t).unwrap().validate(None,&mut p).await.is_err()); }
#[test] fn d17_trailing() {
  let h = b(br#"{"alg":"EdDSA","typ":"JWT"}"#); let p = r#"{"ucv":"0.10.0-canary","iss":"a","aud":"b","exp":null,"cap":{}}"#;
  assert!(Ucan::from_str(&format!("{h}.{}.{}", b(p.as_bytes()), b(b"x"))).is_ok());
  assert!(Ucan::from_str(&format!("{h}.{}.{}", b(format!("{p}  ").as_bytes()), b(b"x"))).is_ok());
  assert!(Ucan::from_str(&format!("{h}.{}.{}", b(format!("{p},\"exp\":1}}garbage").as_bytes()), b(b"x"))).is_err()); }
// d18 (C32, 7f1a46f, 53b23a4): web_crypto.rs is compiled for wasm32 only, so its SPKI conversion was copied into a
// host program. A 1024-bit key's SPKI (22 byte header) gave bytes that Rs256 `from_pkcs1_der` refuses before the repair
// and the key after it; the input b"short" panicked before it (slice past the end) and is an error after it.
// d19 (C38, C18, C26): bytes_to_rsa_key printed "Trying to parse RSA key..." to standard output. Any program that resolves
// an RSA did:key with `> /dev/full` panicked in it ("failed printing to stdout") before the repair, and does not after it.
