#![allow(dead_code)]
use anyhow::Result;
use async_trait::async_trait;
use bytes::Bytes;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::*;
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
use serde_json::{json, Value};
use std::io::Cursor;
use std::sync::{Arc, Mutex};

pub fn header() -> Value {
    json!({"type":"CityJSON","version":"2.0","CityObjects":{},"vertices":[],
      "transform":{"scale":[0.5,0.5,0.5],"translate":[10.0,20.0,0.0]}})
}
/// one cube-ish feature (a MultiSurface with one square) at integer position x,y with side s
pub fn square(id: &str, x: i64, y: i64, s: i64, attrs: Value) -> Value {
    json!({"type":"CityJSONFeature","id":id,
      "CityObjects":{id:{"type":"Building","attributes":attrs,
        "geometry":[{"type":"MultiSurface","lod":"1","boundaries":[[[0,1,2,3]]]}]}},
      "vertices":[[x,y,0],[x+s,y,0],[x+s,y+s,0],[x,y+s,0]]})
}
pub fn cj(v: &Value) -> CityJSON { CityJSON::from_str(&v.to_string()).unwrap() }
pub fn feats(v: &[Value]) -> Vec<CityJSONFeature> {
    v.iter().map(|f| CityJSONFeature::from_str(&f.to_string()).unwrap()).collect()
}
pub struct Opt { pub index: bool, pub node: u16, pub attrs: Vec<(&'static str, Option<u16>)> }
impl Default for Opt { fn default() -> Self { Opt { index: true, node: 16, attrs: vec![] } } }
pub fn try_write(h: &Value, fs: &[Value], o: &Opt) -> Result<Vec<u8>> {
    let fs = feats(fs);
    let mut schema = AttributeSchema::new();
    for f in &fs { for co in f.city_objects.values() { if let Some(a) = &co.attributes { schema.add_attributes(a); } } }
    let mut w = FcbWriter::new(cj(h), Some(HeaderWriterOptions {
        write_index: o.index, feature_count: fs.len() as u64, index_node_size: o.node,
        attribute_indices: if o.attrs.is_empty() { None } else { Some(o.attrs.iter().map(|(n, b)| (n.to_string(), *b)).collect()) },
        geographical_extent: None }), Some(schema), None)?;
    for f in &fs { w.add_feature(f)?; }
    let mut buf = Vec::new();
    w.write(&mut buf)?;
    Ok(buf)
}
pub fn write(h: &Value, fs: &[Value], o: &Opt) -> Vec<u8> { try_write(h, fs, o).unwrap() }

macro_rules! drain { ($it:expr) => {{ let mut it = $it; let mut out = vec![];
    while let Some(f) = it.next()? { out.push(f.cur_cj_feature()?); } Ok(out) }} }
pub fn all(b: &[u8]) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_all()?) }
pub fn all_seq(b: &[u8]) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_all_seq()?) }
pub fn bbox(b: &[u8], q: [f64; 4]) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_query(SpatialQuery::BBox(q[0], q[1], q[2], q[3]))?) }
pub fn bbox_seq(b: &[u8], q: [f64; 4]) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_query_seq(SpatialQuery::BBox(q[0], q[1], q[2], q[3]))?) }
pub fn attr(b: &[u8], q: AttrQuery) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_attr_query(q)?) }
pub fn attr_seq(b: &[u8], q: AttrQuery) -> Result<Vec<CityJSONFeature>> { drain!(FcbReader::open(Cursor::new(b.to_vec()))?.select_attr_query_seq(q)?) }

/// serves byte ranges of a buffer; past its end it answers with an error like a 416
#[derive(Clone)]
pub struct Mem { pub data: Arc<Vec<u8>>, pub log: Arc<Mutex<Vec<(u64, u64)>>> }
#[async_trait]
impl AsyncHttpRangeClient for Mem {
    async fn get_range(&self, _u: &str, r: &str) -> http_range_client::Result<Bytes> {
        let (a, z) = r.strip_prefix("bytes=").unwrap().split_once('-').unwrap();
        let (a, z): (u64, u64) = (a.parse().unwrap(), z.parse().unwrap());
        self.log.lock().unwrap().push((a, z));
        let n = self.data.len() as u64;
        if a >= n { return Err(http_range_client::HttpError::HttpError(format!("416 {r} of {n}"))); }
        Ok(Bytes::copy_from_slice(&self.data[a as usize..(z + 1).min(n) as usize]))
    }
    async fn head_response_header(&self, _u: &str, _h: &str) -> http_range_client::Result<Option<String>> { Ok(None) }
}
pub fn rt<F: std::future::Future>(f: F) -> F::Output { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f) }
pub async fn http(b: &[u8]) -> Result<HttpFcbReader<Mem>> {
    let m = Mem { data: Arc::new(b.to_vec()), log: Default::default() };
    Ok(HttpFcbReader::new(AsyncBufferedHttpRangeClient::with(m, "mem")).await?)
}
macro_rules! adrain { ($it:expr) => {{ let mut it = $it; let mut out = vec![];
    while let Some(_) = it.next().await? { out.push(it.cur_cj_feature()?); } Ok(out) }} }
pub fn http_all(b: &[u8]) -> Result<Vec<CityJSONFeature>> { rt(async { adrain!(http(b).await?.select_all().await?) }) }
pub fn http_bbox(b: &[u8], q: [f64; 4]) -> Result<Vec<CityJSONFeature>> { rt(async { adrain!(http(b).await?.select_query(SpatialQuery::BBox(q[0], q[1], q[2], q[3])).await?) }) }
pub fn http_attr(b: &[u8], q: AttrQuery) -> Result<Vec<CityJSONFeature>> { rt(async { adrain!(http(b).await?.select_attr_query(&q).await?) }) }
pub fn ids(v: &[CityJSONFeature]) -> Vec<String> { let mut r: Vec<String> = v.iter().map(|f| f.id.clone()).collect(); r.sort(); r }
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("DEMO FAILED: {what}"); std::process::exit(1); } }
