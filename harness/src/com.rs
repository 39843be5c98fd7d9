//! Shared: hook recorder, parser construction, transaction comparison.
use crate::vp::*;
use htp::bstr::Bstr;
use htp::config::{Config, HtpServerPersonality};
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::{Header, Headers, Transaction};
pub use htp::error::Result;
use htp::HtpStatus;
use time::OffsetDateTime;

pub const E_REQ_START: u8 = 1;
pub const E_REQ_LINE: u8 = 2;
pub const E_REQ_URI: u8 = 3;
pub const E_REQ_HEADERS: u8 = 4;
pub const E_REQ_TRAILER: u8 = 5;
pub const E_REQ_COMPLETE: u8 = 6;
pub const E_RES_START: u8 = 7;
pub const E_RES_LINE: u8 = 8;
pub const E_RES_HEADERS: u8 = 9;
pub const E_RES_TRAILER: u8 = 10;
pub const E_RES_COMPLETE: u8 = 11;
pub const E_TX_COMPLETE: u8 = 12;
pub const E_REQ_BODY: u8 = 13;
pub const E_RES_BODY: u8 = 14;
pub const E_REQ_HDATA: u8 = 15;
pub const E_RES_HDATA: u8 = 16;
pub const E_REQ_TDATA: u8 = 17;
pub const E_RES_TDATA: u8 = 18;
pub const E_REQ_BODY_END: u8 = 19;
pub const E_RES_BODY_END: u8 = 20;
pub const NTX: usize = 4;

/// Everything the hooks delivered.
pub struct Rec {
    /// (event, transaction index), in order
    pub ev: Vec<(u8, u8)>,
    /// request/response progress observed at each event
    pub prog: Vec<(u8, u8)>,
    pub req_body: [Vec<u8>; NTX],
    pub res_body: [Vec<u8>; NTX],
    pub req_hdata: [Vec<u8>; NTX],
    pub res_hdata: [Vec<u8>; NTX],
    pub req_tdata: [Vec<u8>; NTX],
    pub res_tdata: [Vec<u8>; NTX],
    pub req_gap: [usize; NTX],
    pub res_gap: [usize; NTX],
}
impl Rec {
    pub const fn new() -> Rec {
        const V: Vec<u8> = Vec::new();
        Rec {
            ev: Vec::new(),
            prog: Vec::new(),
            req_body: [V; NTX],
            res_body: [V; NTX],
            req_hdata: [V; NTX],
            res_hdata: [V; NTX],
            req_tdata: [V; NTX],
            res_tdata: [V; NTX],
            req_gap: [0; NTX],
            res_gap: [0; NTX],
        }
    }
    /// Non-data events only.
    pub fn control(&self) -> Vec<(u8, u8)> {
        self.ev.iter().copied().filter(|e| e.0 <= E_TX_COMPLETE).collect()
    }
    pub fn count(&self, e: u8, tx: usize) -> usize {
        self.ev.iter().filter(|x| x.0 == e && x.1 as usize == tx).count()
    }
}
static mut REC: Rec = Rec::new();
/// Return value the next control hook gives: (event, status) -> error injection.
static mut INJECT: (u8, i8) = (0, 0);
/// How many more occurrences of the event succeed before the injected verdict.
static mut SKIP: usize = 0;
pub fn inject(ev: u8, st: i8) {
    unsafe { INJECT = (ev, st); SKIP = 0; }
}
pub fn inject_nth(ev: u8, st: i8, n: usize) {
    unsafe { INJECT = (ev, st); SKIP = n; }
}
pub fn take_rec() -> Rec {
    unsafe { std::mem::replace(&mut REC, Rec::new()) }
}
pub fn ix(tx: &Transaction) -> usize {
    if tx.index < NTX { tx.index } else { NTX - 1 }
}
pub fn ev(tx: &Transaction, e: u8) -> Result<()> {
    unsafe {
        REC.ev.push((e, tx.index as u8));
        REC.prog.push((tx.request_progress as u8, tx.response_progress as u8));
        if INJECT.0 == e && SKIP > 0 { SKIP -= 1; return Ok(()); }
        if INJECT.0 == e {
            match INJECT.1 {
                1 => return Err(HtpStatus::STOP),
                2 => return Err(HtpStatus::ERROR),
                3 => return Err(HtpStatus::DECLINED),
                _ => {}
            }
        }
    }
    Ok(())
}
macro_rules! hooks { ($($n:ident $e:ident),*) => { $(fn $n(tx: &mut Transaction) -> Result<()> { ev(tx, $e) })* } }
hooks! { k_req_start E_REQ_START, k_req_line E_REQ_LINE, k_req_headers E_REQ_HEADERS, k_req_trailer E_REQ_TRAILER,
 k_req_complete E_REQ_COMPLETE, k_res_start E_RES_START, k_res_line E_RES_LINE, k_res_headers E_RES_HEADERS, k_res_trailer E_RES_TRAILER,
 k_res_complete E_RES_COMPLETE, k_tx_complete E_TX_COMPLETE }
macro_rules! dhooks { ($($n:ident $e:ident $f:ident),*) => { $(fn $n(tx: &mut Transaction, d: &ParserData) -> Result<()> {
    unsafe { REC.$f[ix(tx)].extend_from_slice(d.as_slice()); }
    ev(tx, $e)
})* } }
dhooks! { k_req_hdata E_REQ_HDATA req_hdata, k_res_hdata E_RES_HDATA res_hdata,
 k_req_tdata E_REQ_TDATA req_tdata, k_res_tdata E_RES_TDATA res_tdata }
fn k_req_body(tx: &mut Transaction, d: &ParserData) -> Result<()> {
    unsafe {
        if d.is_gap() { REC.req_gap[ix(tx)] += d.len(); }
        REC.req_body[ix(tx)].extend_from_slice(d.as_slice());
    }
    ev(tx, if d.is_empty() { E_REQ_BODY_END } else { E_REQ_BODY })
}
fn k_res_body(tx: &mut Transaction, d: &ParserData) -> Result<()> {
    unsafe {
        if d.is_gap() { REC.res_gap[ix(tx)] += d.len(); }
        REC.res_body[ix(tx)].extend_from_slice(d.as_slice());
    }
    ev(tx, if d.is_empty() { E_RES_BODY_END } else { E_RES_BODY })
}
pub fn hook_all(c: &mut Config) {
    c.register_request_start(k_req_start);
    c.register_request_line(k_req_line);
    c.register_request_headers(k_req_headers);
    c.register_request_trailer(k_req_trailer);
    c.register_request_complete(k_req_complete);
    c.register_response_start(k_res_start);
    c.register_response_line(k_res_line);
    c.register_response_headers(k_res_headers);
    c.register_response_trailer(k_res_trailer);
    c.register_response_complete(k_res_complete);
    c.register_transaction_complete(k_tx_complete);
    c.register_request_header_data(k_req_hdata);
    c.register_response_header_data(k_res_hdata);
    c.register_request_trailer_data(k_req_tdata);
    c.register_response_trailer_data(k_res_tdata);
    c.register_request_body_data(k_req_body);
    c.register_response_body_data(k_res_body);
}
pub fn ts() -> Option<OffsetDateTime> {
    Some(OffsetDateTime::UNIX_EPOCH)
}
pub fn cfg(p: HtpServerPersonality) -> Config {
    let mut c = Config::default();
    let _ = c.set_server_personality(p);
    hook_all(&mut c);
    no_bestfit(&mut c);
    c
}
pub fn cfg0() -> Config {
    cfg(HtpServerPersonality::MINIMAL)
}
pub fn parser(c: Config) -> ConnectionParser {
    let mut p = ConnectionParser::new(c);
    p.open(None, None, None, None, ts());
    p
}
/// Deliver request data; the assertions here are those of C01 and count for no other property (check.py CONTRACT).
pub fn req(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState {
    let st = p.request_data(ParserData::from(d), ts());
    check(p.request_data_consumed() <= d.len(), "request: consumed more than supplied");
    check(st != HtpStreamState::NEW && st != HtpStreamState::OPEN, "request: state returned");
    if st == HtpStreamState::DATA {
        check(p.request_data_consumed() == d.len(), "request: DATA but chunk not consumed");
    }
    if st == HtpStreamState::DATA_OTHER {
        check(p.request_data_consumed() < d.len(), "request: DATA_OTHER but chunk consumed");
    }
    st
}
/// Deliver response data; the assertions here are those of C02 and count for no other property.
pub fn res(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState {
    let st = p.response_data(ParserData::from(d), ts());
    check(p.response_data_consumed() <= d.len(), "response: consumed more than supplied");
    check(st != HtpStreamState::NEW && st != HtpStreamState::OPEN, "response: state returned");
    if st == HtpStreamState::DATA {
        check(p.response_data_consumed() == d.len(), "response: DATA but chunk not consumed");
    }
    if st == HtpStreamState::DATA_OTHER {
        check(p.response_data_consumed() < d.len(), "response: DATA_OTHER but chunk consumed");
    }
    st
}
pub fn ob(b: &Option<Bstr>) -> Option<&[u8]> {
    b.as_ref().map(|x| x.as_slice())
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut n = 0;
    for p in parts { n += p.len(); }
    let mut v = Vec::with_capacity(n);
    for p in parts { v.extend_from_slice(p); }
    v
}
pub fn hdr<'a>(h: &'a Headers, i: usize) -> Option<&'a Header> {
    h.elements.get(i)
}
pub fn same_headers(a: &Headers, b: &Headers, l: &str) {
    check(a.elements.len() == b.elements.len(), l);
    for (x, y) in a.elements.iter().zip(b.elements.iter()) {
        check_bytes(x.name.as_slice(), y.name.as_slice(), l);
        check_bytes(x.value.as_slice(), y.value.as_slice(), l);
        check(x.flags == y.flags, l);
    }
}
pub fn obs_tx(t: &Transaction) {
    obs(t.flags);
    obs(t.request_progress as u64);
    obs(t.response_progress as u64);
    for o in [&t.request_method, &t.request_uri, &t.request_protocol, &t.response_status, &t.response_message] {
        match o { Some(b) => obs_bytes(b.as_slice()), None => obs(u64::MAX) }
    }
    for h in t.request_headers.elements.iter().chain(t.response_headers.elements.iter()) {
        obs_bytes(h.name.as_slice());
        obs_bytes(h.value.as_slice());
        obs(h.flags);
    }
    obs(t.request_message_len);
    obs(t.request_entity_len);
    obs(t.response_message_len);
    obs(t.response_entity_len);
}
/// Declares the module's harnesses: `harness! { fn name() {...} ... }`.
#[macro_export]
macro_rules! harness { ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
    $($(#[$a])* #[no_mangle] pub extern "C" fn $n() $b)*
    pub static H: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
} }
/// An empty best-fit map: %u / UTF-8 best-fit lookups give the replacement byte.
#[cfg(not(feature = "bestfit_off"))]
pub fn no_bestfit(_c: &mut Config) {}
#[cfg(feature = "bestfit_off")]
pub fn no_bestfit(c: &mut Config) {
    c.decoder_cfg.bestfit_map.map = Box::leak(Box::new(std::collections::HashMap::new()));
}
pub const PERS: [HtpServerPersonality; 8] = [
    HtpServerPersonality::MINIMAL,
    HtpServerPersonality::GENERIC,
    HtpServerPersonality::IDS,
    HtpServerPersonality::IIS_5_1,
    HtpServerPersonality::IIS_6_0,
    HtpServerPersonality::IIS_7_0,
    HtpServerPersonality::IIS_7_5,
    HtpServerPersonality::APACHE_2,
];
/// Deliver a request chunk and check the status/consumption contract of the call.
pub fn req_c(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState {
    let st = req(p, d);
    obs(st as u64);
    obs(p.request_data_consumed() as u64);
    st
}
pub fn res_c(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState {
    let st = res(p, d);
    obs(st as u64);
    obs(p.response_data_consumed() as u64);
    st
}
pub const F_MULTI: u64 = htp::util::HtpFlags::MULTI_PACKET_HEAD;
pub fn b01(a: bool) -> u32 { a as u32 }
pub fn eq_ob(a: &Option<Bstr>, b: &Option<Bstr>) -> u32 {
    match (a, b) {
        (None, None) => 1,
        (Some(x), Some(y)) => eqb(x.as_slice(), y.as_slice()),
        _ => 0,
    }
}
pub fn same_ob(a: &Option<Bstr>, b: &Option<Bstr>, l: &str) { check_u32(eq_ob(a, b), l) }
fn same_uri(a: &Option<htp::uri::Uri>, b: &Option<htp::uri::Uri>) {
    check(a.is_some() == b.is_some(), "same parsed uri presence");
    if let (Some(a), Some(b)) = (a, b) {
        same_ob(&a.scheme, &b.scheme, "same uri scheme");
        same_ob(&a.username, &b.username, "same uri username");
        same_ob(&a.password, &b.password, "same uri password");
        same_ob(&a.hostname, &b.hostname, "same uri hostname");
        same_ob(&a.port, &b.port, "same uri port");
        check(a.port_number == b.port_number, "same uri port number");
        same_ob(&a.path, &b.path, "same uri path");
        same_ob(&a.query, &b.query, "same uri query");
        same_ob(&a.fragment, &b.fragment, "same uri fragment");
    }
}
/// Everything a user sees of the request side of two transactions is equal.
pub fn same_req(a: &Transaction, b: &Transaction) {
    same_ob(&a.request_line, &b.request_line, "same request line");
    same_ob(&a.request_method, &b.request_method, "same request method");
    check(a.request_method_number == b.request_method_number, "same request method number");
    same_ob(&a.request_uri, &b.request_uri, "same request uri");
    same_ob(&a.request_protocol, &b.request_protocol, "same request protocol");
    check(a.request_protocol_number == b.request_protocol_number, "same request protocol number");
    check(a.is_protocol_0_9 == b.is_protocol_0_9, "same 0.9 verdict");
    same_uri(&a.parsed_uri, &b.parsed_uri);
    same_uri(&a.parsed_uri_raw, &b.parsed_uri_raw);
    same_ob(&a.complete_normalized_uri, &b.complete_normalized_uri, "same normalized uri");
    same_ob(&a.partial_normalized_uri, &b.partial_normalized_uri, "same partial normalized uri");
    same_headers(&a.request_headers, &b.request_headers, "same request headers");
    check(a.request_transfer_coding == b.request_transfer_coding, "same request transfer coding");
    check(a.request_content_length == b.request_content_length, "same request content length");
    same_ob(&a.request_content_type, &b.request_content_type, "same request content type");
    check(a.request_content_encoding == b.request_content_encoding, "same request content encoding");
    check(a.request_auth_type == b.request_auth_type, "same auth type");
    same_ob(&a.request_auth_username, &b.request_auth_username, "same auth username");
    same_ob(&a.request_auth_password, &b.request_auth_password, "same auth password");
    same_ob(&a.request_auth_token, &b.request_auth_token, "same auth token");
    same_ob(&a.request_hostname, &b.request_hostname, "same hostname");
    check(a.request_port_number == b.request_port_number, "same port");
    check(a.request_ignored_lines == b.request_ignored_lines, "same request ignored lines");
    check(a.request_message_len == b.request_message_len, "same request message length");
    check(a.request_entity_len == b.request_entity_len, "same request entity length");
    check(a.request_progress == b.request_progress, "same request progress");
    check(a.flags & !F_MULTI == b.flags & !F_MULTI, "same flags");
    check(a.response_status_expected_number == b.response_status_expected_number, "same expected status");
}
pub fn same_res(a: &Transaction, b: &Transaction) {
    same_ob(&a.response_line, &b.response_line, "same response line");
    same_ob(&a.response_protocol, &b.response_protocol, "same response protocol");
    check(a.response_protocol_number == b.response_protocol_number, "same response protocol number");
    same_ob(&a.response_status, &b.response_status, "same response status");
    check(a.response_status_number == b.response_status_number, "same response status number");
    same_ob(&a.response_message, &b.response_message, "same response message");
    check(a.seen_100continue == b.seen_100continue, "same 100-continue");
    check(a.is_http_2_upgrade == b.is_http_2_upgrade, "same h2 upgrade");
    same_headers(&a.response_headers, &b.response_headers, "same response headers");
    check(a.response_transfer_coding == b.response_transfer_coding, "same response transfer coding");
    check(a.response_content_length == b.response_content_length, "same response content length");
    same_ob(&a.response_content_type, &b.response_content_type, "same response content type");
    check(a.response_content_encoding == b.response_content_encoding, "same response content encoding");
    check(a.response_content_encoding_processing == b.response_content_encoding_processing, "same response encoding processing");
    check(a.response_ignored_lines == b.response_ignored_lines, "same response ignored lines");
    check(a.response_message_len == b.response_message_len, "same response message length");
    check(a.response_entity_len == b.response_entity_len, "same response entity length");
    check(a.response_progress == b.response_progress, "same response progress");
    check(a.flags & !F_MULTI == b.flags & !F_MULTI, "same flags");
}
/// Same control events in the same order, same delivered bytes.
pub fn same_rec(a: &Rec, b: &Rec) {
    let (x, y) = (a.control(), b.control());
    check(x == y, "same hook sequence");
    for i in 0..NTX {
        check_bytes(&a.req_body[i], &b.req_body[i], "same request body");
        check_bytes(&a.res_body[i], &b.res_body[i], "same response body");
        check_bytes(&a.req_hdata[i], &b.req_hdata[i], "same request header data");
        check_bytes(&a.res_hdata[i], &b.res_hdata[i], "same response header data");
        check_bytes(&a.req_tdata[i], &b.req_tdata[i], "same request trailer data");
        check_bytes(&a.res_tdata[i], &b.res_tdata[i], "same response trailer data");
    }
}
pub fn rec_mut() -> &'static mut Rec {
    unsafe { &mut *std::ptr::addr_of_mut!(REC) }
}
pub fn take_peek() -> &'static Rec {
    unsafe { &REC }
}

static mut PARAMS: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
/// A parameter processor that records.
pub fn k_param(p: &mut htp::transaction::Param) -> Result<()> {
    unsafe { PARAMS.push((p.name.as_slice().to_vec(), p.value.as_slice().to_vec())); }
    Ok(())
}
pub fn take_params() -> Vec<(Vec<u8>, Vec<u8>)> { unsafe { std::mem::replace(&mut PARAMS, Vec::new()) } }
