//! C26: the C API does exactly what the Rust API does, and survives NULL.
use crate::{com::*, vp::*};
use htp::bstr::Bstr;
use htp::c_api::{bstr::*, config::*, connection::*, connection_parser::*, header::*, log::*, transaction::*, uri::*};
use htp::config::{Config, HtpServerPersonality, HtpUrlEncodingHandling};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::decompressors::HtpContentEncoding;
use htp::log::{HtpLogCode, Log};
use htp::request::HtpMethod;
use htp::transaction::*;
use htp::HtpStatus;
use std::ptr::{null, null_mut};
use time::{Duration, OffsetDateTime};
#[repr(C)]
struct Tv { sec: i64, usec: i64 }
const T0: Tv = Tv { sec: 0, usec: 0 };
fn st(r: Result<()>) -> HtpStatus {
    match r { Ok(()) => HtpStatus::OK, Err(e) => e }
}
/// The pointers given to a callback are those of the parser and of one of its transactions.
unsafe fn right(connp: *const ConnectionParser, tx: *const Transaction) {
    check(!connp.is_null() && !tx.is_null(), "callback gets the parser and the transaction");
    check((*connp).tx((*tx).index).map(|t| t as *const Transaction) == Some(tx), "callback gets a transaction of that parser");
}
macro_rules! ext { ($($n:ident $e:ident),*) => { $(unsafe extern "C" fn $n(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus { right(c, tx); st(ev(&*tx, $e)) })* } }
ext! { x_req_start E_REQ_START, x_req_line E_REQ_LINE, x_req_headers E_REQ_HEADERS, x_req_trailer E_REQ_TRAILER,
 x_req_complete E_REQ_COMPLETE, x_res_start E_RES_START, x_res_headers E_RES_HEADERS, x_res_trailer E_RES_TRAILER,
 x_res_complete E_RES_COMPLETE, x_tx_complete E_TX_COMPLETE }
unsafe fn bytes(d: *const Data) -> &'static [u8] {
    let (p, n) = (htp_tx_data_data(d), htp_tx_data_len(d));
    check(htp_tx_data_is_empty(d) == (n == 0), "data emptiness");
    if p.is_null() { &[] } else { std::slice::from_raw_parts(p, n as usize) }
}
macro_rules! dext { ($($n:ident $e:ident $f:ident),*) => { $(unsafe extern "C" fn $n(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
    let tx = htp_tx_data_tx(d);
    right(c, tx);
    rec_mut().$f[ix(&*tx)].extend_from_slice(bytes(d));
    st(ev(&*tx, $e))
})* } }
dext! { x_req_hdata E_REQ_HDATA req_hdata, x_res_hdata E_RES_HDATA res_hdata, x_req_tdata E_REQ_TDATA req_tdata, x_res_tdata E_RES_TDATA res_tdata }
macro_rules! bext { ($($n:ident $e:ident $ee:ident $f:ident $g:ident),*) => { $(unsafe extern "C" fn $n(c: *const ConnectionParser, d: *mut Data) -> HtpStatus {
    let tx = htp_tx_data_tx(d);
    right(c, tx);
    let b = bytes(d);
    let n = htp_tx_data_len(d) as usize;
    if htp_tx_data_data(d).is_null() { rec_mut().$g[ix(&*tx)] += n; }
    rec_mut().$f[ix(&*tx)].extend_from_slice(b);
    st(ev(&*tx, if n == 0 { $ee } else { $e }))
})* } }
bext! { x_req_body E_REQ_BODY E_REQ_BODY_END req_body req_gap, x_res_body E_RES_BODY E_RES_BODY_END res_body res_gap }
static mut LOGS: usize = 0;
unsafe extern "C" fn x_log(l: *mut Log) -> HtpStatus {
    check(!l.is_null(), "log callback gets the entry");
    LOGS += 1;
    HtpStatus::OK
}
/// A configuration made through the C API, C callbacks everywhere. The response line has no C registration.
unsafe fn ccfg() -> *mut Config {
    let c = htp_config_create();
    check(htp_config_set_server_personality(c, HtpServerPersonality::MINIMAL) == HtpStatus::OK, "personality set");
    htp_config_register_request_start(c, x_req_start);
    htp_config_register_request_line(c, x_req_line);
    htp_config_register_request_headers(c, x_req_headers);
    htp_config_register_request_trailer(c, x_req_trailer);
    htp_config_register_request_complete(c, x_req_complete);
    htp_config_register_response_start(c, x_res_start);
    htp_config_register_response_headers(c, x_res_headers);
    htp_config_register_response_trailer(c, x_res_trailer);
    htp_config_register_response_complete(c, x_res_complete);
    htp_config_register_transaction_complete(c, x_tx_complete);
    htp_config_register_request_header_data(c, x_req_hdata);
    htp_config_register_response_header_data(c, x_res_hdata);
    htp_config_register_request_trailer_data(c, x_req_tdata);
    htp_config_register_response_trailer_data(c, x_res_tdata);
    htp_config_register_request_body_data(c, x_req_body);
    htp_config_register_response_body_data(c, x_res_body);
    no_bestfit(&mut *c);
    c
}
unsafe fn cparser(c: *mut Config) -> *mut ConnectionParser {
    let p = htp_connp_create(c);
    htp_config_destroy(c);
    htp_connp_open(p, null(), -1, null(), -1, &T0 as *const Tv as *const _);
    p
}
unsafe fn creq(p: *mut ConnectionParser, d: &[u8]) -> S { htp_connp_request_data(p, &T0 as *const Tv as *const _, d.as_ptr() as *const _, d.len()) }
unsafe fn cres(p: *mut ConnectionParser, d: &[u8]) -> S { htp_connp_response_data(p, &T0 as *const Tv as *const _, d.as_ptr() as *const _, d.len()) }
fn no_line(r: &mut Rec) { r.ev.retain(|e| e.0 != E_RES_LINE); }
unsafe fn pb(p: *const Bstr, want: &Option<Bstr>, l: &str) {
    check(p.is_null() == want.is_none(), l);
    if let (false, Some(w)) = (p.is_null(), want) {
        check(bstr_len(p) == w.len(), l);
        check(bstr_size(p) >= bstr_len(p), "capacity is at least the length");
        check_bytes(std::slice::from_raw_parts(bstr_ptr(p), bstr_len(p)), w.as_slice(), l);
    }
}
fn o64(v: Option<u64>) -> i64 { v.map(|x| if x > i64::MAX as u64 { -1 } else { x as i64 }).unwrap_or(-1) }
unsafe fn header(h: *const Header, w: Option<&Header>, l: &str) {
    check(h.is_null() == w.is_none(), l);
    if let (false, Some(w)) = (h.is_null(), w) {
        pb(htp_header_name(h), &Some(w.name.clone()), l);
        pb(htp_header_value(h), &Some(w.value.clone()), l);
        check_bytes(std::slice::from_raw_parts(htp_header_name_ptr(h), htp_header_name_len(h) as usize), w.name.as_slice(), l);
        check_bytes(std::slice::from_raw_parts(htp_header_value_ptr(h), htp_header_value_len(h) as usize), w.value.as_slice(), l);
        check(htp_header_flags(h) == w.flags, l);
    }
}
unsafe fn headers(h: *const Headers, w: &Headers, l: &str) {
    check(htp_headers_size(h) == w.elements.len() as isize, l);
    let mut f = 0;
    for (i, e) in w.elements.iter().enumerate() {
        header(htp_headers_get_index(h, i), Some(e), l);
        f |= e.flags;
    }
    header(htp_headers_get_index(h, w.elements.len()), None, l);
    check(htp_headers_flags(h) == f, l);
}
/// Every getter on `t` gives what the Rust fields of `w` (another parser's transaction) hold.
unsafe fn getters(t: *const Transaction, w: &Transaction) {
    pb(htp_tx_request_line(t), &w.request_line, "getter: request line");
    pb(htp_tx_request_method(t), &w.request_method, "getter: method");
    check(htp_tx_request_method_number(t) == w.request_method_number, "getter: method number");
    pb(htp_tx_request_uri(t), &w.request_uri, "getter: uri");
    pb(htp_tx_request_protocol(t), &w.request_protocol, "getter: protocol");
    check(htp_tx_request_protocol_number(t) == w.request_protocol_number, "getter: protocol number");
    check((htp_tx_is_protocol_0_9(t) != 0) == w.is_protocol_0_9, "getter: 0.9");
    check((htp_tx_is_http_2_upgrade(t) != 0) == w.is_http_2_upgrade, "getter: h2");
    pb(htp_tx_normalized_uri(t), if w.cfg.decoder_cfg.normalized_uri_include_all { &w.complete_normalized_uri } else { &w.partial_normalized_uri }, "getter: normalized uri");
    let u = htp_tx_parsed_uri(t);
    check(u.is_null() == w.parsed_uri.is_none(), "getter: parsed uri");
    if let Some(x) = &w.parsed_uri {
        pb(htp_uri_scheme(u), &x.scheme, "getter: uri scheme");
        pb(htp_uri_username(u), &x.username, "getter: uri username");
        pb(htp_uri_password(u), &x.password, "getter: uri password");
        pb(htp_uri_hostname(u), &x.hostname, "getter: uri hostname");
        pb(htp_uri_port(u), &x.port, "getter: uri port");
        check(htp_uri_port_number(u) == x.port_number.map(|p| p as i32).unwrap_or(-1), "getter: uri port number");
        pb(htp_uri_path(u), &x.path, "getter: uri path");
        pb(htp_uri_query(u), &x.query, "getter: uri query");
        pb(htp_uri_fragment(u), &x.fragment, "getter: uri fragment");
    }
    headers(htp_tx_request_headers(t), &w.request_headers, "getter: request headers");
    headers(htp_tx_response_headers(t), &w.response_headers, "getter: response headers");
    check(htp_tx_request_headers_size(t) == w.request_headers.elements.len() as isize, "getter: number of request headers");
    check(htp_tx_response_headers_size(t) == w.response_headers.elements.len() as isize, "getter: number of response headers");
    for i in 0..3 {
        header(htp_tx_request_header_index(t, i), w.request_headers.elements.get(i), "getter: request header by index");
        header(htp_tx_response_header_index(t, i), w.response_headers.elements.get(i), "getter: response header by index");
    }
    for k in [&b"host\0"[..], b"Content-LENGTH\0", b"X-A\0", b"\0"] {
        let n = &k[..k.len() - 1];
        header(htp_tx_request_header(t, k.as_ptr() as *const _), w.request_headers.get_nocase_nozero(n), "getter: request header by name");
        header(htp_tx_response_header(t, k.as_ptr() as *const _), w.response_headers.get_nocase_nozero(n), "getter: response header by name");
    }
    check(htp_tx_request_transfer_coding(t) == w.request_transfer_coding, "getter: transfer coding");
    check(htp_tx_request_content_encoding(t) == w.request_content_encoding, "getter: content encoding");
    pb(htp_tx_request_content_type(t), &w.request_content_type, "getter: request content type");
    check(htp_tx_request_content_length(t) == o64(w.request_content_length), "getter: request content length");
    check(htp_tx_request_auth_type(t) == w.request_auth_type, "getter: auth type");
    pb(htp_tx_request_hostname(t), &w.request_hostname, "getter: hostname");
    check(htp_tx_request_port_number(t) == w.request_port_number.map(|p| p as i32).unwrap_or(-1), "getter: port");
    check(htp_tx_request_message_len(t) == o64(Some(w.request_message_len)), "getter: request message length");
    check(htp_tx_request_entity_len(t) == o64(Some(w.request_entity_len)), "getter: request entity length");
    pb(htp_tx_response_line(t), &w.response_line, "getter: response line");
    pb(htp_tx_response_protocol(t), &w.response_protocol, "getter: response protocol");
    check(htp_tx_response_protocol_number(t) == w.response_protocol_number, "getter: response protocol number");
    pb(htp_tx_response_status(t), &w.response_status, "getter: status");
    let n = match w.response_status_number { HtpResponseNumber::UNKNOWN => 0, HtpResponseNumber::INVALID => -1, HtpResponseNumber::VALID(s) => s as i32 };
    check(htp_tx_response_status_number(t) == n, "getter: status number");
    check(htp_tx_response_status_expected_number(t) == w.response_status_expected_number as i32, "getter: expected status");
    pb(htp_tx_response_message(t), &w.response_message, "getter: message");
    check(htp_tx_response_message_len(t) == o64(Some(w.response_message_len)), "getter: response message length");
    check(htp_tx_response_entity_len(t) == o64(Some(w.response_entity_len)), "getter: response entity length");
    check(htp_tx_response_content_length(t) == o64(w.response_content_length), "getter: response content length");
    pb(htp_tx_response_content_type(t), &w.response_content_type, "getter: response content type");
    check(htp_tx_flags(t) == w.flags, "getter: flags");
    check(htp_tx_request_progress(t) == w.request_progress, "getter: request progress");
    check(htp_tx_response_progress(t) == w.response_progress, "getter: response progress");
    check(htp_tx_index(t) == w.index as isize, "getter: index");
    check(htp_tx_cfg(t) == std::rc::Rc::as_ptr(&(*t).cfg), "getter: configuration");
}
/// The connection-level getters against the other parser.
unsafe fn conn(p: *mut ConnectionParser, w: &mut ConnectionParser) {
    check(htp_connp_tx_size(p) == w.tx_size() as isize, "getter: number of transactions");
    let c = htp_connp_connection(p);
    check(htp_conn_request_data_counter(c) == w.conn.request_data_counter, "getter: request bytes");
    check(htp_conn_response_data_counter(c) == w.conn.response_data_counter, "getter: response bytes");
    check(htp_connp_request_data_consumed(p) == w.request_data_consumed() as i64, "getter: request consumed");
    check(htp_connp_response_data_consumed(p) == w.response_data_consumed() as i64, "getter: response consumed");
    let (a, b) = (htp_connp_get_request_tx(p), htp_connp_get_response_tx(p));
    check(a.is_null() == w.request().is_none() && b.is_null() == w.response().is_none(), "getter: active transactions");
    if let (false, Some(t)) = (a.is_null(), w.request()) { check((*a).index == t.index, "getter: active request"); }
    if let (false, Some(t)) = (b.is_null(), w.response()) { check((*b).index == t.index, "getter: active response"); }
    for i in 0..3 {
        let t = htp_connp_tx(p, i);
        let x = w.tx(i).filter(|t| t.is_started());
        check(t.is_null() == x.is_none(), "getter: transaction by index");
        if let (false, Some(x)) = (t.is_null(), x) { getters(t, x); }
    }
}
/// The same deliveries through both APIs.
unsafe fn both(reqs: &[&[u8]], ress: &[&[u8]], ev: u8, stt: i8) {
    let _ = take_rec();
    inject(ev, stt);
    let p = cparser(ccfg());
    let mut sts = Vec::new();
    for d in reqs { sts.push(creq(p, d)); }
    for d in ress { sts.push(cres(p, d)); }
    let a = take_rec();
    let mut q = parser(cfg0());
    let mut i = 0;
    for d in reqs { check(req(&mut q, d) == sts[i], "same request state"); i += 1; }
    for d in ress { check(res(&mut q, d) == sts[i], "same response state"); i += 1; }
    let mut b = take_rec();
    no_line(&mut b);
    same_rec(&a, &b);
    conn(p, &mut q);
    htp_connp_close(p, null());
    q.close(None);
    conn(p, &mut q);
    inject(0, 0);
    htp_connp_destroy_all(p);
}
fn u64s() -> u64 { u64::from_le_bytes(sym::<8>()) }
fn ou64() -> Option<u64> { if choose(2) == 0 { None } else { Some(u64s()) } }
fn ou16() -> Option<u16> { if choose(2) == 0 { None } else { Some(u16::from_le_bytes(sym::<2>())) } }
/// A transaction whose fields hold any values.
unsafe fn any_fields(k: usize) {
    let mut q = parser(cfg0());
    req(&mut q, QC);
    res(&mut q, RC);
    {
        let c = q.tx_mut(0).unwrap();
        match k {
            0 => {
                c.request_content_length = ou64();
                c.response_content_length = ou64();
                c.request_message_len = u64s();
                c.request_entity_len = u64s();
                c.response_message_len = u64s();
                c.response_entity_len = u64s();
                c.flags = u64s();
            }
            1 => {
                c.request_port_number = ou16();
                if let Some(u) = c.parsed_uri.as_mut() { u.port_number = ou16(); }
                c.response_status_number = [HtpResponseNumber::UNKNOWN, HtpResponseNumber::INVALID, HtpResponseNumber::VALID(u16::from_le_bytes(sym::<2>()))][choose(3)];
                use htp::config::HtpUnwanted as U;
                c.response_status_expected_number = [U::IGNORE, U::CODE_400, U::CODE_404][choose(3)];
            }
            2 => {
                use HtpTransferCoding as T;
                c.request_transfer_coding = [T::UNKNOWN, T::NO_BODY, T::IDENTITY, T::CHUNKED, T::INVALID, T::ERROR][choose(6)];
                use HtpContentEncoding as E;
                let e = [E::NONE, E::GZIP, E::DEFLATE, E::ZLIB, E::LZMA, E::ERROR];
                c.request_content_encoding = e[choose(6)];
                use HtpAuthType as A;
                c.request_auth_type = [A::UNKNOWN, A::NONE, A::BASIC, A::DIGEST, A::BEARER, A::UNRECOGNIZED][choose(6)];
                c.is_protocol_0_9 = choose(2) == 1;
                c.is_http_2_upgrade = choose(2) == 1;
            }
            3 => {
                use HtpProtocol as P;
                let v = [P::ERROR, P::INVALID, P::UNKNOWN, P::V0_9, P::V1_0, P::V1_1];
                let a = choose(6);
                c.request_protocol_number = v[a];
                c.response_protocol_number = v[(a + 1 + choose(5)) % 6];
                use HtpRequestProgress as R;
                use HtpResponseProgress as S;
                let b = choose(7);
                c.request_progress = [R::NOT_STARTED, R::LINE, R::HEADERS, R::BODY, R::TRAILER, R::COMPLETE, R::ERROR][b];
                c.response_progress = [S::LINE, S::HEADERS, S::BODY, S::TRAILER, S::COMPLETE, S::ERROR, S::NOT_STARTED][b];
            }
            _ => {
                // any of the strings set or not
                let b = |x: &[u8]| if choose(2) == 0 { None } else { Some(Bstr::from(x)) };
                c.request_line = b(b"rl\0x");
                c.request_method = b(b"m");
                c.request_uri = b(b"");
                c.request_protocol = b(b"p1");
                c.request_hostname = b(b"host");
                c.request_content_type = b(b"qct");
                c.complete_normalized_uri = b(b"complete");
                c.partial_normalized_uri = b(b"partial");
            }
        }
    }
    let t = q.tx(0).unwrap();
    getters(t, t);
    if k == 0 {
        let mut c = htp::connection::Connection::default();
        c.request_data_counter = u64s();
        c.response_data_counter = u64s();
        let a = htp_conn_request_data_counter(&c);
        let b = htp_conn_response_data_counter(&c);
        check(a == c.request_data_counter && b == c.response_data_counter, "getter: connection bytes");
    }
}
unsafe fn any_res_strings() {
    let mut q = parser(cfg0());
    req(&mut q, QC);
    res(&mut q, RC);
    let c = q.tx_mut(0).unwrap();
    let b = |x: &[u8]| if choose(2) == 0 { None } else { Some(Bstr::from(x)) };
    c.response_line = b(b"sl");
    c.response_protocol = b(b"sp");
    c.response_status = b(b"s");
    c.response_message = b(b"");
    c.response_content_type = b(b"sct");
    c.parsed_uri = if choose(2) == 0 { None } else { c.parsed_uri.take() };
    if let Some(u) = c.parsed_uri.as_mut() {
        u.scheme = b(b"sch"); u.username = b(b"un"); u.password = b(b"pw"); u.hostname = b(b"hn"); u.port = b(b"po"); u.path = b(b"pa"); u.query = b(b"qu"); u.fragment = b(b"fr");
    }
    let f = (u64s(), u64s());
    c.request_headers.elements[0].flags = f.0;
    c.request_headers.elements[1].flags = f.1;
    let t = q.tx(0).unwrap();
    getters(t, t);
}
const M: [u8; 256] = not_tab(b"");
fn q1() -> Vec<u8> {
    let s = sym::<2>();
    let h = sym::<2>();
    for x in s.iter().chain(h.iter()) { assume_tab(*x, &M); }
    cat(&[b"POST http://u@h:8", &s, b"/p?q#f HTTP/1.1\r\nHost: h\r\nX-A: ", &h, b"\r\nContent-Length: 2\r\nContent-Type: t/x; c\r\n\r\nab"])
}
fn r1() -> Vec<u8> {
    let s = sym::<2>();
    cat(&[b"HTTP/1.1 2", &s, b" Fine\r\nContent-Type: a/b\r\nX-A: 1\r\nContent-Length: 3\r\n\r\nxyz"])
}
const QC: &[u8] = b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: 1\r\n\r\n";
const RC: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\nT: 1\r\n\r\n";
harness! {
    fn h_c26_null() {
        unsafe {
            let t: *const Transaction = null();
            for p in [htp_tx_request_line(t), htp_tx_request_method(t), htp_tx_request_uri(t), htp_tx_request_protocol(t), htp_tx_normalized_uri(t),
                htp_tx_request_content_type(t), htp_tx_request_hostname(t), htp_tx_response_line(t), htp_tx_response_protocol(t), htp_tx_response_status(t),
                htp_tx_response_message(t), htp_tx_response_content_type(t), htp_header_name(null()), htp_header_value(null()),
                htp_uri_scheme(null()), htp_uri_username(null()), htp_uri_password(null()), htp_uri_hostname(null()), htp_uri_port(null()), htp_uri_path(null()),
                htp_uri_query(null()), htp_uri_fragment(null())] {
                check(p.is_null(), "NULL gives NULL");
            }
            check(htp_tx_cfg(t).is_null() && htp_tx_parsed_uri(t).is_null() && htp_tx_request_headers(t).is_null() && htp_tx_response_headers(t).is_null(), "NULL gives NULL");
            check(htp_tx_request_header(t, b"a\0".as_ptr() as *const _).is_null() && htp_tx_response_header(t, b"a\0".as_ptr() as *const _).is_null(), "NULL gives NULL");
            check(htp_tx_request_header_index(t, 0).is_null() && htp_tx_response_header_index(t, 0).is_null(), "NULL gives NULL");
            check(htp_tx_get_user_data(t).is_null(), "NULL gives NULL");
            htp_tx_set_user_data(null_mut(), null_mut());
            htp_tx_register_response_body_data(null_mut(), x_res_body);
            htp_tx_destroy(null_mut(), t);
            check(htp_tx_request_method_number(t) == HtpMethod::ERROR && htp_tx_request_protocol_number(t) == HtpProtocol::ERROR && htp_tx_response_protocol_number(t) == HtpProtocol::ERROR, "NULL gives ERROR");
            check(htp_tx_is_protocol_0_9(t) == 0 && htp_tx_is_http_2_upgrade(t) == 0 && htp_tx_flags(t) == 0, "NULL gives 0");
            check(htp_tx_request_headers_size(t) == -1 && htp_tx_response_headers_size(t) == -1 && htp_tx_index(t) == -1, "NULL gives -1");
            check(htp_tx_request_transfer_coding(t) == HtpTransferCoding::ERROR && htp_tx_request_content_encoding(t) == HtpContentEncoding::ERROR && htp_tx_request_auth_type(t) == HtpAuthType::ERROR, "NULL gives ERROR");
            for v in [htp_tx_request_content_length(t), htp_tx_request_message_len(t), htp_tx_request_entity_len(t), htp_tx_response_message_len(t), htp_tx_response_entity_len(t), htp_tx_response_content_length(t)] {
                check(v == -1, "NULL gives -1");
            }
            check(htp_tx_request_port_number(t) == -1 && htp_tx_response_status_number(t) == -1 && htp_tx_response_status_expected_number(t) == -1 && htp_uri_port_number(null()) == -1, "NULL gives -1");
            check(htp_tx_request_progress(t) == HtpRequestProgress::ERROR && htp_tx_response_progress(t) == HtpResponseProgress::ERROR, "NULL gives ERROR");
            let d: *const Data = null();
            check(htp_tx_data_tx(d).is_null() && htp_tx_data_data(d).is_null() && htp_tx_data_len(d) == -1 && htp_tx_data_is_empty(d), "NULL data");
            let h: *const Headers = null();
            check(htp_headers_get(h, b"a\0".as_ptr() as *const _).is_null() && htp_headers_get_index(h, 0).is_null() && htp_headers_size(h) == -1 && htp_headers_flags(h) == 0, "NULL headers");
            let e = Headers::with_capacity(1);
            check(htp_headers_get(&e, null()).is_null(), "NULL header name");
            check(htp_header_name_ptr(null()).is_null() && htp_header_value_ptr(null()).is_null() && htp_header_name_len(null()) == -1 && htp_header_value_len(null()) == -1 && htp_header_flags(null()) == 0, "NULL header");
            check(htp_conn_request_data_counter(null()) == 0 && htp_conn_response_data_counter(null()) == 0 && htp_conn_next_log(null()).is_null(), "NULL connection");
            check(htp_log_message(null()).is_null() && htp_log_file(null()).is_null() && htp_log_code(null()) == HtpLogCode::ERROR, "NULL log");
            htp_log_free(null_mut());
            htp::c_api::htp_free_cstring(null_mut());
            bstr_free(null_mut());
            check(bstr_util_strdup_to_c(null()).is_null(), "NULL bstr");
            htp_config_destroy(null_mut());
        }
    }
    fn h_c26_null_p() {
        unsafe {
            let p: *mut ConnectionParser = null_mut();
            htp_connp_open(p, null(), 0, null(), 0, null());
            htp_connp_close(p, null());
            htp_connp_request_close(p, null());
            htp_connp_set_user_data(p, null_mut());
            check(htp_connp_user_data(p).is_null() && htp_connp_connection(p).is_null() && htp_connp_tx(p, 0).is_null(), "NULL parser gives NULL");
            check(htp_connp_get_request_tx(p).is_null() && htp_connp_get_response_tx(p).is_null(), "NULL parser gives NULL");
            check(htp_connp_tx_size(p) == -1 && htp_connp_request_data_consumed(p) == -1 && htp_connp_response_data_consumed(p) == -1, "NULL parser gives -1");
            check(creq(p, b"a") == S::ERROR && cres(p, b"a") == S::ERROR, "NULL parser gives ERROR");
            htp_connp_destroy_all(p);
            // no configuration: the default one
            let c = htp_connp_create(null_mut());
            check(htp_connp_tx_size(c) == 0 && htp_connp_tx(c, 0).is_null(), "a new parser has no transaction");
            htp_connp_open(c, null(), 80, null(), 80, null());
            check(creq(c, b"GET / HTTP/1.0\r\n\r\n") == S::DATA, "the default configuration parses");
            check(htp_connp_tx_size(c) >= 1 && !htp_connp_tx(c, 0).is_null() && htp_connp_tx(c, 1).is_null(), "one transaction started");
            htp_connp_destroy_all(c);
        }
    }
    fn h_c26_null_cfg() {
        unsafe {
            let c: *mut Config = null_mut();
            let i = choose(3) as i32 - 1;
            htp_config_register_log(c, x_log);
            htp_config_register_request_start(c, x_req_start);
            htp_config_register_request_line(c, x_req_line);
            htp_config_register_request_headers(c, x_req_headers);
            htp_config_register_request_trailer(c, x_req_trailer);
            htp_config_register_request_complete(c, x_req_complete);
            htp_config_register_response_start(c, x_res_start);
            htp_config_register_response_headers(c, x_res_headers);
            htp_config_register_response_trailer(c, x_res_trailer);
            htp_config_register_response_complete(c, x_res_complete);
            htp_config_register_transaction_complete(c, x_tx_complete);
            htp_config_register_request_header_data(c, x_req_hdata);
            htp_config_register_response_header_data(c, x_res_hdata);
            htp_config_register_request_trailer_data(c, x_req_tdata);
            htp_config_register_response_trailer_data(c, x_res_tdata);
            htp_config_register_request_body_data(c, x_req_body);
            htp_config_register_response_body_data(c, x_res_body);
            check(htp_config_set_server_personality(c, HtpServerPersonality::IDS) == HtpStatus::ERROR, "NULL configuration gives ERROR");
            htp_config_set_backslash_convert_slashes(c, i);
            htp_config_set_bestfit_replacement_byte(c, i);
            htp_config_set_compression_bomb_limit(c, 1);
            htp_config_set_compression_time_limit(c, 1);
            htp_config_set_convert_lowercase(c, i);
            htp_config_set_field_limit(c, 1);
            htp_config_set_lzma_memlimit(c, 1);
            htp_config_set_lzma_layers(c, i);
            htp_config_set_max_tx(c, 1);
            htp_config_set_nul_encoded_terminates(c, i);
            htp_config_set_nul_raw_terminates(c, i);
            htp_config_set_parse_request_cookies(c, i);
            htp_config_set_path_separators_compress(c, i);
            htp_config_set_plusspace_decode(c, i);
            htp_config_set_path_separators_decode(c, i);
            htp_config_set_request_decompression(c, i);
            htp_config_set_decompression_layer_limit(c, i);
            htp_config_set_allow_space_uri(c, i == 1);
            htp_config_set_u_encoding_decode(c, i);
            htp_config_set_url_encoding_invalid_handling(c, HtpUrlEncodingHandling::REMOVE_PERCENT);
            htp_config_set_utf8_convert_bestfit(c, i);
            htp_config_set_double_decode_normalized_query(c, i == 1);
            htp_config_set_double_decode_normalized_path(c, i == 1);
            htp_config_set_normalized_uri_include_all(c, i == 1);
            htp_config_set_tx_auto_destroy(c, i);
            htp_config_set_flush_incomplete(c, i);
            htp_config_set_parse_urlencoded(c, i);
        }
    }
    fn h_c26_setters() { unsafe { setters() } }
    fn h_c26_behave() { unsafe { behave() } }
    fn h_c26_exchange_q() { unsafe { both(&[&q1()], &[RC], 0, 0) } }
    fn h_c26_exchange_r() { unsafe { both(&[QC], &[&r1()], 0, 0) } }
    fn t_c26_exchange() { unsafe { both(&[&q1()], &[&r1()], 0, 0) } }
    fn h_c26_cut() {
        let n = choose(QC.len() + 1);
        unsafe { both(&[&QC[..n], &QC[n..]], &[&RC[..n % RC.len()], &RC[n % RC.len()..]], 0, 0) }
    }
    fn h_c26_cut_x() {
        let n = choose(QC.len() + 1);
        let m = choose(RC.len() + 1);
        unsafe { both(&[&QC[..n], &QC[n..]], &[&RC[..m], &RC[m..]], 0, 0) }
    }
    fn h_c26_any() {
        let a = symv(2);
        let b = symv(2);
        unsafe { both(&[&a, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"], &[&b, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na"], 0, 0) }
    }
    fn h_c26_verdict() {
        // every event a C callback exists for
        let evs = [E_REQ_START, E_REQ_LINE, E_REQ_HEADERS, E_REQ_TRAILER, E_REQ_COMPLETE, E_RES_START, E_RES_HEADERS, E_RES_TRAILER, E_RES_COMPLETE, E_TX_COMPLETE, E_REQ_BODY,
            E_RES_BODY, E_REQ_HDATA, E_RES_HDATA, E_REQ_TDATA, E_RES_TDATA, E_REQ_BODY_END, E_RES_BODY_END];
        let e = evs[choose(evs.len())];
        let s = 1 + choose(3) as i8;
        unsafe { both(&[QC], &[RC], e, s) }
    }
    fn h_c26_fields0() { unsafe { any_fields(0) } }
    fn h_c26_fields1() { unsafe { any_fields(1) } }
    fn h_c26_fields2() { unsafe { any_fields(2) } }
    fn h_c26_fields3() { unsafe { any_fields(3) } }
    fn h_c26_fields4() { unsafe { any_fields(4) } }
    fn h_c26_fields5() { unsafe { any_res_strings() } }
    fn h_c26_gap() {
        let n = symv(1)[0] as usize;
        let k = choose(3);
        unsafe {
            let _ = take_rec();
            let p = cparser(ccfg());
            let mut q = parser(cfg0());
            let hq = b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 99\r\n\r\n";
            let hr = b"HTTP/1.1 200 OK\r\nContent-Length: 99\r\n\r\n";
            if k > 0 { creq(p, hq); }
            if k > 1 { cres(p, hr); }
            let s = if k < 2 { htp_connp_request_data(p, null(), null(), n) } else { htp_connp_response_data(p, null(), null(), n) };
            let a = take_rec();
            if k > 0 { req(&mut q, hq); }
            if k > 1 { res(&mut q, hr); }
            let d = if n == 0 { ParserData::from(&b""[..]) } else { ParserData::from(n) };
            let t = if k < 2 { q.request_data(d, ts()) } else { q.response_data(d, ts()) };
            let mut b = take_rec();
            no_line(&mut b);
            check(s == t, "same state for a gap");
            same_rec(&a, &b);
            for i in 0..NTX { check(a.req_gap[i] == b.req_gap[i] && a.res_gap[i] == b.res_gap[i], "same gap"); }
            conn(p, &mut q);
            htp_connp_request_close(p, null());
            q.request_close(None);
            conn(p, &mut q);
            htp_connp_destroy_all(p);
        }
    }
    fn h_c26_mixed() {
        // C and Rust callbacks on one event run in the order of registration, up to the first verdict that stops
        unsafe {
            let _ = take_rec();
            let mut c = Config::default();
            let order = choose(4);
            let stop = choose(5);
            static mut SEEN: [u8; 4] = [0; 4];
            static mut N: usize = 0;
            static mut STOP: (usize, i8) = (9, 0);
            N = 0;
            unsafe fn seen(k: u8) -> Result<()> { let i = N; SEEN[i] = k; N += 1; if i == STOP.0 { match STOP.1 { 0 => return Err(HtpStatus::STOP), 1 => return Err(HtpStatus::ERROR), _ => return Err(HtpStatus::DECLINED) } } Ok(()) }
            fn n1(_: &mut Transaction) -> Result<()> { unsafe { seen(1) } }
            unsafe extern "C" fn e2(_: *const ConnectionParser, _: *mut Transaction) -> HtpStatus { st(seen(2)) }
            fn n3(_: &mut Transaction, _: &ParserData) -> Result<()> { unsafe { seen(1) } }
            unsafe extern "C" fn e4(_: *const ConnectionParser, _: *mut Data) -> HtpStatus { st(seen(2)) }
            let data = choose(2) == 1;
            let kind = [order & 1, order >> 1 & 1, 1 - (order & 1)];
            for k in kind {
                if data {
                    if k == 0 { c.register_request_header_data(n3); } else { htp_config_register_request_header_data(&mut c, e4); }
                } else if k == 0 { c.register_request_headers(n1); } else { htp_config_register_request_headers(&mut c, e2); }
            }
            let v = choose(3) as i8;
            STOP = (stop, v);
            let mut p = parser(c);
            let s = req(&mut p, b"GET / HTTP/1.0\r\nHost: a\r\n\r\n");
            let want = if stop < 3 && v < 2 { stop + 1 } else { 3 };
            check(N == want, "callbacks run up to the first that stops");
            for i in 0..N { check(SEEN[i] == 1 + kind[i] as u8, "callbacks run in the order of registration"); }
            if !data {
                check(s == if want == 3 && !(stop == 2 && v < 2) { S::DATA } else if v == 0 { S::STOP } else { S::ERROR }, "the verdict is obeyed");
            }
        }
    }
    fn h_c26_bstr() {
        unsafe {
            let n = choose(4);
            let m = choose(4);
            let a = symv(n);
            let mut b = symv(m);
            for x in &b { assume(*x != 0); }
            b.push(0);
            let s = Bstr::from(&a[..]);
            let b0 = &b[..m];
            let lt = a.as_slice() < b0;
            let eq = a.as_slice() == b0;
            check(bstr_cmp_c(&s, b.as_ptr() as *const _) == if eq { 0 } else if lt { -1 } else { 1 }, "bstr_cmp_c");
            let low = |v: &[u8]| v.iter().map(|c| if *c >= b'A' && *c <= b'Z' { c + 32 } else { *c }).collect::<Vec<u8>>();
            let (x, y) = (low(&a), low(b0));
            check(bstr_cmp_c_nocase(&s, b.as_ptr() as *const _) == if x == y { 0 } else if x < y { -1 } else { 1 }, "bstr_cmp_c_nocase");
            let d = bstr_dup_c(b.as_ptr() as *const _);
            check(bstr_len(d) == m && bstr_size(d) >= m, "bstr_dup_c length");
            check_bytes(std::slice::from_raw_parts(bstr_ptr(d), bstr_len(d)), b0, "bstr_dup_c content");
            bstr_free(d);
            let e = bstr_alloc(n);
            check(bstr_len(e) == 0 && bstr_size(e) >= n, "bstr_alloc");
            bstr_free(e);
        }
    }
    fn h_c26_strdup() {
        unsafe {
            let n = choose(5);
            let a = symv(n);
            let s = Bstr::from(&a[..]);
            let c = bstr_util_strdup_to_c(&s) as *const u8;
            let mut i = 0;
            for x in &a {
                if *x == 0 {
                    check(*c.add(i) == b'\\' && *c.add(i + 1) == b'0', "NUL is escaped");
                    i += 2;
                } else {
                    check(*c.add(i) == *x, "bytes are copied");
                    i += 1;
                }
            }
            check(*c.add(i) == 0, "the copy is terminated");
            free(c as *mut _);
            let v = htp::c_api::htp_get_version() as *const u8;
            let mut k = 0;
            while *v.add(k) != 0 { k += 1; }
            check(k > 8 && std::slice::from_raw_parts(v, 8) == b"LibHTP v", "the version is a terminated string");
        }
    }
    fn h_c26_user_data() {
        unsafe {
            let p = cparser(ccfg());
            check(htp_connp_user_data(p).is_null(), "no user data yet");
            let v = u64::from_le_bytes(sym::<8>());
            htp_connp_set_user_data(p, v as *mut _);
            check(htp_connp_user_data(p) as u64 == v, "user data of the parser");
            creq(p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\n");
            let t = htp_connp_tx(p, 0) as *mut Transaction;
            check(htp_tx_get_user_data(t).is_null(), "no user data on a transaction");
            htp_tx_set_user_data(t, (v ^ 1) as *mut _);
            check(htp_tx_get_user_data(t) as u64 == v ^ 1 && htp_connp_user_data(p) as u64 == v, "user data of the transaction");
            check(htp_tx_get_user_data(htp_connp_tx(p, 1)).is_null(), "user data of another transaction");
            htp_tx_destroy(p, t);
            check(htp_connp_tx(p, 0).is_null() && !htp_connp_tx(p, 1).is_null(), "a destroyed transaction is gone, the others stay");
            htp_connp_destroy_all(p);
        }
    }
    fn h_c26_tx_body_hook() {
        // a callback registered on one transaction sees that transaction's response body only
        unsafe {
            let n = choose(2);
            let b = symv(2);
            let mut p = parser(Config::default());
            let _ = take_rec();
            for _ in 0..2 { req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"); }
            let t = htp_connp_tx(&mut p, n) as *mut Transaction;
            htp_tx_register_response_body_data(t, x_res_body);
            for _ in 0..2 { res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"); res(&mut p, &b); }
            let r = take_rec();
            check_bytes(&r.res_body[n], &b, "the body of that transaction");
            check(r.res_body[1 - n].is_empty(), "not of another one");
        }
    }
    fn h_c26_log() {
        unsafe {
            let _ = take_rec();
            let p = cparser(ccfg());
            let mut q = parser(cfg0());
            let b = symv(2);
            let m = cat(&[b"GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\nX", &b, b"\r\n\r\n"]);
            creq(p, &m);
            req(&mut q, &m);
            let k = htp_connp_connection(p);
            let mut n = 0u64;
            loop {
                let l = htp_conn_next_log(k);
                let w = q.conn.get_next_log();
                check(l.is_null() == w.is_none(), "same number of log entries");
                if l.is_null() { break; }
                if let Some(w) = w {
                    check(htp_log_code(l) == w.msg.code, "log code");
                    let s = htp_log_message(l);
                    check(!s.is_null(), "log message");
                    let i = w.msg.msg.as_bytes();
                    check(*s.add(i.len()) == 0 && std::slice::from_raw_parts(s as *const u8, i.len()) == i, "log message text");
                    htp::c_api::htp_free_cstring(s);
                    let s = htp_log_file(l);
                    check(!s.is_null() && *s != 0, "log file");
                    htp::c_api::htp_free_cstring(s);
                }
                htp_log_free(l);
                n += 1;
            }
            obs(n);
            htp_connp_destroy_all(p);
        }
    }
    fn h_c26_loghook() {
        // known finding: registered log callbacks never run
        unsafe {
            LOGS = 0;
            let c = htp_config_create();
            htp_config_register_log(c, x_log);
            let p = cparser(c);
            creq(p, b"GET / HTTP/1.1\r\nHost: a\r\nx\r\n\r\n");
            let k = htp_connp_connection(p);
            let mut n = 0;
            loop {
                let l = htp_conn_next_log(k);
                if l.is_null() { break; }
                htp_log_free(l);
                n += 1;
            }
            check(n > 0, "an entry is logged");
            check(n == LOGS, "each log entry is given to the log callback");
            htp_connp_destroy_all(p);
        }
    }
    fn h_c26_open() {
        unsafe {
            let p = htp_connp_create(null_mut());
            let s = sym::<2>();
            let a = [b'1', b'.', b'2', b'.', b'3', b'.', s[0], s[1], 0];
            let d = |c: u8| c >= b'0' && c <= b'9';
            // one or two digits without a leading zero make an address
            let ok = if s[1] == 0 { d(s[0]) } else { d(s[0]) && d(s[1]) && s[0] != b'0' };
            let v = if s[1] == 0 { s[0].wrapping_sub(48) } else { s[0].wrapping_sub(48).wrapping_mul(10).wrapping_add(s[1].wrapping_sub(48)) };
            let port = i32::from_le_bytes(sym::<4>());
            let tv = Tv { sec: 1 + sym_u8() as i64, usec: sym_u8() as i64 };
            htp_connp_open(p, a.as_ptr() as *const _, port, b"::1\0".as_ptr() as *const _, port ^ 1, &tv as *const Tv as *const _);
            let c = &(*p).conn;
            check(c.client_addr == if ok { Some(std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 2, 3, v))) } else { None }, "client address");
            check(c.server_addr == Some(std::net::IpAddr::V6(std::net::Ipv6Addr::LOCALHOST)), "server address");
            check(c.client_port == if port >= 0 && port < 65536 { Some(port as u16) } else { None }, "client port");
            check(c.server_port == if port ^ 1 >= 0 && port ^ 1 < 65536 { Some((port ^ 1) as u16) } else { None }, "server port");
            check(c.open_timestamp == OffsetDateTime::UNIX_EPOCH + Duration::seconds(tv.sec) + Duration::microseconds(tv.usec), "time");
            htp_connp_close(p, &tv as *const Tv as *const _);
            check((*p).conn.close_timestamp == (*p).conn.open_timestamp, "closing time");
            htp_connp_destroy_all(p);
        }
    }
    fn h_c26_time() {
        // no time value crashes the parser
        unsafe {
            let secs = [0i64, 253402300799, -377705116800, i64::MAX, i64::MIN, -1];
            let us = [0i64, 1, 1_000_000, 999_999_999, i64::MAX, i64::MIN, -1];
            let tv = Tv { sec: secs[choose(secs.len())].wrapping_add(choose(3) as i64 - 1), usec: us[choose(us.len())] };
            let p = htp_connp_create(null_mut());
            htp_connp_open(p, null(), 1, null(), 1, &tv as *const Tv as *const _);
            check(htp_connp_request_data(p, &tv as *const Tv as *const _, b"GET / HTTP/1.0\r\n\r\n".as_ptr() as *const _, 18) == S::DATA, "parses whatever the time");
            htp_connp_close(p, &tv as *const Tv as *const _);
            htp_connp_destroy_all(p);
        }
    }
}
extern "C" { fn free(p: *mut u8); }
/// All settings readable from a configuration.
fn fields(c: &Config) -> Vec<u64> {
    let d = &c.decoder_cfg;
    let o = &c.compression_options;
    let ol = |v: Option<u32>| v.map(|x| x as u64 + 1).unwrap_or(0);
    vec![c.field_limit as u64, c.log_level as u64, c.tx_auto_destroy as u64, c.server_personality as u64, c.response_decompression_enabled as u64, c.parse_urlencoded as u64,
        c.parse_request_auth as u64, c.requestline_leading_whitespace_unwanted as u64, c.request_decompression_enabled as u64, c.flush_incomplete as u64, c.max_tx as u64,
        d.double_decode_normalized_path as u64, d.double_decode_normalized_query as u64, d.backslash_convert_slashes as u64, d.convert_lowercase as u64, d.path_separators_compress as u64,
        d.path_separators_decode as u64, d.plusspace_decode as u64, d.nul_raw_terminates as u64, d.allow_space_uri as u64, d.u_encoding_decode as u64,
        d.url_encoding_invalid_handling as u64, d.nul_encoded_terminates as u64, d.normalized_uri_include_all as u64, d.bestfit_map.replacement_byte as u64,
        o.get_lzma_memlimit() as u64, ol(o.get_lzma_layers()), o.get_bomb_limit(), o.get_bomb_ratio(), o.get_time_limit() as u64, o.get_time_test_freq() as u64, ol(o.get_layer_limit())]
}
/// Each C setter changes what its Rust counterpart changes, and nothing else.
unsafe fn setters() {
    let c = htp_config_create();
    let mut w = Config::default();
    let on = choose(2);
    let b = on == 1;
    let i = on as i32;
    let v = u64::from_le_bytes(sym::<8>());
    match choose(27) {
        0 => { htp_config_set_backslash_convert_slashes(c, i); w.set_backslash_convert_slashes(b); }
        1 => { let x = v as i32 & 255; htp_config_set_bestfit_replacement_byte(c, x); w.set_bestfit_replacement_byte(x as u8); }
        2 => { htp_config_set_compression_bomb_limit(c, v as usize); w.compression_options.set_bomb_limit(v); }
        3 => { htp_config_set_compression_time_limit(c, v as u32); w.compression_options.set_time_limit(v as u32); }
        4 => { htp_config_set_convert_lowercase(c, i); w.set_convert_lowercase(b); }
        5 => { htp_config_set_field_limit(c, v as usize); w.set_field_limit(v as usize); }
        6 => { htp_config_set_lzma_memlimit(c, v as usize); w.compression_options.set_lzma_memlimit(v as usize); }
        7 => { htp_config_set_lzma_layers(c, v as i32); w.compression_options.set_lzma_layers(if (v as i32) <= 0 { None } else { Some(v as u32) }); }
        8 => { htp_config_set_max_tx(c, v as u32); w.max_tx = v as u32; }
        9 => { htp_config_set_nul_encoded_terminates(c, i); w.set_nul_encoded_terminates(b); }
        10 => { htp_config_set_nul_raw_terminates(c, i); w.set_nul_raw_terminates(b); }
        11 => { htp_config_set_path_separators_compress(c, i); w.set_path_separators_compress(b); }
        12 => { htp_config_set_plusspace_decode(c, i); w.set_plusspace_decode(b); }
        13 => { htp_config_set_path_separators_decode(c, i); w.set_path_separators_decode(b); }
        14 => { htp_config_set_request_decompression(c, i); w.set_request_decompression(b); }
        15 => { htp_config_set_decompression_layer_limit(c, v as i32); w.set_decompression_layer_limit(if (v as i32) <= 0 { None } else { Some(v as u32) }); }
        16 => { htp_config_set_allow_space_uri(c, b); w.set_allow_space_uri(b); }
        17 => { let p = PERS[choose(8)]; check(htp_config_set_server_personality(c, p) == HtpStatus::OK, "personality accepted"); let _ = w.set_server_personality(p); }
        18 => { htp_config_set_u_encoding_decode(c, i); w.set_u_encoding_decode(b); }
        19 => { let h = [HtpUrlEncodingHandling::PRESERVE_PERCENT, HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID][choose(3)];
            htp_config_set_url_encoding_invalid_handling(c, h); w.set_url_encoding_invalid_handling(h); }
        20 => { htp_config_set_double_decode_normalized_query(c, b); w.set_double_decode_normalized_query(b); }
        21 => { htp_config_set_double_decode_normalized_path(c, b); w.set_double_decode_normalized_path(b); }
        22 => { htp_config_set_normalized_uri_include_all(c, b); w.set_normalized_uri_include_all(b); }
        23 => { htp_config_set_tx_auto_destroy(c, i); w.set_tx_auto_destroy(b); }
        24 => { htp_config_set_flush_incomplete(c, i); w.set_flush_incomplete(b); }
        25 => { htp_config_set_parse_urlencoded(c, i); w.set_parse_urlencoded(b); }
        _ => { htp_config_set_parse_request_cookies(c, i); }
    }
    let (x, y) = (fields(&*c), fields(&w));
    for k in 0..x.len() { check(x[k] == y[k], "the C setter sets what the Rust setter sets"); }
    // the parser keeps its own copy
    let p = htp_connp_create(c);
    htp_config_set_field_limit(c, 7);
    htp_config_set_max_tx(c, 7);
    let z = fields(&(*p).cfg);
    for k in 0..z.len() { check(z[k] == y[k], "the parser copies the configuration"); }
    htp_config_destroy(c);
    htp_connp_destroy_all(p);
}
/// The settings that are not readable show in what the parser does.
unsafe fn behave() {
    let i = choose(2);
    let c = htp_config_create();
    let mut w = Config::default();
    no_bestfit(&mut *c);
    no_bestfit(&mut w);
    let k = choose(3);
    match k {
        0 => { htp_config_set_utf8_convert_bestfit(c, i as i32); w.set_utf8_convert_bestfit(i == 1); }
        1 => { htp_config_set_normalized_uri_include_all(c, i == 1); w.set_normalized_uri_include_all(i == 1); }
        _ => { htp_config_set_u_encoding_decode(c, i as i32); w.set_u_encoding_decode(i == 1); }
    }
    let s = sym::<2>();
    let m = cat(&[b"GET http://h/a%u00", &s, b"\xc3\xa9 HTTP/1.1\r\nHost: h\r\n\r\n"]);
    let p = cparser(c);
    let mut q = parser(w);
    check(creq(p, &m) == req(&mut q, &m), "same state");
    conn(p, &mut q);
    htp_connp_destroy_all(p);
}
