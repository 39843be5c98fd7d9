SEEDS=[
dict(id='b01-chunk-end-at-boundary', property='C05',
 edits=[('src/request.rs','''            *len -= bytes_to_consume as u64;
            if *len == 0 {''','''            *len -= bytes_to_consume as u64;
            if *len == 0 && !input.is_empty() {''')],
 needs='request chunk data ending exactly at the end of a data call',
 breaks='the request parser stops consuming: the rest of the chunked request is never parsed',
 demo='''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"POST / HTTP/1.1\\r\\nHost: a\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n3\\r\\nabc");
    req(&mut p, b"\\r\\n2\\r\\nde\\r\\n0\\r\\n\\r\\n");
    assert_eq!(body("req_body", 0), b"abcde");
    assert_eq!(p.tx(0).unwrap().request_progress, HtpRequestProgress::COMPLETE);
}
'''),
dict(id='b02-head-te-body', property='C06',
 edits=[('src/response.rs','''        if response_tx.request_method_number == HtpMethod::HEAD {
            // There's no''','''        if response_tx.request_method_number == HtpMethod::HEAD && te_opt.is_none() {
            // There's no''')],
 needs='a HEAD request answered with a Transfer-Encoding header',
 breaks='the next response is swallowed as the body of the HEAD response',
 demo='''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"HEAD / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\nGET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n");
    res(&mut p, b"HTTP/1.1 200 OK\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\nHTTP/1.1 404 No\\r\\nContent-Length: 0\\r\\n\\r\\n");
    assert!(p.tx(1).unwrap().response_status_number.eq_num(404));
    assert_eq!(body("res_body", 0), b"");
}
'''),
dict(id='b03-early-response-no-txcomplete', property='C07',
 edits=[('src/connection_parser.rs','''        // Check if the entire transaction is complete.
        self.finalize(self.request_index())?;
        self.request_next();''','''        // Check if the entire transaction is complete.
        if self.request_index() >= self.response_index() {
            self.finalize(self.request_index())?;
        }
        self.request_next();''')],
 needs='a response that completes before its request does (early error response to a request with a body)',
 breaks='transaction_complete is never reported for that transaction',
 demo='''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"POST / HTTP/1.1\\r\\nHost: a\\r\\nContent-Length: 4\\r\\n\\r\\nab");
    res(&mut p, b"HTTP/1.1 400 No\\r\\nContent-Length: 0\\r\\n\\r\\n");
    req(&mut p, b"cd");
    req(&mut p, b"GET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n");
    assert_eq!(p.tx(0).unwrap().request_progress, HtpRequestProgress::COMPLETE);
    assert_eq!(count("tx_complete", 0), 1);
}
'''),
dict(id='b04-trailer-hook-verdict', property='C08',
 edits=[('src/connection_parser.rs','''            self.cfg
                .hook_request_trailer
                .clone()
                .run_all(self, self.request_index())?;
            // Completed''','''            let _ = self
                .cfg
                .hook_request_trailer
                .clone()
                .run_all(self, self.request_index());
            // Completed''')],
 needs='a request_trailer callback returning STOP on a chunked request',
 breaks='the STOP verdict of the callback is ignored',
 demo='''fn main() {
    let mut c = cfg();
    c.register_request_trailer(|_t: &mut Transaction| Err(HtpStatus::STOP));
    let mut p = parser(c);
    let s = req(&mut p, b"POST / HTTP/1.1\\r\\nHost: a\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n0\\r\\nA: b\\r\\n\\r\\n");
    assert_eq!(count("req_trailer", 0), 1);
    assert_eq!(s, HtpStreamState::STOP);
}
'''),
]
