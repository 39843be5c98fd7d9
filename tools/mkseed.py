#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS=[dict(id,property,edits=[(file,old,new)],needs,breaks,demo)].
Writes /verif/seeded/<id>/ (patch.diff made by applying the edits to /repo and reverting)."""
import sys, os, subprocess, json
V='/verif'
DEMO='''#!/bin/bash
# Builds demo.rs against /repo in a scratch directory and runs it (exit 0: property holds).
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp /repo/Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
htp = { path = "/repo", default-features = false }
time = "=0.3.20"
flate2 = "1.0"
X
cd "$T" && cargo run --offline -q --target-dir "$T/target" 2>&1
'''
PRE='''#![allow(unused)]
use htp::{bstr::Bstr, config::{Config, HtpServerPersonality}, connection_parser::{ConnectionParser, HtpStreamState, ParserData}, transaction::*, HtpStatus, util::HtpFlags};
use time::OffsetDateTime;
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<(String, usize, Vec<u8>)>> = RefCell::new(Vec::new()); }
fn log(n: &str, t: &Transaction, d: &[u8]) -> htp::error::Result<()> { LOG.with(|l| l.borrow_mut().push((n.into(), t.index, d.to_vec()))); Ok(()) }
fn ts() -> Option<OffsetDateTime> { Some(OffsetDateTime::UNIX_EPOCH) }
fn cfg() -> Config {
    let mut c = Config::default();
    c.register_request_start(|t: &mut Transaction| log("req_start", t, b""));
    c.register_request_line(|t: &mut Transaction| log("req_line", t, b""));
    c.register_request_headers(|t: &mut Transaction| log("req_headers", t, b""));
    c.register_request_trailer(|t: &mut Transaction| log("req_trailer", t, b""));
    c.register_request_complete(|t: &mut Transaction| log("req_complete", t, b""));
    c.register_response_start(|t: &mut Transaction| log("res_start", t, b""));
    c.register_response_line(|t: &mut Transaction| log("res_line", t, b""));
    c.register_response_headers(|t: &mut Transaction| log("res_headers", t, b""));
    c.register_response_trailer(|t: &mut Transaction| log("res_trailer", t, b""));
    c.register_response_complete(|t: &mut Transaction| log("res_complete", t, b""));
    c.register_transaction_complete(|t: &mut Transaction| log("tx_complete", t, b""));
    c.register_request_body_data(|t: &mut Transaction, d: &ParserData| log("req_body", t, d.as_slice()));
    c.register_response_body_data(|t: &mut Transaction, d: &ParserData| log("res_body", t, d.as_slice()));
    c
}
fn parser(c: Config) -> ConnectionParser { let mut p = ConnectionParser::new(c); p.open(None, None, None, None, ts()); p }
fn req(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.request_data(ParserData::from(d), ts()) }
fn res(p: &mut ConnectionParser, d: &[u8]) -> HtpStreamState { p.response_data(ParserData::from(d), ts()) }
fn count(n: &str, i: usize) -> usize { LOG.with(|l| l.borrow().iter().filter(|e| e.0 == n && e.1 == i).count()) }
fn body(n: &str, i: usize) -> Vec<u8> { LOG.with(|l| l.borrow().iter().filter(|e| e.0 == n && e.1 == i).flat_map(|e| e.2.clone()).collect()) }
'''
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain','-uno'],capture_output=True,text=True).stdout.strip()
    for s in ns['SEEDS']:
        if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
        d=os.path.join(V,'seeded',s['id']); os.makedirs(d,exist_ok=True)
        try:
            for f,o,n in s['edits']:
                p=os.path.join('/repo',f); t=open(p).read()
                assert t.count(o)==1,(s['id'],f,t.count(o),o)
                open(p,'w').write(t.replace(o,n))
            df=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        finally:
            subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
        open(d+'/patch.diff','w').write(df)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.rs','w').write(PRE+s['demo'])
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        print('wrote',s['id'])
main()
