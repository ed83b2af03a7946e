//! C14: datagrams sent and received by the UDP client arrive complete, unchanged and in order.
use std::net::{SocketAddr, UdpSocket};
use std::sync::mpsc;
use std::time::Duration;
use trading_engine::communication::udp_client::UdpClient;
use vmon::{check, fail, must, Case, Rng, Run, R};

fn local() -> SocketAddr { "127.0.0.1:0".parse().unwrap() }
fn text(r: &mut Rng, k: usize) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 1023 + r.below(3), 2 => r.below(60_000), 3 => 65_507, 4 => 1400 + r.below(200), _ => r.below(1000) };
    let mut s = format!("{k}:");
    let wide = r.bool();
    while s.len() < n { s.push(if wide { *r.pick(&['가', 'é', '€', 'x', '😀', '\n', '\0']) } else { (b' ' + r.below(95) as u8) as char }); }
    while s.len() > 65_507 { s.pop(); }
    s
}
/// receive `n` messages; a client that waits for a datagram that was already delivered is unblocked and reported
fn receive(cl: &UdpClient, n: usize, wake: &UdpSocket, at: SocketAddr, per: &mut dyn FnMut(usize, String) -> R) -> R {
    std::thread::scope(|s| {
        let (tx, rx) = mpsc::channel();
        s.spawn(move || for _ in 0..n { if tx.send(cl.receive_response()).is_err() { break } });
        let mut res = Ok(());
        for i in 0..n {
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok(Ok(m)) => if res.is_ok() { res = per(i, m) },
                Ok(Err(e)) => { res = Err(vmon::Fail::new("receive-error", format!("message {i} of {n}: {e}"))); }
                Err(_) => {
                    for _ in 0..n { let _ = wake.send_to(b"wake", at); }
                    return Err(vmon::Fail::new("lost", format!("message {i} of {n} was delivered to the socket but never returned")));
                }
            }
        }
        res
    })
}
fn case(r: &mut Rng, c: &mut Case) -> R {
    let cl = must!(UdpClient::new(local()), "bind", "a UDP client on a free loopback port");
    let peers: Vec<UdpSocket> = (0..1 + r.below(3)).map(|_| UdpSocket::bind(local()).expect("harness socket")).collect();
    for p in &peers { p.set_read_timeout(Some(Duration::from_secs(20))).unwrap(); }
    let mut at: Option<SocketAddr> = None;
    let mut buf = vec![0u8; 70_000];
    for round in 0..1 + r.below(4) {
        // client -> peers: what was sent is what the addressed peer, and no other, gets
        for k in 0..1 + r.below(6) {
            let i = r.below(peers.len());
            let m = text(r, k);
            must!(cl.send_message(peers[i].local_addr().unwrap(), &m), "send", "a message of {} bytes", m.len());
            let (n, from) = match peers[i].recv_from(&mut buf) { Ok(x) => x, Err(e) => fail!("not-sent", "message of {} bytes never reached its peer: {e}", m.len()) };
            check!(&buf[..n] == m.as_bytes(), "sent-changed", "a sent message of {} bytes arrived as {n} bytes", m.len());
            check!(at.map_or(true, |a| a == from), "sent-from", "the client sends from {from}, before from {at:?}");
            at = Some(from);
            c.ev("messages_sent"); c.fold(m.len() as u64);
        }
        for p in &peers { p.set_nonblocking(true).unwrap(); let extra = p.recv_from(&mut buf).is_ok(); p.set_nonblocking(false).unwrap(); check!(!extra, "sent-twice", "a peer got a message not addressed to it, or twice (round {round})"); }
        // peers -> client: complete, unchanged, once each, in order
        let a = at.unwrap();
        let (mut q, mut bytes) = (vec![], 0);
        while q.len() < 1 + r.below(8) {
            let m = text(r, q.len());
            if q.len() > 0 && bytes + m.len() > 70_000 { break }
            bytes += m.len();
            let raw = if r.chance(0.15) && m.len() < 60_000 { let mut b = m.into_bytes(); b.push(0xff); let k = r.below(b.len()); b[k] = 0xc3; b } else { m.into_bytes() };
            let p = r.pick(&peers);
            p.send_to(&raw, a).expect("harness send");
            q.push(raw);
        }
        let w = &peers[0];
        let mut got = vec![];
        receive(&cl, q.len(), w, a, &mut |i, m| {
            let want = String::from_utf8_lossy(&q[i]);
            check!(m == want, "received-changed", "message {i} of {}: {} bytes were sent, {} bytes of text came back (expected {}), first difference at byte {:?}", q.len(), q[i].len(), m.len(), want.len(), m.bytes().zip(want.bytes()).position(|(x, y)| x != y));
            got.push(m.len()); Ok(())
        })?;
        for (g, s) in got.iter().zip(&q) { c.ev("messages_received"); if s.len() > 1024 { c.ev("received_longer_than_1024_bytes"); } if std::str::from_utf8(s).is_err() { c.ev("received_not_utf8"); } c.fold(*g as u64); }
    }
    c.nontrivial = true;
    Ok(())
}
pub fn c14(run: &mut Run) {
    run.rule("a case is one client exchanging messages of 2 to 65,507 bytes with 1-3 raw peer sockets over loopback, up to 8 outstanding at a time; every datagram is compared byte for byte with what was sent, in order; distinct by the message lengths");
    run.assume("loopback UDP with fewer bytes outstanding than the socket buffer: the network itself loses nothing");
    // the client announces itself on standard output in debug builds
    let (out, null) = unsafe { (libc::dup(1), libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY)) };
    unsafe { libc::dup2(null, 1) };
    run.family("exchanges", 1_500, 30_000, case);
    unsafe { libc::dup2(out, 1); libc::close(out); libc::close(null) };
    run.require("messages_sent", 1_000); run.require("messages_received", 1_000);
    run.require("received_longer_than_1024_bytes", 100); run.require("received_not_utf8", 20);
}
