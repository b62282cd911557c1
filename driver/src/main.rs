// Long lived driver: one JSON request per line on stdin, one JSON answer per line on stdout.
//
// {"cmd":"net", "config": "<json config>", "spy": null | capacity, "slow_us": n}
//      runs a network with Waiter, answers result, errors and everything the observer was told.
// {"cmd":"junction"|"buffer"|"regulator", ...} runs one component with a script of operations, see `component`.
use async_std::channel::{bounded, unbounded, Receiver, Sender};
use async_std::task;
use pipeawesome2::buffer::{Buffer, BufferSizeMessage};
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::junction::Junction;
use pipeawesome2::motion::{IOData, IODataWrapper, Pull, PullJourney, SpyMessage};
use pipeawesome2::regulator::Regulator;
use pipeawesome2::startable_control::StartableControl;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn port(p: OutputPort) -> &'static str {
    match p { OutputPort::Out => "out", OutputPort::Err => "err", OutputPort::Exit => "exit" }
}

fn net(v: &Value) -> Value {
    use pipeawesome2::config::Config;
    let cfg = v["config"].as_str().unwrap();
    let mut config = match pipeawesome2::config_io::parse_config_str(&pipeawesome2::config_io::ConfigFormat::Json, cfg) {
        Ok(c) => c,
        Err(e) => return json!({"config_error": e}),
    };
    let errs: Vec<String> = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect();
    if !errs.is_empty() { return json!({"config_error": errs.join(",")}); }
    let config = pipeawesome2::config_manip::connection_manipulation(config);
    let mut waiter = match pipeawesome2::waiter::get_waiter(config) {
        Ok(w) => w,
        Err(e) => return json!({"config_error": e}),
    };
    let ids = waiter.get_id_to_component_type_name().unwrap_or_default();
    let name = |id: &usize| match ids.get(id) {
        Some((t, n)) => json!([format!("{}", t), n]),
        None => json!(["?", format!("{}", id)]),
    };
    let live = Arc::new(Mutex::new(Live { t: HashMap::new(), messages: HashMap::new(), lines: HashMap::new(), last: Instant::now(), over: false }));
    let (spy, collector) = match v["spy"].as_u64() {
        None => (None, None),
        Some(cap) => {
            let (s, r): (Sender<SpyMessage>, Receiver<SpyMessage>) = if cap == 0 { unbounded() } else { bounded(cap as usize) };
            let us = v["slow_us"].as_u64().unwrap_or(0);
            let live = live.clone();
            let ids = ids.clone();
            (Some(s), Some(task::spawn(async move {
                let mut out = vec![];
                while let Ok(m) = r.recv().await {
                    live.lock().unwrap().told(&m, &ids);
                    if us > 0 { task::sleep(Duration::from_micros(us)).await; }
                    out.push(m);
                }
                out
            })))
        }
    };
    let steering = v["steer"].as_object().map(|o| {
        let (o, live) = (o.clone(), live.clone());
        std::thread::spawn(move || steer(&o, &live))
    });
    let res = task::block_on(async { waiter.start(spy).await });
    drop(waiter);
    live.lock().unwrap().over = true;
    let steered = steering.map(|t| t.join().unwrap_or_default());
    let spied = collector.map(|c| task::block_on(c)).unwrap_or_default();
    let head = v["head"].as_u64().unwrap_or(u64::MAX) as usize;
    let seen: Vec<Value> = spied.iter().map(|m| json!({
        "src": name(&m.src), "dst": name(&m.dst), "port": port(m.src_port),
        "msg": match &m.msg {
            IODataWrapper::IOData(IOData(d)) => json!(hex(&d[..d.len().min(head)])),
            IODataWrapper::Finished => json!("finished"),
            IODataWrapper::Skipped => json!("skipped"),
        }
    })).collect();
    match res {
        Ok(n) => json!({"ok": n, "spy": seen, "steered": steered}),
        Err(e) => json!({"err": e.into_iter().map(|w| pipeawesome2::bin_support::waiter_error_to_string(w, &ids)).collect::<Vec<String>>(), "spy": seen}),
    }
}

// What an observer knows while the network runs.
struct Live { t: HashMap<String, i64>, messages: HashMap<String, u64>, lines: HashMap<String, u64>, last: Instant, over: bool }

impl Live {
    fn told(&mut self, m: &SpyMessage, ids: &HashMap<usize, (pipeawesome2::config::ComponentType, String)>) {
        use pipeawesome2::config::ComponentType;
        self.last = Instant::now();
        let d = match &m.msg { IODataWrapper::IOData(IOData(d)) => d, _ => return };
        if let Some((ComponentType::Buffer, n)) = ids.get(&m.dst) { *self.t.entry(n.clone()).or_insert(0) += 1; }
        match ids.get(&m.src) {
            Some((ComponentType::Buffer, n)) => { *self.t.entry(n.clone()).or_insert(0) -= 1; }
            Some((ComponentType::Regulator, n)) => {
                *self.messages.entry(n.clone()).or_insert(0) += 1;
                *self.lines.entry(n.clone()).or_insert(0) += d.iter().filter(|b| **b == b'\n').count() as u64;
            }
            _ => (),
        }
    }
}

// Fills and empties buffers until they hold what they should, by letting programs in the network proceed: they wait for the files
// <prefix><number>. After each time lets the sources at the regulators send, and tells what passed. Operations:
//   ["move", buffer, target, prefix to fill, how many there are, prefix to empty, how many]
//   ["try", lines]: {"regs": {name: {"watch", "lo", "hi", "prefix", "n"}}}
//   ["all", prefix, how many]
fn steer(o: &serde_json::Map<String, Value>, live: &Arc<Mutex<Live>>) -> Vec<Value> {
    let mut next: HashMap<String, u64> = HashMap::new();
    let mut log = vec![];
    let release = |next: &mut HashMap<String, u64>, prefix: &str, k: u64, most: u64| {
        let i = next.entry(prefix.to_string()).or_insert(0);
        let to = (*i + k).min(most);
        let n = to - *i;
        while *i < to {
            std::fs::write(format!("{}{}", prefix, i), "").ok();
            *i += 1;
        }
        n
    };
    let over = || live.lock().unwrap().over;
    let quiet = |ms: u64, most: u64| {
        let began = Instant::now();
        while !over() && began.elapsed() < Duration::from_millis(most) {
            let since = live.lock().unwrap().last.max(began).elapsed();
            if since >= Duration::from_millis(ms) { return; }
            std::thread::sleep((Duration::from_millis(ms) - since).max(Duration::from_millis(1)));
        }
    };
    let began = Instant::now();
    let mut state: HashMap<String, &'static str> = HashMap::new();
    let mut passed_when_held: HashMap<String, u64> = HashMap::new();
    for op in o["ops"].as_array().unwrap() {
        if over() { break; }
        match op[0].as_str().unwrap() {
            "move" => {
                let (b, target) = (op[1].as_str().unwrap(), op[2].as_i64().unwrap());
                let t = |b: &str| live.lock().unwrap().t.get(b).cloned().unwrap_or(0);
                let mut filled = false;
                loop {
                    quiet(50, 2000);
                    let now = t(b);
                    let k = if now < target {
                        filled = true;
                        release(&mut next, op[3].as_str().unwrap(), (target - now) as u64, op[4].as_u64().unwrap())
                    } else if now > target {
                        release(&mut next, op[5].as_str().unwrap(), ((now - target) as u64 + 1) / 2, op[6].as_u64().unwrap())
                    } else { 0 };
                    if k == 0 || over() { break; }
                }
                let mut one = json!({});
                // both the buffer and the regulator look less often the longer nothing happens
                quiet(400 + (2.2 * (3.0 * began.elapsed().as_millis() as f64).powf(2.0 / 3.0)).min(6000.0) as u64, 10000);
                for (r, x) in o["regs"].as_object().unwrap() {
                    let watch: Vec<&str> = x["watch"].as_array().unwrap().iter().map(|w| w.as_str().unwrap()).collect();
                    let total: i64 = watch.iter().map(|w| t(w)).sum();
                    let k = watch.len() as i64;
                    let (lo, hi) = (x["lo"].as_i64().unwrap(), x["hi"].as_i64().unwrap());
                    let was = state.get(r).cloned().unwrap_or("open");
                    // what is known of the size may for a moment have been more, or when messages came in also less, than this
                    let is = if total >= hi + k && total > lo + k { "held" } else if total <= lo { "open" }
                        else if was == "held" && total > lo + k && !filled { was } else { "unknown" };
                    if is == "held" && (was != "held" || filled) {
                        passed_when_held.insert(r.clone(), live.lock().unwrap().messages.get(r).cloned().unwrap_or(0));
                    }
                    state.insert(r.clone(), is);
                    one[r] = json!({"holds": total, "state": is});
                }
                log.push(json!({"after": op.clone(), "regs": one}));
            }
            "try" => {
                let mut one = json!({});
                for (r, x) in o["regs"].as_object().unwrap() {
                    release(&mut next, x["prefix"].as_str().unwrap(), op[1].as_u64().unwrap(), x["n"].as_u64().unwrap());
                }
                for (r, x) in o["regs"].as_object().unwrap() {
                    let is = state.get(r).cloned().unwrap_or("open");
                    let sent = next[x["prefix"].as_str().unwrap()];
                    let lines = || live.lock().unwrap().lines.get(r).cloned().unwrap_or(0);
                    match is {
                        "open" => {
                            let began = Instant::now();
                            while !over() && lines() < sent && began.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(2)); }
                        }
                        "held" => quiet(150, 1500),
                        _ => (),
                    }
                    let m = live.lock().unwrap().messages.get(r).cloned().unwrap_or(0);
                    one[r] = json!({"state": is, "sent": sent, "passed": lines(),
                        "while_held": if is == "held" { m - passed_when_held.get(r).cloned().unwrap_or(0) } else { 0 }});
                }
                log.push(json!({"after": op.clone(), "regs": one}));
            }
            _ => { release(&mut next, op[1].as_str().unwrap(), u64::MAX >> 1, op[2].as_u64().unwrap()); }
        }
    }
    log
}

fn breakable(s: &str) -> Breakable {
    match s { "C" => Breakable::Consume, "F" => Breakable::Finish, _ => Breakable::Terminate }
}

fn payload(n: u64) -> Vec<u8> { n.to_string().into_bytes() }
fn unpayload(v: &[u8]) -> i64 { std::str::from_utf8(v).ok().and_then(|x| x.parse().ok()).unwrap_or(-1) }

// Give everything that can run the time to do so: until `f` stays the same for `ms`, at least.
async fn settle<F: Fn() -> Vec<usize>>(f: F, ms: u64) {
    let mut last = f();
    let mut since = Instant::now();
    while since.elapsed() < Duration::from_millis(ms) {
        task::sleep(Duration::from_millis(1)).await;
        let now = f();
        if now != last { last = now; since = Instant::now(); }
    }
}

const STUCK: Duration = Duration::from_secs(30);

// Messages are numbers, unique in a run. Script operations:
//   ["send", input, n]  ["sendn", input, n, k] (from n on k of them)  ["close", input]  ["recv"] (from output 0)  ["drop", output]
//   ["settle", ms]      ["accepted"] (how many messages wait on each input)  ["sizes"] (last reported sizes)
//   ["accept_all"] (wait until nothing waits on any input)
//   ["await_size", lo, hi]   ["pause"] ["resume"] (regulator)
// Outputs other than the first are read all the time. At the end of the script everything not dropped is read.
async fn component(v: &Value) -> Value {
    let kind = v["cmd"].as_str().unwrap().to_string();
    let inputs = v["inputs"].as_array().unwrap();
    let outputs = v["outputs"].as_array().unwrap();
    let size = v["size"].as_u64().unwrap() as usize;
    let mut senders: Vec<Option<Sender<IOData>>> = vec![];
    let mut rests: Vec<Receiver<IOData>> = vec![];
    let mut pulls: Vec<(Pull, isize)> = vec![];
    for (i, inp) in inputs.iter().enumerate() {
        let (s, r) = unbounded();
        rests.push(r.clone());
        senders.push(Some(s));
        pulls.push((Pull::Receiver(PullJourney { src: 100 + i, dst: 1 }, r), inp.as_i64().unwrap() as isize));
    }
    let (spy_s, spy_r) = unbounded();
    let spy = if v["spy"].as_bool().unwrap_or(false) { Some(spy_s) } else { drop(spy_s); None };
    let mut outs: Vec<Pull> = vec![];
    let mut monitors = vec![];
    let mut control = None;
    let handle = {
        macro_rules! wire { ($c:expr) => {{
            $c.set_stdout_size(size);
            for (i, o) in outputs.iter().enumerate() {
                outs.push($c.add_output(OutputPort::Out, breakable(o.as_str().unwrap()), 1, 200 + i).unwrap());
            }
            for (p, prio) in pulls { $c.add_input(p, prio).unwrap(); }
        }} }
        match kind.as_str() {
            "junction" => { let mut c = Junction::new(); wire!(c); task::spawn(async move { c.start(spy).await }) }
            "buffer" => {
                let mut c = Buffer::new();
                wire!(c);
                for _ in 0..v["monitors"].as_u64().unwrap_or(0) { monitors.push(c.add_buffer_size_monitor()); }
                task::spawn(async move { c.start(spy).await })
            }
            _ => {
                let mut c = Regulator::new();
                wire!(c);
                if v["control"].as_bool().unwrap_or(false) { control = Some(c.get_control()); }
                task::spawn(async move { c.start(spy).await })
            }
        }
    };
    let reported: Vec<Arc<Mutex<Vec<usize>>>> = monitors.iter().map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let monitor_tasks: Vec<_> = monitors.into_iter().zip(reported.iter().cloned()).map(|(m, rep)| {
        let us = v["monitor_us"].as_u64().unwrap_or(0);
        task::spawn(async move {
            while let Ok(BufferSizeMessage(n)) = m.recv().await {
                rep.lock().unwrap().push(n);
                if us > 0 { task::sleep(Duration::from_micros(us)).await; }
            }
        })
    }).collect();

    let mut out_rx: Vec<Option<Receiver<IOData>>> = outs.into_iter().map(|p| match p { Pull::Receiver(_, r) => Some(r), _ => None }).collect();
    let got: Vec<Arc<Mutex<Vec<i64>>>> = out_rx.iter().map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let mut readers = vec![];
    let mut stop: Vec<Option<Sender<()>>> = vec![None];
    for i in 1..out_rx.len() {
        let r = out_rx[i].take().unwrap();
        let g = got[i].clone();
        let (s, stop_r) = bounded::<()>(1);
        stop.push(Some(s));
        readers.push(task::spawn(async move {
            use futures::future::{select, Either};
            loop {
                let a = Box::pin(r.recv());
                let b = Box::pin(stop_r.recv());
                match select(a, b).await {
                    Either::Left((Ok(IOData(d)), _)) => g.lock().unwrap().push(unpayload(&d)),
                    _ => return,
                }
            }
        }));
    }
    let mut log: Vec<Value> = vec![];
    let mut stuck = false;
    for op in v["script"].as_array().unwrap() {
        let arg = |i: usize| op[i].as_u64().unwrap_or(0) as usize;
        let mut entry = Value::Null;
        match op[0].as_str().unwrap() {
            "send" => if let Some(s) = &senders[arg(1)] {
                entry = json!(s.try_send(IOData(payload(arg(2) as u64))).is_ok());
            },
            "sendn" => if let Some(s) = &senders[arg(1)] {
                entry = json!((arg(2)..arg(2) + arg(3)).all(|n| s.try_send(IOData(payload(n as u64))).is_ok()));
            },
            "close" => { senders[arg(1)].take().map(|s| s.close()); }
            "recv" => if let Some(r) = &out_rx[0] {
                match async_std::future::timeout(STUCK, r.recv()).await {
                    Ok(Ok(IOData(d))) => { let n = unpayload(&d); got[0].lock().unwrap().push(n); entry = json!(n); }
                    Ok(Err(_)) => entry = json!("closed"),
                    Err(_) => { entry = json!("stuck"); stuck = true; }
                }
            },
            "drop" => {
                let o = arg(1);
                if o == 0 { out_rx[0] = None; } else { stop[o].take(); }
            }
            "settle" => {
                let rs = rests.clone();
                let g = got.clone();
                let rep = reported.clone();
                let o = out_rx[0].clone();
                settle(move || {
                    let mut x: Vec<usize> = rs.iter().map(|r| r.len()).collect();
                    x.extend(g.iter().map(|m| m.lock().unwrap().len()));
                    x.extend(rep.iter().map(|m| m.lock().unwrap().len()));
                    x.extend(o.iter().map(|m| m.len()));
                    x
                }, arg(1) as u64).await;
            }
            "accepted" => entry = json!(rests.iter().map(|r| r.len()).collect::<Vec<_>>()),
            "accept_all" => {
                let mut begun = Instant::now();
                let mut last = 0;
                while rests.iter().any(|r| !r.is_empty()) && begun.elapsed() < STUCK {
                    task::sleep(Duration::from_micros(200)).await;
                    let n: usize = rests.iter().map(|r| r.len()).sum();
                    if n != last { last = n; begun = Instant::now(); }
                }
                entry = json!(rests.iter().map(|r| r.len()).collect::<Vec<_>>());
            }
            // Wait until all those watching a buffer were told of a size from LO to HI
            "await_size" => {
                let (lo, hi) = (arg(1), arg(2));
                let mut begun = Instant::now();
                let mut last = vec![];
                loop {
                    let x: Vec<usize> = reported.iter().map(|m| m.lock().unwrap().last().cloned().unwrap_or(0)).collect();
                    let fine = x.iter().all(|v| *v >= lo && *v <= hi);
                    if x != last { last = x.clone(); begun = Instant::now(); }
                    if fine || begun.elapsed() > STUCK { entry = json!([fine, x]); break; }
                    task::sleep(Duration::from_micros(200)).await;
                }
            }
            "sizes" => entry = json!(reported.iter().map(|m| { let m = m.lock().unwrap(); json!([m.len(), m.last()]) }).collect::<Vec<_>>()),
            "pause" => if let Some(c) = control.as_mut() { entry = json!(c.pause().await.is_ok()); },
            "resume" => if let Some(c) = control.as_mut() { entry = json!(c.resume().await.is_ok()); },
            "qlen" => entry = json!(out_rx[0].as_ref().map(|r| r.len())),
            _ => entry = json!("unknown op"),
        }
        log.push(entry);
        if stuck { break; }
    }
    for s in senders.iter_mut() { s.take().map(|s| s.close()); }
    if let Some(r) = &out_rx[0] {
        while !stuck {
            match async_std::future::timeout(STUCK, r.recv()).await {
                Ok(Ok(IOData(d))) => got[0].lock().unwrap().push(unpayload(&d)),
                Ok(Err(_)) => break,
                Err(_) => stuck = true,
            }
        }
    }
    drop(control);
    let result = if stuck { handle.cancel().await; json!("stuck") } else {
        let mut h = handle;
        match async_std::future::timeout(STUCK, &mut h).await {
            Ok(Ok(n)) => json!({"ok": n}),
            Ok(Err(e)) => json!({"err": format!("{}", e)}),
            Err(_) => { h.cancel().await; json!("stuck") }
        }
    };
    for r in readers { if async_std::future::timeout(STUCK, r).await.is_err() { stuck = true; } }
    for r in monitor_tasks { if async_std::future::timeout(STUCK, r).await.is_err() { stuck = true; } }
    let mut spied = vec![];
    while let Ok(m) = spy_r.try_recv() {
        spied.push(json!([m.dst, match m.msg { IODataWrapper::IOData(IOData(d)) => json!(unpayload(&d)), IODataWrapper::Finished => json!("finished"), _ => json!("skipped") }]));
    }
    json!({
        "log": log, "got": got.iter().map(|m| m.lock().unwrap().clone()).collect::<Vec<_>>(), "result": result, "stuck": stuck,
        "reported": reported.iter().map(|m| m.lock().unwrap().clone()).collect::<Vec<_>>(), "spy": spied,
    })
}

fn main() {
    // pa2driver REQUEST ANSWER: a single network, which may use stdin, stdout and stderr
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
        let r = net(&v);
        std::fs::write(&args[2], r.to_string()).unwrap();
        return;
    }
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match v["cmd"].as_str().unwrap() {
            "net" => net(&v),
            _ => task::block_on(component(&v)),
        }));
        let out = match r { Ok(x) => x, Err(_) => json!({"panic": true}) };
        let stdout = std::io::stdout();
        let mut o = stdout.lock();
        writeln!(o, "{}", out).unwrap();
        o.flush().unwrap();
    }
}
