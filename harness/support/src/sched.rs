//! Histories and schedules: calls from several threads in a given order, or
//! stopped and released at the points where user code runs.
use super::*;
use std::cell::Cell;
use std::io::Write;
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::{Duration, Instant};

type Run = fn(usize, usize, &str, &V) -> String;

// ---- gates ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    At(&'static str),
    Done,
}
struct Ctl {
    st: Vec<St>,
    permit: Vec<bool>,
}
static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

/// Waits until the scheduler lets this thread go on
pub fn gate(kind: &'static str) {
    let Some(me) = ME.with(|m| m.get()) else { return };
    let mut g = CTL.lock().unwrap();
    g.as_mut().unwrap().st[me] = St::At(kind);
    CV.notify_all();
    while !g.as_ref().unwrap().permit[me] {
        g = CV.wait(g).unwrap();
    }
    let c = g.as_mut().unwrap();
    c.permit[me] = false;
    c.st[me] = St::Running;
}

/// A field type that stops where it is parsed
pub struct Gt<T>(pub T);
impl<T: FromStr> FromStr for Gt<T> {
    type Err = T::Err;
    fn from_str(s: &str) -> Result<Self, T::Err> {
        gate("field");
        s.parse().map(Gt)
    }
}
impl<T: FromStrRegex> FromStrRegex for Gt<T> {
    fn from_str_regex() -> String {
        gate("rx");
        T::from_str_regex()
    }
}
impl<T: Display> Display for Gt<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: J> J for Gt<T> {
    fn j(&self, o: &mut String) {
        self.0.j(o)
    }
    fn from_j(v: &V) -> Self {
        Gt(T::from_j(v))
    }
}
/// `Num` with stops
#[derive(Clone, Copy)]
pub struct GNum;
impl<T: Display> DisplayFormat<T> for GNum {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        write!(f, "{v}")
    }
}
impl<T: FromStr> FromStrFormat<T> for GNum {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        gate("field");
        s.parse()
    }
    fn regex_pattern(&self) -> String {
        gate("rx");
        "[0-9]+".into()
    }
}
/// A text whose conversion panics for "boom"
pub struct Boom(pub String);
impl FromStr for Boom {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        assert!(s != "boom");
        Ok(Boom(s.into()))
    }
}
impl Display for Boom {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl J for Boom {
    fn j(&self, o: &mut String) {
        self.0.j(o)
    }
    fn from_j(v: &V) -> Self {
        Boom(String::from_j(v))
    }
}
/// A field that is converted on another thread, which first parses `T` itself
pub struct Away<T>(pub T);
impl<T: FromStr + Send + 'static> FromStr for Away<T>
where
    T::Err: Send,
{
    type Err = T::Err;
    fn from_str(s: &str) -> Result<Self, T::Err> {
        let s = s.to_string();
        std::thread::spawn(move || s.parse::<T>()).join().unwrap().map(Away)
    }
}
impl<T: Display> Display for Away<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: J> J for Away<T> {
    fn j(&self, o: &mut String) {
        self.0.j(o)
    }
    fn from_j(v: &V) -> Self {
        Away(T::from_j(v))
    }
}

fn out(line: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// args: sched CASE SCRIPT SCHEDULE; the script is [[[root, text]..]..], the
/// schedule the threads (from 1) in the order they are let go on
pub fn scheduled(run: Run, args: &[String]) {
    let case: usize = args[0].parse().unwrap();
    let script = parse_json(&args[1]);
    let picks: Vec<usize> = parse_json(&args[2]).arr().iter().map(|x| x.num() as usize - 1).collect();
    let n = script.arr().len();
    *CTL.lock().unwrap() = Some(Ctl { st: vec![St::Running; n], permit: vec![false; n] });
    for t in 0..n {
        let calls = script.arr()[t].clone();
        std::thread::spawn(move || {
            ME.with(|m| m.set(Some(t)));
            for (i, c) in calls.arr().iter().enumerate() {
                gate("start");
                let c = c.arr();
                let r = run(case, c[0].num() as usize, "parse", &c[1]);
                out(&format!("[{t},{i},{r}]"));
            }
            let mut g = CTL.lock().unwrap();
            g.as_mut().unwrap().st[t] = St::Done;
            CV.notify_all();
        });
    }
    let limit = Duration::from_secs(20);
    // waits until the state satisfies f
    let wait = |f: &dyn Fn(&Ctl) -> bool| {
        let end = Instant::now() + limit;
        let mut g = CTL.lock().unwrap();
        while !f(g.as_ref().unwrap()) {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                let c = g.as_ref().unwrap();
                let who: Vec<String> = c.st.iter().map(|x| format!("{x:?}")).collect();
                out(&format!("\"stuck {}\"", who.join(" ").replace('"', "")));
                std::process::exit(0);
            }
            g = CV.wait_timeout(g, left).unwrap().0;
        }
    };
    let filling = |c: &Ctl, but: usize| c.st.iter().enumerate().any(|(i, s)| i != but && *s == St::At("rx"));
    wait(&|c| c.st.iter().all(|s| *s != St::Running));
    let release = |t: usize| {
        // a thread may only wait for one that is being asked for a pattern
        wait(&|c| c.st[t] != St::Running || filling(c, t));
        {
            let mut g = CTL.lock().unwrap();
            let c = g.as_mut().unwrap();
            if !matches!(c.st[t], St::At(_)) {
                return;
            }
            c.permit[t] = true;
            c.st[t] = St::Running;
            CV.notify_all();
        }
        wait(&|c| c.st[t] != St::Running || filling(c, t));
    };
    for t in picks {
        release(t);
    }
    loop {
        wait(&|c| c.st.iter().all(|s| *s == St::Done) || c.st.iter().any(|s| matches!(s, St::At(_))));
        let next = {
            let g = CTL.lock().unwrap();
            let c = g.as_ref().unwrap();
            c.st.iter().position(|s| *s == St::At("rx")).or(c.st.iter().position(|s| matches!(s, St::At(_))))
        };
        match next {
            Some(t) => release(t),
            None => break,
        }
    }
    out("\"end\"");
}

/// args: hist FILE LOCKSTEP; lines [thread, id, case, root, op, arg]
pub fn history(run: Run, args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let lockstep = args[1] == "1";
    let mut per: Vec<Vec<V>> = vec![];
    for line in text.lines() {
        let v = parse_json(line);
        let t = v.arr()[0].num() as usize;
        while per.len() <= t {
            per.push(vec![]);
        }
        per[t].push(v);
    }
    let b = Arc::new(Barrier::new(per.len()));
    let mut hs = vec![];
    for ops in per {
        let b = b.clone();
        hs.push(std::thread::spawn(move || {
            b.wait();
            for v in &ops {
                if lockstep {
                    b.wait();
                }
                let a = v.arr();
                let r = run(a[2].num() as usize, a[3].num() as usize, a[4].str(), &a[5]);
                out(&format!("[{},{}]", a[1].num(), r));
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
}
