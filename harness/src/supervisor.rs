//! Runs a property in a child process. If the code under test brings the process down (stack
//! overflow, abort, out of bounds access in unsafe code), takes all of the memory, or does not come
//! to an end, the case that does so is found, made smaller and saved.

use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

use crate::driver::{self, Replay};

type Shrink = dyn Fn(&Replay, u64, &dyn Fn(&Replay) -> bool) -> Option<Replay>;

/// Memory (resident) that a whole run or a single case may use, in bytes. The heaviest run on the
/// unchanged tree needs 6 GB, with eight cases at the same time.
const RUN_MEMORY: u64 = 18 << 30;
const CASE_MEMORY: u64 = 7 << 30;
/// A case that has not ended after the time in driver.rs (60 s) is evaluated again, alone, in a
/// process of its own. The slowest cases need 5 s. If it does not end within this time it never does.
const ALONE: Duration = Duration::from_secs(240);

#[derive(PartialEq)]
enum End {
    Code(i32),
    Signal(i32),
    Timeout,
    Memory,
    /// this case does not come to an end
    Hang(PathBuf),
}

impl End {
    fn crashed(&self) -> bool {
        match self {
            End::Signal(s) => [
                libc::SIGSEGV,
                libc::SIGABRT,
                libc::SIGBUS,
                libc::SIGILL,
                libc::SIGFPE,
                libc::SIGTRAP,
            ]
            .contains(s),
            End::Memory => true,
            _ => false,
        }
    }
    fn message(&self) -> String {
        match self {
            End::Signal(s) => format!("the process is brought down by signal {}", s),
            End::Memory => format!("the process uses more than {} GB of memory", CASE_MEMORY >> 30),
            End::Timeout | End::Hang(_) => "the case does not come to an end".to_string(),
            End::Code(_) => "violated".to_string(),
        }
    }
}

fn end_of(s: ExitStatus) -> End {
    match s.code() {
        Some(c) => End::Code(c),
        None => End::Signal(s.signal().unwrap_or(0)),
    }
}

fn resident(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/statm", pid))
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

fn start(args: &[&str], quiet: bool, env: &[(&str, &Path)]) -> Option<Child> {
    let mut cmd = Command::new(std::env::current_exe().expect("no path of the executable"));
    cmd.args(args);
    cmd.env("FPV_SCRATCH", driver::scratch());
    for (k, v) in env {
        cmd.env(k, v);
    }
    if quiet {
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
    }
    driver::ends_with_parent(&mut cmd)
        .spawn()
        .map_err(|e| eprintln!("error: cannot start a child process: {}", e))
        .ok()
}

fn stop(child: &mut Child) {
    let _ = child.kill();
    let _ = child.wait();
}

/// Evaluates one saved case in a process of its own.
fn alone(file: &str, limit: Duration, quiet: bool) -> End {
    let Some(mut child) = start(&["replay-here", file], quiet, &[]) else {
        return End::Code(2);
    };
    let begin = Instant::now();
    let mut pause = 1;
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return end_of(s),
            Ok(None) => {}
            Err(_) => return End::Code(2),
        }
        let e = if resident(child.id()) > CASE_MEMORY {
            Some(End::Memory)
        } else if begin.elapsed() > limit {
            Some(End::Timeout)
        } else {
            None
        };
        if let Some(e) = e {
            stop(&mut child);
            return e;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause + 1).min(20);
    }
}

/// Runs all strata of a property.
fn explore(id: &str, trace: Option<&Path>, provisional: &Path, limit: Duration) -> End {
    let _ = std::fs::remove_dir_all(provisional);
    std::fs::create_dir_all(provisional).expect("cannot create a directory");
    let mut env = vec![("FPV_PROVISIONAL", provisional)];
    if let Some(d) = trace {
        env.push(("FPV_TRACE", d));
    }
    let Some(mut child) = start(&["run", id], false, &env) else {
        return End::Code(2);
    };
    let begin = Instant::now();
    let mut failing: Option<Instant> = None;
    let mut suspects = 0;
    let mut suspect: Option<std::thread::JoinHandle<(PathBuf, End)>> = None;
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return end_of(s),
            Ok(None) => {}
            Err(e) => {
                eprintln!("error: waiting failed: {}", e);
                return End::Code(2);
            }
        }
        if failing.is_none() && provisional_case(provisional).is_some() {
            failing = Some(Instant::now());
        }
        // making the failing case smaller takes 20 s and one case at most, unless that case hangs
        let hangs = failing.is_some_and(|b| b.elapsed() > Duration::from_secs(90));
        if hangs || begin.elapsed() > limit {
            stop(&mut child);
            return End::Timeout;
        }
        if resident(child.id()) > RUN_MEMORY {
            stop(&mut child);
            return End::Memory;
        }
        if suspect.as_ref().is_some_and(|s| s.is_finished()) {
            match suspect.take().unwrap().join() {
                Ok((f, End::Timeout)) if failing.is_none() => {
                    stop(&mut child);
                    return End::Hang(f);
                }
                // it was only slow
                _ => {}
            }
        }
        if suspect.is_none() && failing.is_none() {
            let f = provisional.join(format!("slow-{}.json", suspects));
            if f.exists() {
                suspects += 1;
                suspect = Some(std::thread::spawn(move || {
                    let e = alone(&f.to_string_lossy(), ALONE, true);
                    (f, e)
                }));
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn load(f: &Path) -> Option<Replay> {
    let s = std::fs::read_to_string(f).ok()?;
    serde_json::from_str(&s).ok()
}

fn provisional_case(dir: &Path) -> Option<Replay> {
    (0..driver::WORKERS).find_map(|w| load(&dir.join(format!("{}.json", w))))
}

fn report(id: &str, r: &Replay, message: &str, begin: Instant) -> i32 {
    let saved = driver::write_replay(id, &r.stratum, message, &r.case);
    driver::write_crash_evidence(id, message, begin.elapsed().as_secs_f64());
    println!("{}: {} (stratum {})", id, message, r.stratum);
    println!("VIOLATION property={} replay={}", id, saved.display());
    1
}

/// The run did not come to its end, but it had found a failing case before.
fn report_provisional(id: &str, provisional: &Path, begin: Instant) -> Option<i32> {
    let r = provisional_case(provisional)?;
    Some(report(id, &r, &r.message, begin))
}

/// A smaller case that ends in the same way, if one is found in a minute.
fn smaller(r: Replay, end: &End, shrink: &Shrink) -> Replay {
    let file = driver::scratch().join("candidate.json");
    let path = file.to_string_lossy().into_owned();
    let ends_like_this = |c: &Replay, limit: u64| {
        std::fs::write(&file, serde_json::to_string(c).unwrap()).is_ok() && {
            let e = alone(&path, Duration::from_secs(limit), true);
            match end {
                End::Hang(_) => e == End::Timeout,
                _ => e.crashed(),
            }
        }
    };
    let (seconds, each, sure) = match end {
        End::Hang(_) => (60, 4, 40),
        _ => (30, 20, 30),
    };
    match shrink(&r, seconds, &|c| ends_like_this(c, each)) {
        Some(s) if ends_like_this(&s, sure) => s,
        _ => r,
    }
}

fn limit() -> Duration {
    let s = std::env::var("FPV_TIME_LIMIT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(match driver::tier() {
            driver::Tier::Quick => 780,
            driver::Tier::Thorough => 6 * 3600,
        });
    Duration::from_secs(s)
}

/// exit code of the check
pub fn check(id: &str, shrink: &Shrink) -> i32 {
    let code = do_check(id, shrink);
    driver::remove_scratch();
    code
}

fn do_check(id: &str, shrink: &Shrink) -> i32 {
    let begin = Instant::now();
    let provisional = driver::scratch().join("provisional");
    let end = explore(id, None, &provisional, limit());
    match &end {
        End::Code(c) if *c == 0 || *c == 1 => return *c,
        End::Code(c) => {
            eprintln!("error: the run of {} ended with exit code {}", id, c);
            return 2;
        }
        End::Hang(f) => {
            if let Some(r) = load(f) {
                println!("{}: a case does not come to an end, making it smaller", id);
                let r = smaller(r, &end, shrink);
                return report(id, &r, &end.message(), begin);
            }
            return 3;
        }
        _ => {}
    }
    if let Some(c) = report_provisional(id, &provisional, begin) {
        return c;
    }
    if !end.crashed() {
        match end {
            End::Signal(s) => eprintln!("error: the run of {} was ended by signal {}", id, s),
            _ => eprintln!("error: the run of {} has not finished in time: inconclusive", id),
        }
        return 3;
    }
    println!("{}: {}, looking for the case", id, end.message());
    let dir = driver::scratch().join("trace");
    std::fs::create_dir_all(&dir).expect("cannot create a directory");
    let left = limit().saturating_sub(begin.elapsed());
    match explore(id, Some(&dir), &provisional, left) {
        End::Code(1) => return 1,
        e if e.crashed() => {}
        _ => {
            if let Some(c) = report_provisional(id, &provisional, begin) {
                return c;
            }
            eprintln!("error: {} crashed, but not when it was repeated", id);
            return 3;
        }
    }
    if let Some(c) = report_provisional(id, &provisional, begin) {
        return c;
    }
    for worker in 0..driver::WORKERS {
        let f = dir.join(format!("{}.json", worker));
        let Some(r) = load(&f) else { continue };
        let left = limit().saturating_sub(begin.elapsed()).min(ALONE);
        let e = alone(&f.to_string_lossy(), left, true);
        if e.crashed() {
            let r = smaller(r, &e, shrink);
            return report(id, &r, &e.message(), begin);
        }
        if e == End::Code(1) {
            return report(id, &r, &e.message(), begin);
        }
    }
    eprintln!("error: {} crashed, but none of the saved cases does on its own", id);
    3
}

pub fn replay(path: &str) -> i32 {
    let e = alone(path, ALONE, false);
    let code = match &e {
        End::Code(c) => *c,
        End::Signal(s) if !e.crashed() => {
            eprintln!("error: ended by signal {}", s);
            3
        }
        e => {
            println!("{}", e.message());
            let id = load(Path::new(path)).map(|r| r.property).unwrap_or_default();
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    };
    driver::remove_scratch();
    code
}
