//! Native replay: run harness functions of the native build on given input
//! bytes, one forked child per sample, and report what happened.
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::Write;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn pipe(fd: *mut c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(a: c_int) -> c_int;
    fn read(fd: c_int, p: *mut u8, n: usize) -> isize;
    fn poll(p: *mut PollFd, n: u64, t: c_int) -> c_int;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn _exit(c: c_int) -> !;
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    ev: i16,
    rev: i16,
}

unsafe fn sym(h: *mut c_void, n: &str) -> *mut c_void {
    let c = CString::new(n).unwrap();
    let p = dlsym(h, c.as_ptr());
    if p.is_null() {
        eprintln!("replay: no symbol {}", n);
        std::process::exit(2);
    }
    p
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

unsafe fn call(h: *mut c_void, f: &str, case: u32, b: &[u8]) {
    let init: extern "C" fn(*const u8, usize, u32) = std::mem::transmute(sym(h, "nsx_native_init"));
    let g: extern "C" fn() = std::mem::transmute(sym(h, f));
    init(b.as_ptr(), b.len(), case);
    g();
}

/// `nsx replay --so X --list FILE [--timeout S] [--direct 1]`
/// FILE: lines "fn case hex" (hex may be "-" for empty).
pub fn main(a: &[String]) -> i32 {
    let mut so = String::new();
    let mut list = String::new();
    let mut timeout = 20.0f64;
    let mut direct = false;
    let mut i = 0;
    while i + 1 < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--so" => so = v,
            "--list" => list = v,
            "--timeout" => timeout = v.parse().unwrap(),
            "--direct" => direct = v == "1",
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 2;
    }
    unsafe {
        let c = CString::new(so.as_str()).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
            return 2;
        }
        let text = std::fs::read_to_string(&list).expect("list");
        let out = std::io::stdout();
        let mut out = out.lock();
        for l in text.lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() < 3 {
                continue;
            }
            let case: u32 = p[1].parse().unwrap();
            let b = if p[2] == "-" { vec![] } else { unhex(p[2]) };
            if direct {
                // the records go nowhere; the exit status and valgrind's
                // report are what counts
                call(h, p[0], case, &b);
                continue;
            }
            let mut ro = [0i32; 2];
            let mut er = [0i32; 2];
            pipe(ro.as_mut_ptr());
            pipe(er.as_mut_ptr());
            let pid = fork();
            if pid == 0 {
                dup2(er[1], 2);
                dup2(ro[1], 19);
                for fd in [ro[0], ro[1], er[0], er[1]] {
                    if fd != 2 && fd != 19 {
                        close(fd);
                    }
                }
                dup2(19, 9);
                close(19);
                setrlimit(4, &[0, 0]); // no core
                setrlimit(9, &[8 << 30, 8 << 30]); // address space
                call(h, p[0], case, &b);
                _exit(0);
            }
            close(ro[1]);
            close(er[1]);
            let mut rec = vec![];
            let mut err = vec![];
            let mut open = [true, true];
            let t0 = std::time::Instant::now();
            let mut timed_out = false;
            while open[0] || open[1] {
                let left = timeout - t0.elapsed().as_secs_f64();
                if left <= 0.0 {
                    timed_out = true;
                    kill(pid, 9);
                    break;
                }
                let mut pf = [
                    PollFd { fd: if open[0] { ro[0] } else { -1 }, ev: 1, rev: 0 },
                    PollFd { fd: if open[1] { er[0] } else { -1 }, ev: 1, rev: 0 },
                ];
                poll(pf.as_mut_ptr(), 2, (left * 1000.0) as i32 + 1);
                for k in 0..2 {
                    if open[k] && pf[k].rev != 0 {
                        let mut buf = [0u8; 4096];
                        let n = read(pf[k].fd, buf.as_mut_ptr(), 4096);
                        if n <= 0 {
                            open[k] = false;
                        } else if k == 0 {
                            rec.extend_from_slice(&buf[..n as usize]);
                        } else if err.len() < 8192 {
                            err.extend_from_slice(&buf[..n as usize]);
                        }
                    }
                }
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            close(ro[0]);
            close(er[0]);
            let (code, sig) = if st & 0x7f == 0 { ((st >> 8) & 0xff, 0) } else { (-1, st & 0x7f) };
            let mut obs = vec![];
            let mut asrt = None;
            let mut cap = None;
            for r in rec.chunks_exact(9) {
                let v = u64::from_le_bytes(r[1..].try_into().unwrap());
                match r[0] {
                    b'O' => obs.push(format!("\"{:x}\"", v)),
                    b'A' => asrt = Some(v),
                    b'C' => cap = Some(v),
                    _ => {}
                }
            }
            let n = |x: Option<u64>| x.map_or("null".to_string(), |v| v.to_string());
            writeln!(
                out,
                "{{\"fn\":{},\"case\":{},\"bytes\":{},\"exit\":{},\"signal\":{},\"timeout\":{},\"obs\":[{}],\"assert\":{},\"cap\":{},\"stderr\":{}}}",
                crate::js(p[0]),
                case,
                crate::js(p[2]),
                code,
                sig,
                timed_out,
                obs.join(","),
                n(asrt),
                n(cap),
                crate::js(&String::from_utf8_lossy(&err))
            )
            .unwrap();
        }
    }
    0
}
