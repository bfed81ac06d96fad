//! Probes for the recorded findings (see /verif/known-findings.txt).

/// Runs a closure in a child process and says whether it was killed.
fn dies(f: fn()) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let core = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(f);
            let ok = t.map(|t| t.join().is_ok()).unwrap_or(false);
            libc::_exit(if ok { 0 } else { 1 });
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        !libc::WIFEXITED(status) || libc::WEXITSTATUS(status) != 0
    }
}

pub fn deep_nesting() -> (String, bool) {
    (
        "an expression nested 100000 levels deep (`a = [[[…`) overflows the stack instead of being rejected".into(),
        dies(|| {
            let text = format!("a = {}", "[".repeat(100_000));
            let _ = text.parse::<hcl_edit::structure::Body>();
        }),
    )
}
