//! Processes of their own for parts of a run: whatever state a process keeps is as
//! the operating system made it, whichever runs the worker has executed before.

use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, RawFd};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

pub struct Child {
    pid: i32,
    from: File,
    to: Option<File>,
}
fn two() -> (File, File) {
    let mut f: [RawFd; 2] = [0; 2];
    unsafe {
        assert!(pipe(f.as_mut_ptr()) == 0, "pipe");
        (File::from_raw_fd(f[0]), File::from_raw_fd(f[1]))
    }
}
pub fn put(f: &mut File, b: &[u8]) -> bool {
    let mut m = (b.len() as u32).to_le_bytes().to_vec();
    m.extend_from_slice(b);
    f.write_all(&m).is_ok()
}
pub fn get(f: &mut File) -> Option<Vec<u8>> {
    let mut n = [0u8; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    Some(b)
}
impl Child {
    /// Runs `f(input, output)` in a new process.
    pub fn new(f: impl FnOnce(File, File)) -> Child {
        let (cr, pw) = two();
        let (pr, cw) = two();
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                prctl(1, 9, 0, 0, 0); // dies with its parent
                drop((pr, pw));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cr, cw)));
                _exit(0);
            }
            Child { pid, from: pr, to: Some(pw) }
        }
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.to.as_mut().map_or(false, |f| put(f, b))
    }
    pub fn recv(&mut self) -> Option<Vec<u8>> {
        get(&mut self.from)
    }
}
impl Drop for Child {
    fn drop(&mut self) {
        self.to = None;
        let mut st = 0;
        unsafe {
            kill(self.pid, 9);
            waitpid(self.pid, &mut st, 0);
        }
    }
}
