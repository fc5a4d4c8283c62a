//! Client for the reference runtimes in /verif/lua.

use std::io::{BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Vm {
    path: PathBuf,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    served: u32,
}

pub enum Fail {
    /// The runtime itself died: a sanitizer or assertion of the VM fired.
    Crash(String),
    /// Something is wrong with the harness.
    Harness(String),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Run {
    pub status: String,
    pub trace: String,
    pub lines: String,
    pub globals: Vec<String>,
    pub meta: String,
    pub used: u64,
}

impl Run {
    pub fn exhausted(&self) -> bool {
        self.status == "budget" || self.status == "memory" || self.meta.contains("#over 1")
    }

    /// Not comparable: recursion limits and such depend on the stack usage.
    pub fn overflow(&self) -> bool {
        self.status.contains("stack overflow")
            || self.trace.contains("stack overflow")
            || self.globals.iter().any(|g| g.contains("stack overflow"))
            || self.status.contains("not enough memory")
            || self.trace.contains("not enough memory")
            || self.trace.contains("vp: budget")
    }
}

#[derive(Clone, Copy, Default)]
pub struct RunOpts {
    pub fpf: u64,
    pub no_arg_n: bool,
    pub lines: bool,
    pub locals: bool,
    pub budget: u64,
    pub memory: u64,
}

impl Vm {
    pub fn new(path: PathBuf) -> Self {
        Self { path, child: None, served: 0 }
    }

    fn start(&mut self) -> Result<(), Fail> {
        if self.child.is_some() && self.served < 3000 {
            return Ok(());
        }
        self.stop();
        let mut child = Command::new(&self.path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Fail::Harness(format!("{}: {e}", self.path.display())))?;
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        self.child = Some((child, stdin, stdout));
        self.served = 0;
        Ok(())
    }

    pub fn stop(&mut self) {
        if let Some((mut child, stdin, stdout)) = self.child.take() {
            drop(stdin);
            drop(stdout);
            let _ = child.kill();
            let _ = child.wait();
        }
    }

    fn request(&mut self, op: u8, payload: &[&[u8]]) -> Result<(u8, Vec<u8>), Fail> {
        self.start()?;
        self.served += 1;
        let (_, stdin, stdout) = self.child.as_mut().unwrap();
        let mut attempt = || -> std::io::Result<(u8, Vec<u8>)> {
            let len: usize = payload.iter().map(|p| p.len()).sum();
            let mut message = Vec::with_capacity(len + 5);
            message.push(op);
            message.extend((len as u32).to_le_bytes());
            payload.iter().for_each(|p| message.extend_from_slice(p));
            stdin.write_all(&message)?;
            stdin.flush()?;
            let mut head = [0u8; 5];
            stdout.read_exact(&mut head)?;
            let mut body = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
            stdout.read_exact(&mut body)?;
            Ok((head[0], body))
        };
        match attempt() {
            Ok(r) => Ok(r),
            Err(e) => {
                let (mut child, stdin, stdout) = self.child.take().unwrap();
                drop(stdin);
                drop(stdout);
                let mut err = String::new();
                let _ = child.stderr.take().unwrap().take(20000).read_to_string(&mut err);
                let status = child.wait();
                use std::os::unix::process::ExitStatusExt;
                match status {
                    // Ended from the outside, most likely because memory ran out.
                    Ok(s) if s.signal() == Some(9) => Err(Fail::Harness(format!("runtime was killed: {e}"))),
                    s => Err(Fail::Crash(format!("{s:?}: {}", err.chars().take(3000).collect::<String>()))),
                }
            }
        }
    }

    pub fn compile(&mut self, fpf: u64, strip: bool, source: &[u8]) -> Result<Result<Vec<u8>, String>, Fail> {
        let (status, body) = self.request(b'C', &[&(fpf as u32).to_le_bytes(), &(strip as u32).to_le_bytes(), source])?;
        Ok(match status {
            0 => Ok(body),
            _ => Err(String::from_utf8_lossy(&body).into_owned()),
        })
    }

    pub fn load(&mut self, fpf: u64, chunk: &[u8]) -> Result<Result<(), String>, Fail> {
        let (status, body) = self.request(b'V', &[&(fpf as u32).to_le_bytes(), chunk])?;
        Ok(match status {
            0 => Ok(()),
            _ => Err(String::from_utf8_lossy(&body).into_owned()),
        })
    }

    pub fn run(&mut self, opts: RunOpts, chunk: &[u8]) -> Result<Run, Fail> {
        let flags = opts.no_arg_n as u32 | (opts.lines as u32) << 1 | (opts.locals as u32) << 2;
        let (_, body) = self.request(
            b'R',
            &[
                &(opts.fpf as u32).to_le_bytes(),
                &flags.to_le_bytes(),
                &opts.budget.to_le_bytes(),
                &opts.memory.to_le_bytes(),
                chunk,
            ],
        )?;
        let mut rest = &body[..];
        let mut sections = Vec::new();
        while rest.len() >= 4 {
            let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
            if rest.len() < 4 + n {
                return Err(Fail::Harness("short answer".into()));
            }
            sections.push(String::from_utf8_lossy(&rest[4..4 + n]).into_owned());
            rest = &rest[4 + n..];
        }
        if sections.len() != 5 {
            return Err(Fail::Harness(format!("{} sections", sections.len())));
        }
        let used = sections[4].split("#used ").nth(1).and_then(|s| s.trim().parse().ok()).unwrap_or(0);
        let mut s = sections.into_iter();
        Ok(Run {
            status: s.next().unwrap(),
            trace: s.next().unwrap(),
            lines: s.next().unwrap(),
            globals: s.next().unwrap().lines().map(|l| l.to_owned()).collect(),
            meta: s.next().unwrap(),
            used,
        })
    }
}

impl Drop for Vm {
    fn drop(&mut self) {
        self.stop();
    }
}
