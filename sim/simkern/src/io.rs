//! The process's standard streams, as seen by the transport threads.
use crate::{block_on, Cond};
use std::io::{self, BufReader, LineWriter, Read, Write};

pub struct SimStdin(());
pub struct SimStdout(());

/// Same buffering as `std::io::stdin().lock()`, with the buffer size decided by the run.
pub fn stdin() -> BufReader<SimStdin> {
    let cap = crate::lock().world.knobs.bufreader_cap;
    BufReader::with_capacity(cap.max(1), SimStdin(()))
}
/// Same buffering as `std::io::stdout().lock()`.
pub fn stdout() -> LineWriter<SimStdout> {
    LineWriter::new(SimStdout(()))
}

impl Read for SimStdin {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = block_on(Cond::Stdin);
        let w = &mut st.world;
        if w.knobs.eintr_pm > 0 && w.rng.chance(w.knobs.eintr_pm) {
            w.stats.eintr += 1;
            w.log(|| "reader: EINTR".into());
            return Err(io::ErrorKind::Interrupted.into());
        }
        if w.stdin.is_empty() {
            w.stats.stdin_eof += 1;
            w.log(|| "reader: EOF".into());
            return Ok(0);
        }
        let mut n = buf.len().min(w.stdin.len());
        if w.knobs.in_chunk > 0 && n > 1 {
            let m = w.rng.range(1, w.knobs.in_chunk as u64) as usize;
            if m < n {
                n = m;
                w.stats.short_reads += 1;
            }
        }
        for b in buf.iter_mut().take(n) {
            *b = w.stdin.pop_front().unwrap();
        }
        w.stats.bytes_in += n as u64;
        w.log(|| format!("reader: read {n} bytes"));
        Ok(n)
    }
}

impl Write for SimStdout {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut st = block_on(Cond::Stdout);
        let w = &mut st.world;
        if w.knobs.eintr_pm > 0 && w.rng.chance(w.knobs.eintr_pm) {
            w.stats.eintr += 1;
            w.log(|| "writer: EINTR".into());
            return Err(io::ErrorKind::Interrupted.into());
        }
        if w.stdout_broken {
            w.stats.epipe += 1;
            w.log(|| "writer: EPIPE".into());
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let space = w.knobs.stdout_cap - w.stdout.len();
        let mut n = buf.len().min(space);
        if w.knobs.out_chunk > 0 && n > 1 {
            n = n.min(w.rng.range(1, w.knobs.out_chunk as u64) as usize);
        }
        if n < buf.len() {
            w.stats.short_writes += 1;
        }
        w.stdout.extend(&buf[..n]);
        w.stats.bytes_out += n as u64;
        w.stats.last_out = w.stats.steps;
        w.log(|| format!("writer: wrote {n} of {} bytes", buf.len()));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
