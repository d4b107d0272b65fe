//! Reads cases (u32 length, borsh), answers each with its transcript (u32 length, borsh).
mod transcript;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap()
}

fn serve() {
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut l = [0u8; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut b).unwrap();
        let c: transcript::Tc = borsh::from_slice(&b).unwrap();
        let t = borsh::to_vec(&transcript::transcript(&c)).unwrap();
        o.write_all(&(t.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&t).unwrap();
        o.flush().unwrap();
    }
}
