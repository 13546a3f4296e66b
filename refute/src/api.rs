//! Access to the code under test. With the `hook` feature the private items
//! exposed by `--cfg haproxy_verif` are called directly; without it the same
//! questions are asked through the public API only.

use crate::spec;
use haproxy_spop::{Error, Frame, Framer, Typed};

pub const HOOK: bool = cfg!(feature = "hook");
const BIG: usize = 1 << 21;

fn now<F: std::future::Future>(f: F) -> F::Output {
    use futures::FutureExt;
    f.now_or_never()
        .expect("reading from or writing to memory must not block")
}

/// Encode a frame through the public framer; the 4-byte prefix is checked and removed.
pub fn enc_frame_public(f: &Frame) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = vec![];
    let n = now(Framer::new(BIG).write_frame(&mut out, f.clone()))
        .map_err(|e| format!("write_frame failed: {e:?}"))?;
    if n != out.len() {
        return Err(format!("write_frame returned {n}, wrote {}", out.len()));
    }
    if out.len() < 4 || out[..4] != ((out.len() - 4) as u32).to_be_bytes() {
        return Err(format!("bad length prefix: {}", crate::hex(&out)));
    }
    Ok(out[4..].to_vec())
}

pub fn dec_frame_public(b: &[u8]) -> Result<Frame, Error> {
    let s = spec::on_stream(b);
    let mut r = &s[..];
    now(Framer::new(b.len()).read_frame(&mut r))
}

#[cfg(feature = "hook")]
mod imp {
    use super::*;
    use haproxy_spop::verif::{data, frame};

    pub fn enc_frame(f: &Frame) -> Result<Vec<u8>, String> {
        use frame::BufMutExt;
        let mut v = vec![];
        v.put_frame(f.clone());
        Ok(v)
    }

    pub fn dec_frame(b: &[u8]) -> Result<Frame, Error> {
        use frame::BufExt;
        let mut b = b;
        b.get_frame()
    }

    pub fn enc_typed(v: &Typed) -> Result<(Vec<u8>, Option<usize>), String> {
        use data::BufMutExt;
        let mut b = vec![];
        let n = b.put_typed(v.clone());
        Ok((b, Some(n)))
    }

    /// Value and number of bytes consumed.
    pub fn dec_typed(b: &[u8]) -> Option<(Typed, Option<usize>)> {
        use data::BufExt;
        let mut r = b;
        let v = r.typed()?;
        Some((v, Some(b.len() - r.len())))
    }

    /// Through a buffer in two pieces.
    pub fn dec_typed_split(b: &[u8], at: usize) -> Option<(Typed, Option<usize>)> {
        use bytes::Buf;
        use data::BufExt;
        let (x, y) = b.split_at(at);
        let mut r = x.chain(y);
        let v = r.typed()?;
        Some((v, Some(b.len() - r.remaining())))
    }

    pub fn dec_string(b: &[u8]) -> Option<(String, Option<usize>)> {
        use data::BufExt;
        let mut r = b;
        let v = r.string()?;
        Some((v, Some(b.len() - r.len())))
    }

    pub fn precise() -> bool {
        true
    }
}

#[cfg(not(feature = "hook"))]
mod imp {
    use super::*;
    use haproxy_spop::{Action, Scope};

    pub fn enc_frame(f: &Frame) -> Result<Vec<u8>, String> {
        enc_frame_public(f)
    }

    pub fn dec_frame(b: &[u8]) -> Result<Frame, Error> {
        dec_frame_public(b)
    }

    fn prefix() -> Vec<u8> {
        let mut v = vec![];
        spec::enc_header(103, 1, 1, 1, &mut v);
        v.extend([1, 3, 0, 1, b'x']);
        v
    }

    pub fn enc_typed(v: &Typed) -> Result<(Vec<u8>, Option<usize>), String> {
        let b = enc_frame_public(&Frame::ack(
            1,
            1,
            [Action::set_var(Scope::Process, "x", v.clone())],
        ))?;
        let p = prefix();
        if !b.starts_with(&p) {
            return Err(format!("ACK starts with {}", crate::hex(&b)));
        }
        Ok((b[p.len()..].to_vec(), None))
    }

    pub fn dec_typed(b: &[u8]) -> Option<(Typed, Option<usize>)> {
        // a marker action after the value shows where it ends
        for cut in [Some(b.len()), spec::R::new(b).typed_len()] {
            let Some(cut) = cut else { continue };
            let mut f = prefix();
            f.extend(&b[..cut]);
            f.extend([2, 2, 4, 3, b'e', b'n', b'd']);
            if let Ok(Frame::AgentAck(a)) = dec_frame_public(&f) {
                if let [Action::SetVar { value, .. }, Action::UnsetVar { name, .. }] =
                    &a.actions[..]
                {
                    if name == "end" {
                        return Some((value.clone(), Some(cut)));
                    }
                }
            }
        }
        None
    }

    pub fn dec_typed_split(b: &[u8], _: usize) -> Option<(Typed, Option<usize>)> {
        dec_typed(b)
    }

    pub fn dec_string(b: &[u8]) -> Option<(String, Option<usize>)> {
        let mut t = vec![8];
        t.extend_from_slice(b);
        match dec_typed(&t)? {
            (Typed::String(s), n) => Some((s, n.map(|n| n - 1))),
            _ => None,
        }
    }

    pub fn precise() -> bool {
        false
    }
}

pub use imp::*;
