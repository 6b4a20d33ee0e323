//! The monitors: for each property, a deterministic oracle over the observed calls of one case.
use crate::case::*;
use crate::codecs::Fam;
use crate::model::*;
use crate::toks::Rng;

pub const PANIC: u32 = 1;
pub const FID: u32 = 2;
pub const MAX: u32 = 4;
pub const ERR_MISSING: u32 = 8;
pub const ERR_FIELDS: u32 = 16;
pub const ERR_OUT: u32 = 32;
pub const ANY: u32 = 63;

pub type V = Result<(), String>;

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

impl<'m> Cx<'m> {
    /// Makes the call, records the event, and says in which ways the outcome deviates from the model.
    pub fn judge(&mut self, codec: usize, dir: Dir, input: &[u8], cap: usize, end: bool, off: u8) -> (u32, R, Exp) {
        let fam = self.codecs[codec].fam;
        let mut expb = std::mem::take(&mut self.exp);
        let exp = self.m.call(fam, dir, input, cap, end, &mut expb);
        let r = self.call(codec, dir, input, cap, end, off);
        let bits = self.deviations(fam, dir, input, end, &r, &exp, &expb);
        self.exp = expb;
        let ev = match (&r, exp.stop) {
            (_, _) if bits != 0 => 6,
            (R::Ok { .. }, Stop::Complete) => 0,
            (R::Ok { .. }, Stop::Full) => 1,
            (R::Ok { .. }, Stop::Pending) => 2,
            (R::Ok { .. }, Stop::Bad { .. }) => 3,
            (R::Err { .. }, Stop::Bad { tail: false, .. }) => 4,
            (R::Err { .. }, Stop::Bad { tail: true, .. }) => 5,
            _ => 6,
        };
        self.events[codec][dir as usize][ev] += 1;
        (bits, r, exp)
    }

    fn deviations(&self, fam: Fam, dir: Dir, input: &[u8], end: bool, r: &R, exp: &Exp, expb: &[u8]) -> u32 {
        match *r {
            R::Panic(_) => PANIC,
            R::Ok { n, len, .. } => {
                let out = self.out(len);
                if len > self.out_cap {
                    return FID;
                }
                if n == exp.n && out == expb {
                    if let Stop::Bad { tail, .. } = exp.stop {
                        // With less room than one unit can need, the error may wait for the next call; so may
                        // one at the very end of data that is not declared to be the end.
                        let no_room = exp.room < max_out(fam, dir);
                        let near_end = dir == Dir::Dec && !end && !tail && input.len() - exp.n < max_in(fam);
                        if !no_room && !near_end {
                            return ERR_MISSING | MAX;
                        }
                    }
                    return 0;
                }
                // Does it stop early but consistently?
                if n < exp.n {
                    let (mut p, mut o) = (0, 0);
                    while p < n {
                        match self.m.tok(fam, dir, input, p, end) {
                            Tok::Unit { len, n, .. } => {
                                p += len;
                                o += n;
                            }
                            _ => break,
                        }
                    }
                    if p == n && o == len && out == &expb[..o] {
                        return MAX;
                    }
                    return FID;
                }
                let mut b = FID;
                if n > exp.n && matches!(exp.stop, Stop::Bad { .. }) {
                    b |= ERR_MISSING;
                }
                if n > exp.n && exp.stop == Stop::Full {
                    b |= MAX;
                }
                b
            }
            R::Err { start, end: e, ch, written, invalid } => {
                let mut b = 0;
                match exp.stop {
                    Stop::Bad { len, ch: c, .. } if start == exp.n && e == exp.n + len && ch == c && invalid => {}
                    _ => b |= ERR_FIELDS,
                }
                if written != exp.out || self.out(written.min(self.cap_of())) != expb {
                    b |= ERR_OUT;
                    if b & ERR_FIELDS == 0 && written != exp.out {
                        b |= ERR_FIELDS;
                    }
                }
                b
            }
        }
    }
    fn cap_of(&self) -> usize {
        self.out_cap
    }

    pub fn explain(&self, bits: u32, case: &Case, input: &[u8], cap: usize, end: bool, r: &R, exp: &Exp) -> String {
        let names = ["panicked", "output is not the conversion of the consumed input", "did not convert what fits (or more than fits)",
            "missed a due error", "wrong error", "wrong output reported with the error"];
        let what: Vec<&str> = (0..6).filter(|i| bits >> i & 1 == 1).map(|i| names[i]).collect();
        let got = match r {
            R::Ok { n, len, .. } => format!("Ok(consumed {n}, {len} bytes {})", hex(self.out(*len))),
            x => format!("{x:?}"),
        };
        format!(
            "{} {}: {}\n  input[{}]={} cap={cap} end={end} off={}\n  observed {got}\n  expected consumed {} output[{}]={} then {:?}",
            self.codecs[case.codec].name, if case.dir == Dir::Enc { "encode" } else { "decode" }, what.join(", "),
            input.len(), hex(input), case.off, exp.n, exp.out, hex(&self.exp), exp.stop
        )
    }

    /// One call and, after each error, another one on what follows it.
    fn chain(&mut self, case: &Case, mask: u32) -> V {
        let mut pos = 0;
        for step in 0..64 {
            let input = &case.input[pos..];
            let (bits, r, exp) = self.judge(case.codec, case.dir, input, case.cap, case.end, case.off);
            if bits & mask != 0 {
                return Err(format!("call {step}: {}", self.explain(bits, case, input, case.cap, case.end, &r, &exp)));
            }
            self.nontrivial |= exp.units > 0 || exp.stop != Stop::Complete;
            match r {
                R::Err { start, end, .. } if start < end && end <= input.len() => {
                    pos += end;
                    if case.dir == Dir::Enc && std::str::from_utf8(&case.input[pos..]).is_err() {
                        return Ok(());
                    }
                }
                _ => return Ok(()),
            }
        }
        Ok(())
    }

    fn single(&mut self, case: &Case, mask: u32) -> V {
        let (bits, r, exp) = self.judge(case.codec, case.dir, &case.input, case.cap, case.end, case.off);
        self.nontrivial |= exp.units > 0 || exp.stop != Stop::Complete;
        if bits & mask != 0 {
            return Err(self.explain(bits, case, &case.input, case.cap, case.end, &r, &exp));
        }
        Ok(())
    }
}

fn desc(c: &Case, cx: &Cx) -> String {
    format!(
        "{} {} input[{}]={} cap={} end={} off={}",
        cx.codecs[c.codec].name,
        if c.dir == Dir::Enc { "encode" } else { "decode" },
        c.input.len(),
        hex(&c.input),
        c.cap,
        c.end,
        c.off
    )
}

/// What a whole stream came to.
#[derive(Default, PartialEq, Debug, Clone)]
pub struct Trace {
    pub out: Vec<u8>,
    /// (input from, input to, output offset, character)
    pub errs: Vec<(usize, usize, usize, char)>,
    pub calls: usize,
    pub splits: usize,
}

impl<'m> Cx<'m> {
    /// Runs a client loop: chunks arrive, unconsumed data is carried over, errors are skipped. With no buffer
    /// sizes, everything goes into one large buffer, continued behind each error.
    pub fn stream(&mut self, codec: usize, dir: Dir, input: &[u8], ends: &[usize], caps: &[usize], off: u8) -> Result<Trace, String> {
        let one = input.len() * 4 + 16;
        let (ib, mut ob, io, oo) = self.begin_stream(input, caps.iter().copied().max().unwrap_or(one), off);
        let r = self.stream_loop(codec, dir, &ib[io..], &mut ob[oo..], ends, caps);
        self.end_stream(ib, ob);
        r
    }
    fn stream_loop(&mut self, codec: usize, dir: Dir, input: &[u8], outb: &mut [u8], ends: &[usize], caps: &[usize]) -> Result<Trace, String> {
        let mut t = Trace::default();
        let mut ci = 0;
        let mut k = 0;
        let mut fed = ends[0];
        let mut pos = 0;
        let mut at = 0;
        let limit = 4 * (input.len() + ends.len()) + 64;
        loop {
            let end = k + 1 == ends.len();
            let cap = if caps.is_empty() { outb.len() - at } else { caps[ci % caps.len()] };
            ci += 1;
            t.calls += 1;
            if t.calls > limit {
                return Err(format!("stream of {} bytes not finished after {limit} calls (at {pos})", input.len()));
            }
            let data = &input[pos..fed];
            let r = if self.exact {
                self.call(codec, dir, data, cap, end, 0)
            } else {
                self.call_raw(codec, dir, data, &mut outb[at..at + cap], end)
            };
            let wrote = match r {
                R::Ok { len, .. } => len,
                R::Err { written, .. } => written,
                _ => 0,
            };
            if wrote > cap {
                return Err(format!("call at {pos}: {wrote} bytes written into {cap}"));
            }
            if self.exact {
                let o = self.out(wrote);
                t.out.extend_from_slice(o);
            } else {
                t.out.extend_from_slice(&outb[at..at + wrote]);
            }
            if caps.is_empty() {
                at += wrote;
            }
            let inside = |pos: usize| dir == Dir::Enc && input.len() > pos && input[pos] & 0xC0 == 0x80;
            match r {
                R::Ok { n, .. } => {
                    if n > data.len() {
                        return Err(format!("call at {pos}: consumed {n} of {} bytes", data.len()));
                    }
                    pos += n;
                    if inside(pos) {
                        return Err(format!("call at {}: consumed count {n} is inside a character", pos - n));
                    }
                    if pos == fed || (n == 0 && !end) {
                        if end {
                            return Ok(t);
                        }
                        if pos < fed {
                            t.splits += 1;
                        }
                        k += 1;
                        fed = ends[k];
                    } else if n == 0 {
                        return Err(format!("no progress at {pos} of {} with a {cap} byte buffer at the end of the input", input.len()));
                    }
                }
                R::Err { start, end: e, ch, .. } => {
                    if start >= e || e > data.len() {
                        return Err(format!("call at {pos}: error range {start}..{e} of {} bytes", data.len()));
                    }
                    t.errs.push((pos + start, pos + e, t.out.len(), ch));
                    pos += e;
                    if inside(pos) {
                        return Err(format!("call at {}: error range ends inside a character", pos - e));
                    }
                    if pos == fed {
                        if end {
                            return Ok(t);
                        }
                        k += 1;
                        fed = ends[k];
                    }
                }
                R::Panic(p) => return Err(format!("call at {pos} panicked: {p}")),
            }
        }
    }
    pub fn oneshot(&mut self, codec: usize, dir: Dir, input: &[u8], off: u8) -> Result<Trace, String> {
        self.stream(codec, dir, input, &[input.len()], &[], off)
    }
    fn schedule(case: &Case) -> (Vec<usize>, Vec<usize>) {
        let k = (case.aux.first().copied().unwrap_or(0) as usize).min(case.aux.len().saturating_sub(1));
        let mut ends = vec![];
        let mut p = 0usize;
        for &s in case.aux.iter().skip(1).take(k) {
            p = (p + s as usize).min(case.input.len());
            if case.dir == Dir::Enc {
                while p < case.input.len() && case.input[p] & 0xC0 == 0x80 {
                    p += 1;
                }
            }
            ends.push(p);
        }
        ends.push(case.input.len());
        let mut caps: Vec<usize> = case.aux.iter().skip(1 + k).map(|&x| (x as usize).max(4)).collect();
        if caps.is_empty() {
            caps.push(case.cap.max(4));
        }
        (ends, caps)
    }
    fn stream_prop(&mut self, case: &Case) -> V {
        let (ends, caps) = Cx::schedule(case);
        let merge = |t: &mut Trace| {
            // UTF-8: how many errors a run of malformed bytes counts as depends on how much of it is in view.
            let mut v: Vec<(usize, usize, usize, char)> = vec![];
            for &e in &t.errs {
                match v.last_mut() {
                    Some(l) if l.1 == e.0 && l.2 == e.2 => l.1 = e.1,
                    _ => v.push(e),
                }
            }
            t.errs = v;
        };
        let mut a = self.stream(case.codec, case.dir, &case.input, &ends, &caps, case.off)
            .map_err(|e| format!("{}\n  chunked (chunk ends {:?}, buffers {:?}): {e}", desc(case, self), ends, caps))?;
        let mut b = self.oneshot(case.codec, case.dir, &case.input, case.off)
            .map_err(|e| format!("{}\n  all at once: {e}", desc(case, self)))?;
        self.nontrivial |= a.calls > 1;
        let ev = if a.splits > 0 { 2 } else if !a.errs.is_empty() { 4 } else { 0 };
        self.events[case.codec][case.dir as usize][ev] += 1;
        if case.dir == Dir::Dec && self.codecs[case.codec].fam == Fam::Utf8 {
            merge(&mut a);
            merge(&mut b);
        }
        if a.out != b.out || a.errs != b.errs {
            return Err(format!(
                "{}\n  chunk ends {:?}, buffers {:?}\n  chunked:     out={} errors={:?}\n  all at once: out={} errors={:?}",
                desc(case, self), ends, caps, hex(&a.out), &a.errs[..a.errs.len().min(8)], hex(&b.out), &b.errs[..b.errs.len().min(8)]
            ));
        }
        Ok(())
    }

    /// Which encoding a case of C24 converts to, and what draws its other choices.
    pub fn target(&self, case: &Case) -> (usize, Rng) {
        let n = self.codecs.len();
        // The seven larger encodings as often as all the others together.
        let k = case.cap % (2 * n);
        (if k < n { k } else { k % 7 }, Rng::new((case.cap / (2 * n)) as u64))
    }

    /// From one encoding to another: decode into a fixed text buffer, encode from that into a fixed output
    /// buffer, carry over what was not consumed, leave out malformed bytes, write `?` for what cannot be encoded.
    fn transcode(&mut self, case: &Case) -> V {
        let (to, mut rng) = self.target(case);
        let from = case.codec;
        let (ends, caps) = Cx::schedule(case);
        let input = &case.input[..];
        let mut mid = vec![self.fill; caps[0].max(8).min(4 * input.len() + 16)];
        let mut out = vec![self.fill; caps.get(1).copied().unwrap_or_else(|| 4 + rng.below(24)).min(8 * input.len() + 16)];
        let lazy = rng.below(3);
        let say = |cx: &Cx, e: String| {
            format!("{} to {}\n  chunk ends {:?}, text buffer {}, output buffer {}\n  {e}", desc(case, cx), cx.codecs[to].name, ends, mid_len(&caps, input), out_len(&caps))
        };
        fn mid_len(caps: &[usize], input: &[u8]) -> usize {
            caps[0].max(8).min(4 * input.len() + 16)
        }
        fn out_len(caps: &[usize]) -> String {
            caps.get(1).map_or("small".into(), |c| c.to_string())
        }
        let mut got: Vec<u8> = vec![];
        // What was read, made and written, in order: (from, to, text offset) and (text offset, character).
        let mut bad: Vec<(usize, usize, usize)> = vec![];
        let mut subst: Vec<(usize, char)> = vec![];
        let (mut k, mut fed, mut pos, mut done) = (0, ends[0], 0, false);
        // Text waits at head..filled of the buffer; its offset in all the text is `texts`.
        let (mut head, mut filled, mut texts) = (0, 0, 0);
        let limit = 32 * (input.len() + ends.len()) + 64;
        let mut steps = 0;
        let inside = |t: &[u8], n: usize| n == t.len() || (n < t.len() && t[n] & 0xC0 != 0x80);
        while !done || filled > head {
            steps += 1;
            if steps > limit {
                return Err(say(self, format!("not finished after {limit} rounds (at {pos}, {} bytes of text waiting)", filled - head)));
            }
            if head * 2 >= mid.len() || filled - head < 4 {
                mid.copy_within(head..filled, 0);
                filled -= head;
                head = 0;
            }
            let room = mid.len() - filled;
            let mut decoded = false;
            if !done && room >= 4 {
                decoded = true;
                let end = k + 1 == ends.len();
                let r = self.call_raw(from, Dir::Dec, &input[pos..fed], &mut mid[filled..], end);
                let (n, wrote, stuck) = match r {
                    R::Ok { n, len, .. } => (n, len, n == 0),
                    R::Err { start, end: e, written, .. } if start < e && e <= fed - pos => {
                        bad.push((pos + start, pos + e, texts + filled - head + written));
                        (e, written, false)
                    }
                    _ => return Err(say(self, format!("decoding at {pos}: {r:?}"))),
                };
                if n > fed - pos || wrote > room {
                    return Err(say(self, format!("decoding at {pos}: {r:?}")));
                }
                if std::str::from_utf8(&mid[filled..filled + wrote]).is_err() {
                    return Err(say(self, format!("decoding at {pos} gave text that is not UTF-8: {}", hex(&mid[filled..filled + wrote]))));
                }
                pos += n;
                filled += wrote;
                if pos == fed || (stuck && !end) {
                    if end {
                        done = true;
                    } else {
                        k += 1;
                        fed = ends[k];
                    }
                } else if stuck {
                    return Err(say(self, format!("decoding does not get on at {pos} of {} with {room} bytes of room", input.len())));
                }
            }
            if decoded && !done && lazy == 2 && rng.one_in(2) {
                continue;
            }
            loop {
                let text = &mid[head..filled];
                let r = self.call_raw(to, Dir::Enc, text, &mut out, done);
                let n = match r {
                    R::Ok { n, len, .. } if inside(text, n) && len <= out.len() => {
                        got.extend_from_slice(&out[..len]);
                        n
                    }
                    R::Err { start, end: e, ch, written, .. } if start < e && inside(text, e) && written <= out.len() => {
                        got.extend_from_slice(&out[..written]);
                        subst.push((texts + start, ch));
                        match self.call_raw(to, Dir::Enc, b"?", &mut out, true) {
                            R::Ok { n: 1, len, .. } if len <= out.len() => got.extend_from_slice(&out[..len]),
                            r => return Err(say(self, format!("encoding \"?\": {r:?}"))),
                        }
                        e
                    }
                    _ => return Err(say(self, format!("encoding {}: {r:?}", hex(&mid[head..filled])))),
                };
                let left = filled - head;
                if n == 0 && left > 0 && (done || mid.len() - left < 4) {
                    return Err(say(self, format!("encoding does not get on with {} into {} bytes", hex(&mid[head..filled]), out.len())));
                }
                head += n;
                texts += n;
                if n == 0 || filled == head || lazy == 1 {
                    break;
                }
            }
        }
        // The same without the library.
        let (ff, tf) = (self.codecs[from].fam, self.codecs[to].fam);
        let mut buf = std::mem::take(&mut self.exp);
        let mut text: Vec<u8> = vec![];
        let mut xbad = vec![];
        let mut p = 0;
        while p < input.len() {
            let e = self.m.call(ff, Dir::Dec, &input[p..], usize::MAX >> 1, true, &mut buf);
            text.extend_from_slice(&buf);
            p += e.n;
            if let Stop::Bad { len, .. } = e.stop {
                xbad.push((p, p + len, text.len()));
                p += len;
            }
        }
        let mut want: Vec<u8> = vec![];
        let mut xsubst = vec![];
        p = 0;
        while p < text.len() {
            let e = self.m.call(tf, Dir::Enc, &text[p..], usize::MAX >> 1, true, &mut buf);
            want.extend_from_slice(&buf);
            p += e.n;
            if let Stop::Bad { len, ch, .. } = e.stop {
                xsubst.push((p, ch));
                let mut o = [0; 4];
                let n = self.m.enc_char(tf, '?', &mut o).unwrap_or(0);
                want.extend_from_slice(&o[..n]);
                p += len;
            }
        }
        self.exp = buf;
        let merge = |v: Vec<(usize, usize, usize)>| {
            let mut w: Vec<(usize, usize, usize)> = vec![];
            for e in v {
                match w.last_mut() {
                    Some(l) if l.1 == e.0 && l.2 == e.2 && ff == Fam::Utf8 => l.1 = e.1,
                    _ => w.push(e),
                }
            }
            w
        };
        let (bad, xbad) = (merge(bad), merge(xbad));
        self.nontrivial |= steps > 1;
        self.pairs[from * self.codecs.len() + to] += 1;
        for (x, y) in self.flow.iter_mut().zip([steps, bad.len(), subst.len()]) {
            *x += y as u64;
        }
        let ev = if !bad.is_empty() { 4 } else if !subst.is_empty() { 5 } else { 0 };
        self.events[from][1][ev] += 1;
        self.events[to][0][if subst.is_empty() { 0 } else { 4 }] += 1;
        if got != want || bad != xbad || subst != xsubst {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(say(self, format!(
                "observed {} bytes {}, malformed {:?}, replaced {:?}\n  expected {} bytes {}, malformed {:?}, replaced {:?}\n  outputs differ from byte {at}: {} and {}",
                got.len(), hex(&got), &bad[..bad.len().min(8)], &subst[..subst.len().min(8)],
                want.len(), hex(&want), &xbad[..xbad.len().min(8)], &xsubst[..xsubst.len().min(8)],
                hex(&got[at.min(got.len())..]), hex(&want[at.min(want.len())..])
            )));
        }
        Ok(())
    }

    fn roundtrip(&mut self, case: &Case) -> V {
        let c = &self.codecs[case.codec];
        let fam = c.fam;
        let lossy = matches!(fam, Fam::Big5 | Fam::Sjis);
        let d = |cx: &Cx, w: &str, a: &[u8], b: &[u8]| format!("{}\n  {w}\n  first  {}\n  second {}", desc(case, cx), hex(a), hex(b));
        match case.dir {
            Dir::Enc => {
                let t = self.oneshot(case.codec, Dir::Enc, &case.input, case.off).map_err(|e| format!("{}\n  {e}", desc(case, self)))?;
                let mut text: Vec<u8> = Vec::with_capacity(case.input.len());
                let mut p = 0;
                for e in &t.errs {
                    text.extend_from_slice(&case.input[p..e.0]);
                    p = e.1;
                }
                text.extend_from_slice(&case.input[p..]);
                if fam == Fam::Sjis {
                    let s: String = std::str::from_utf8(&text).map_err(|_| d(self, "error range splits a character", &text, &[]))?
                        .chars()
                        .map(|c| match c {
                            '\u{A5}' => '\\',
                            '\u{203E}' => '~',
                            '\u{2212}' => '\u{FF0D}',
                            c => c,
                        })
                        .collect();
                    text = s.into_bytes();
                }
                self.nontrivial |= !text.is_empty();
                self.events[case.codec][0][if t.errs.is_empty() { 0 } else { 4 }] += 1;
                let back = self.oneshot(case.codec, Dir::Dec, &t.out, case.off).map_err(|e| format!("{}\n  decoding back: {e}", desc(case, self)))?;
                if !back.errs.is_empty() {
                    return Err(d(self, &format!("encoded text does not decode: {:?}", &back.errs[..1]), &text, &t.out));
                }
                if back.out != text {
                    return Err(d(self, "text changed in a round trip", &text, &back.out));
                }
                Ok(())
            }
            Dir::Dec => {
                let t = self.oneshot(case.codec, Dir::Dec, &case.input, case.off).map_err(|e| format!("{}\n  {e}", desc(case, self)))?;
                let mut good: Vec<u8> = Vec::with_capacity(case.input.len());
                let mut p = 0;
                for e in &t.errs {
                    good.extend_from_slice(&case.input[p..e.0]);
                    p = e.1;
                }
                good.extend_from_slice(&case.input[p..]);
                self.nontrivial |= !good.is_empty();
                self.events[case.codec][1][if t.errs.is_empty() { 0 } else { 4 }] += 1;
                if std::str::from_utf8(&t.out).is_err() {
                    return Err(d(self, "decoded text is not UTF-8", &t.out, &[]));
                }
                let back = self.oneshot(case.codec, Dir::Enc, &t.out, case.off).map_err(|e| format!("{}\n  encoding back: {e}", desc(case, self)))?;
                if !back.errs.is_empty() {
                    return Err(d(self, &format!("decoded text does not encode: {:?}", &back.errs[..1]), &good, &t.out));
                }
                if !lossy {
                    if back.out != good {
                        return Err(d(self, "bytes changed in a round trip", &good, &back.out));
                    }
                    return Ok(());
                }
                let again = self.oneshot(case.codec, Dir::Dec, &back.out, case.off).map_err(|e| format!("{}\n  decoding again: {e}", desc(case, self)))?;
                if !again.errs.is_empty() || again.out != t.out {
                    return Err(d(self, "decoded text changed when encoded and decoded again", &t.out, &again.out));
                }
                Ok(())
            }
        }
    }

    fn end_flag(&mut self, case: &Case) -> V {
        let fam = self.codecs[case.codec].fam;
        let (dir, input, cap) = (case.dir, &case.input[..], case.cap);
        let (bf, rf, ef) = self.judge(case.codec, dir, input, cap, false, case.off);
        let of: Vec<u8> = match rf {
            R::Ok { len, .. } => self.out(len).to_vec(),
            R::Err { written, .. } if written <= cap => self.out(written).to_vec(),
            _ => vec![],
        };
        let explain_f = if bf != 0 { self.explain(bf, case, input, cap, false, &rf, &ef) } else { String::new() };
        let (bt, rt, et) = self.judge(case.codec, dir, input, cap, true, case.off);
        let ot: Vec<u8> = match rt {
            R::Ok { len, .. } => self.out(len).to_vec(),
            R::Err { written, .. } if written <= cap => self.out(written).to_vec(),
            _ => vec![],
        };
        let both = format!("without end: {rf:?} {}\n  with end:    {rt:?} {}", hex(&of), hex(&ot));
        if bf & PANIC != 0 || bt & PANIC != 0 {
            return Err(format!("{}\n  {both}", desc(case, self)));
        }
        if ef.stop == Stop::Pending {
            // Reached an incomplete tail.
            self.nontrivial = true;
            if bf != 0 {
                return Err(format!("incomplete input, end not declared: {explain_f}"));
            }
            if bt != 0 {
                return Err(format!("incomplete input, end declared: {}", self.explain(bt, case, input, cap, true, &rt, &et)));
            }
            return Ok(());
        }
        let early = |e: &Exp| matches!(e.stop, Stop::Bad { .. }) && (e.room < max_out(fam, dir) || (dir == Dir::Dec && input.len() - e.n < max_in(fam)));
        if early(&ef) {
            // An error may be put off here; what is reported must still be right.
            if (bf | bt) & !MAX != 0 {
                return Err(format!("{}\n  {both}", desc(case, self)));
            }
            return Ok(());
        }
        self.nontrivial |= ef.units > 0;
        if rf != rt || of != ot {
            return Err(format!("the end flag changes the outcome for input that is not incomplete\n  {}\n  {both}", desc(case, self)));
        }
        Ok(())
    }

    fn mirror(&mut self, case: &Case) -> V {
        let name = self.codecs[case.codec].name;
        let (w, twin) = match self.codecs[case.codec].fam {
            Fam::Utf16 { be: true } => (2, case.codec + 1),
            Fam::Utf32 { be: true } => (4, case.codec + 1),
            _ => return Ok(()),
        };
        let swap = |b: &[u8]| -> Vec<u8> {
            let mut v = b.to_vec();
            for u in v.chunks_exact_mut(w) {
                u.reverse();
            }
            v
        };
        let grab = |cx: &Cx, r: &R| match *r {
            R::Ok { len, .. } => cx.out(len).to_vec(),
            R::Err { written, .. } => cx.out(written.min(case.cap)).to_vec(),
            _ => vec![],
        };
        let (_, ra, ea) = self.judge(case.codec, case.dir, &case.input, case.cap, case.end, case.off);
        let oa = grab(self, &ra);
        self.nontrivial |= ea.units > 0 || ea.stop != Stop::Complete;
        let other = if case.dir == Dir::Dec { swap(&case.input) } else { case.input.clone() };
        let rb = self.call(twin, case.dir, &other, case.cap, case.end, case.off);
        let ob = grab(self, &rb);
        let ob_cmp = if case.dir == Dir::Enc { swap(&ob) } else { ob.clone() };
        let panicked = matches!(ra, R::Panic(_)) || matches!(rb, R::Panic(_));
        if ra != rb || oa != ob_cmp || panicked {
            return Err(format!("{}\n  {name}: {ra:?} {}\n  {}: {rb:?} {}", desc(case, self), hex(&oa), self.codecs[twin].name, hex(&ob)));
        }
        Ok(())
    }

    /// The same call twice, with other earlier contents of the output and another alignment.
    fn pure(&mut self, case: &Case) -> V {
        let mut seen: Option<(R, Vec<u8>)> = None;
        for (fill, off) in [(0xAA, 0), (0x00, case.off), (0xFF, case.off ^ 0x11), (b'x', 0)] {
            self.fill = fill;
            let r = self.call(case.codec, case.dir, &case.input, case.cap, case.end, off);
            self.fill = 0xAA;
            let len = match r {
                R::Ok { len, .. } => len,
                R::Err { written, .. } => written.min(case.cap),
                _ => 0,
            };
            self.nontrivial |= len > 0 || matches!(r, R::Err { .. });
            match &seen {
                None => {
                    let ev = match &r {
                        R::Ok { n, .. } if *n == case.input.len() => 0,
                        R::Ok { .. } => 1,
                        R::Err { .. } => 4,
                        _ => 6,
                    };
                    self.events[case.codec][case.dir as usize][ev] += 1;
                    seen = Some((r, self.out(len).to_vec()));
                }
                Some((r0, o0)) => {
                    if *r0 != r || o0 != self.out(len) {
                        return Err(format!(
                            "the same call has two results (output buffer filled with {fill:#04x}, offsets {off:#04x})\n  {}\n  first {r0:?} {}\n  then  {r:?} {}",
                            desc(case, self), hex(o0), hex(self.out(len))
                        ));
                    }
                }
            }
        }
        Ok(())
    }

    fn confined(&mut self, case: &Case) -> V {
        let (_, r, exp) = self.judge(case.codec, case.dir, &case.input, case.cap, case.end, case.off);
        self.nontrivial |= exp.units > 0 || exp.stop != Stop::Complete;
        let e = |w: &str, cx: &Cx| Err(format!("{w}\n  {}\n  observed {r:?}", desc(case, cx)));
        if std::mem::take(&mut self.guards_broken) {
            return e("wrote outside the output buffer", self);
        }
        if std::mem::take(&mut self.input_changed) {
            return e("wrote into the input", self);
        }
        match r {
            R::Ok { n, len, at_start } => {
                if !at_start || len > case.cap {
                    return e("returned slice is not the leading part of the output buffer", self);
                }
                if n > case.input.len() {
                    return e("consumed more than the input", self);
                }
                if case.dir == Dir::Dec && std::str::from_utf8(self.out(len)).is_err() {
                    return e(&format!("returned text is not valid UTF-8: {}", hex(self.out(len))), self);
                }
                if case.dir == Dir::Enc && n < case.input.len() && case.input[n] & 0xC0 == 0x80 {
                    return e("consumed count is inside a character", self);
                }
            }
            R::Err { start, end, written, .. } => {
                if written > case.cap {
                    return e("reports more bytes written than the buffer holds", self);
                }
                if start >= end || end > case.input.len() {
                    return e("error range is empty or outside the input", self);
                }
                if case.dir == Dir::Dec && std::str::from_utf8(self.out(written)).is_err() {
                    return e(&format!("text written before an error is not valid UTF-8: {}", hex(self.out(written))), self);
                }
            }
            R::Panic(_) => return e("panicked", self),
        }
        Ok(())
    }
}

/// The deciding step: does what this case makes observable refute the property?
pub fn check(prop: u32, case: &Case, cx: &mut Cx) -> V {
    match prop {
        1 => cx.single(case, PANIC),
        2 => cx.confined(case),
        3..=8 => cx.chain(case, ANY),
        9 => cx.roundtrip(case),
        10 | 11 => cx.single(case, PANIC | FID),
        12 => cx.single(case, PANIC | MAX),
        13 | 14 => cx.chain(case, PANIC | ERR_MISSING | ERR_FIELDS | ERR_OUT),
        15 => cx.end_flag(case),
        16 | 17 => cx.stream_prop(case),
        18 => cx.pure(case),
        19 => cx.mirror(case),
        24 => cx.transcode(case),
        20 => {
            cx.allocs = 0;
            let (_, r, exp) = cx.judge(case.codec, case.dir, &case.input, case.cap, case.end, case.off);
            cx.nontrivial |= exp.units > 0 || exp.stop != Stop::Complete;
            if let R::Panic(p) = r {
                return Err(format!("{}\n  panicked: {p}", desc(case, cx)));
            }
            if cx.allocs != 0 {
                return Err(format!("{} heap allocations during the call\n  {}\n  observed {r:?}", cx.allocs, desc(case, cx)));
            }
            Ok(())
        }
        _ => unreachable!("no per-case monitor for property {prop}"),
    }
}
